#!/usr/bin/env python3
"""writes MANIFEST.json from checks/props.py and properties.jsonl"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
from props import PROPS, NOT_APPLICABLE
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n') if 'verification hooks' in l]
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        assert c['title'] == p['title'], i
        d = dict(property=i, quick_cmd='python3 checks/run.py %s --tier quick' % i,
                 thorough_cmd='python3 checks/run.py %s --tier thorough' % i,
                 technique=c.get('technique', 'contract-based deductive verification (Verus) of functions extracted from the current source, with a bounded companion harness on the real crate for failing inputs'),
                 level=c['level'], level_note=c['note'])
        checks.append(d)
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='bash checks/setup.sh',
         hooks=dict(guard='cfg(victor_verif)', enable='RUSTFLAGS="--cfg victor_verif" VICTOR_VERIF_DIR=/verif/hooks (done by checks/run.py when it builds /verif/harness)', source_commits=hooks),
         checks=checks, not_applicable=na,
         notes='Every check expands its contract units from /repo\'s current source, runs Verus on them, runs a vacuity pass, and runs a bounded harness on the real crate. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
