#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : makes /verif/seeded/<id>/ from a small description and checks it against /repo.
A description sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (Rust program that exits non-zero when broken)."""
import json, os, subprocess, sys
V = '/verif/seeded'
DEMO = '''#!/bin/bash
# Builds and runs the small program beside this file against /repo.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.1"
edition = "2018"
[workspace]
[dependencies]
%s
T
cd "$d"
cargo build --offline --quiet > "$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 120 /repo/target/debug/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, g['ID'])
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo is not clean'
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in g['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (g['ID'], f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    dep = g.get('DEPS', 'victor = {path = "/repo/victor"}')
    demo = DEMO % dep
    if 'HOOK' in g:
        # private functions are reached through the program's own hook files
        demo = demo.replace('cd "$d"\n', 'cd "$d"\nexport RUSTFLAGS="--cfg victor_verif" VICTOR_VERIF_DIR="$here/hooks" CARGO_TARGET_DIR="$d/target"\n').replace('/repo/target/debug/demo', '"$d/target/debug/demo"')
        os.makedirs(d + '/hooks', exist_ok=True)
        for n in ('root.rs', 'dom.rs', 'dom_html.rs', 'pdf.rs'):
            open(d + '/hooks/' + n, 'w').write(g['HOOK'].lstrip('\n') if n == 'root.rs' else '')
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(g['MAIN'].lstrip('\n'))
    json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    if '--no-check' in sys.argv: return
    r0 = sh('cd /repo && bash %s/demo.sh' % d)
    ok0 = r0.returncode == 0
    sh('git -C /repo apply %s/patch.diff' % d)
    try:
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = base - set(json.load(open('/tmp/seed_out.json'))['passed'])
        r1 = sh('cd /repo && bash %s/demo.sh' % d)
        c = None
        if '--no-run' not in sys.argv:
            c = sh('cd /verif && python3 checks/run.py %s' % g['PROPERTY'])
    finally:
        sh('git -C /repo checkout -- .')
    print(g['ID'], 'demo unchanged:', r0.returncode, 'build:', b.returncode, 'tests missing:', sorted(miss), 'demo patched:', r1.returncode,
          'check:', c and (c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'undecided' in l or 'the real code' in l]))
    if r0.returncode: print(r0.stdout[-800:], r0.stderr[-800:])
    if r1.returncode in (0, 3): print('PATCHED DEMO', r1.stdout[-800:], r1.stderr[-300:])
    if b.returncode: print(b.stderr[-1500:])
for a in sys.argv[1:]:
    if not a.startswith('--'): main(a)
