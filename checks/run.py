#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]

Decides one property:
 1. the contract units of the property (specs/*.vrs) are expanded from /repo's current source and
    given to the deductive verifier;
 2. a vacuity run puts an assertion that must fail behind the precondition of every function
    under contract and at the start of every loop body;
 3. the bounded companion harness runs against the real crate, to find a failing input.

Exit 0, or exit 1 with `VIOLATION property=ID replay=PATH [no-failing-input-found]`.
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import vx
from props import PROPS

BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
T0 = time.time()


def sh_env():
    """the environment of /opt/vp/env.sh, but for the target directory and the hooks"""
    e = dict(os.environ)
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True)
    for kv in r.stdout.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            e[k.decode()] = v.decode(errors='replace')
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    e['RUSTFLAGS'] = '--cfg victor_verif -Awarnings'
    e['VICTOR_VERIF_DIR'] = os.path.join(VERIF, 'hooks')
    e['CARGO_INCREMENTAL'] = '0'
    return e


def sanitize(s):
    return re.sub(r'[^A-Za-z0-9]+', '_', s)


# ------------------------------------------------------------------ the verifier
class Unit:
    back_end = 'Verus with Z3'

    def __init__(self, name, tier):
        self.name = name
        self.tier = tier
        self.status = None          # proved | failed | undecided
        self.reason = ''
        self.failed = []            # [(function, message)]
        self.info = dict(functions=[], items=[], rewrites=[], regions=[])
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.total_ms = 0
        self.output = ''
        self.vacuity = ''
        self.trusted = []
        self.counterexamples = []

    def rlimit(self):
        return '60' if self.tier == 'quick' else '240'

    def verus(self, path, errors='4', rlimit=None):
        cmd = ['verus', path, '--output-json', '--time', '--rlimit', rlimit or self.rlimit(),
               '--triggers-mode', 'silent', '--multiple-errors', errors]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=600 if self.tier == 'quick' else 1800)
        except subprocess.TimeoutExpired:
            return cmd, None, 'timeout'
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = None
        return cmd, j, r.stderr

    def run(self):
        out = os.path.join(BUILD, 'verus')
        os.makedirs(out, exist_ok=True)
        tpl = os.path.join(VERIF, 'specs', self.name + '.vrs')
        self.path = os.path.join(out, self.name + '.rs')
        try:
            src, self.info = vx.expand(tpl, REPO)
        except vx.Lost as e:
            self.status, self.reason = 'undecided', 'lost anchor: %s' % e
            return
        except Exception as e:
            self.status, self.reason = 'undecided', 'extraction failed: %r' % e
            return
        with open(self.path, 'w') as f:
            f.write(src)
        self.scan(src)
        vac = []
        vt = threading.Thread(target=self.check_vacuity, args=(tpl, vac))
        vt.start()
        cmd, j, err = self.verus(self.path)
        vt.join()
        self.cmd = ' '.join(cmd)
        self.output = err
        if j is None or 'verification-results' not in j:
            self.status, self.reason = 'undecided', 'the verifier does not accept the extracted text: ' + err.strip()[:1500]
            return
        v = j['verification-results']
        self.verified, self.errors = v.get('verified', 0), v.get('errors', 0)
        t = j.get('times-ms', {})
        self.total_ms = t.get('total', 0)
        self.smt_ms = (t.get('smt') or {}).get('total', 0) if isinstance(t.get('smt'), dict) else t.get('smt-run', 0)
        if v.get('encountered-vir-error') or (not v.get('success') and self.errors == 0):
            self.status, self.reason = 'undecided', 'the verifier does not accept the extracted text: ' + err.strip()[:1500]
            return
        if v.get('success') and self.errors == 0 and self.verified > 0:
            self.status = 'proved'
            if not vac:
                self.status, self.reason = 'undecided', self.vacuity or 'the vacuity run failed'
            elif vac[0]:
                self.status, self.reason = 'undecided', 'vacuous contracts: ' + ', '.join(vac[0])
            return
        # which obligations failed
        inconclusive = False
        blocks = re.split(r'\n(?=error|note: |warning)', err)
        for b in blocks:
            if not b.startswith('error') or b.startswith('error: aborting'):
                continue
            m = re.search(r'--> [^\n]*?:(\d+):\d+', b)
            msg = b.split('\n')[0]
            where = 'lemma'
            if m:
                ln = int(m.group(1))
                for a, z, w in self.info['regions']:
                    if a <= ln < z:
                        where = w
            if 'Resource limit' in msg or 'rlimit' in msg or 'timeout' in msg.lower():
                inconclusive = True
                self.reason = 'resource limit in ' + where
            else:
                self.failed.append((where, msg))
        if self.failed:
            self.status = 'failed'
        else:
            self.status = 'undecided'
            self.reason = self.reason or 'unknown verifier failure'

    def scan(self, src):
        """every construct that is assumed rather than proved"""
        names = []
        for m in re.finditer(r'(assume_specification|#\[verifier::external_body\]|#\[verifier::external\w*\]|\bassume\s*\(|\badmit\s*\(|\buninterp\b|\baxiom\b)', src):
            rest = src[m.end():m.end() + 400]
            if rest.lstrip().startswith('/*proved in another unit*/'):
                continue
            n = re.search(r'(?:fn|struct|enum|type)\s+(\w+)|\[\s*([^\]]+?)\s*\]', rest)
            names.append('%s: %s' % (m.group(1).strip('#[]('), (n.group(1) or n.group(2)) if n else rest[:40].strip()))
        self.trusted = sorted(set(names))

    def check_vacuity(self, tpl, out):
        """every function under contract must be reachable: assert(false) behind each precondition fails"""
        total, missing = 0, []
        for mode in ['all'] + (['loops'] if any(f['loops'] for f in self.info['functions']) else []):
            src, info = vx.expand(tpl, REPO, canary=mode)
            p = os.path.join(BUILD, 'verus', '%s_vacuity_%s.rs' % (self.name, mode))
            with open(p, 'w') as f:
                f.write(src)
            cmd, j, err = self.verus(p, '20', '10')
            if j is None or 'verification-results' not in j:
                self.vacuity = 'the vacuity run failed: ' + err[:500]
                return
            got, gave_up = set(), set()
            for m in re.finditer(r'error: assertion failed\n\s*--> [^\n]*?:(\d+):', err):
                got.add(int(m.group(1)))
            for m in re.finditer(r'error: [^\n]*Resource limit[^\n]*\n\s*--> [^\n]*?:(\d+):', err):
                gave_up.update(w for a, z, w in info['regions'] if a <= int(m.group(1)) < z)
            total += len(info['canaries'])
            # where the verifier gave up it did not prove false either
            missing += [w for (ln, w) in info['canaries'] if ln not in got and w not in gave_up]
        self.vacuity = '%d of %d reachability assertions fail as they must' % (total - len(missing), total)
        out.append(missing)


# ------------------------------------------------------------------ Kani, where the arithmetic has to be bit-precise
class Kani(Unit):
    """specs/NAME.kani.rs: function contracts on a file of /repo that is included as it is.
    The functions have no loops, so the verdict is for all inputs."""
    back_end = 'Kani with CBMC (CaDiCaL)'

    def run(self):
        out = os.path.join(BUILD, 'kani', '%s-%d' % (self.name, os.getpid()))
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(VERIF, 'specs', self.name + '.kani.rs')) as f:
            src = f.read()
        path = os.path.join(out, self.name + '.rs')
        with open(path, 'w') as f:
            f.write(src.replace('@REPO@', REPO))
        self.info['items'] = re.findall(r'#\[path = "@REPO@/([^"]*)"\]', src)
        for m in re.finditer(r'^\w+!\((\w+), (check_\w+), ([^|]*), \|', src, re.M):
            self.info['functions'].append(dict(name='%s (%s)' % (m.group(1), m.group(3)), loops=0))
        try:
            self.kani(out, path)
        finally:
            shutil.rmtree(out, ignore_errors=True)

    def kani(self, out, path):
        cmd = ['kani', '-Z', 'function-contracts', path]
        self.cmd = ' '.join(cmd)
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=400, cwd=out)
        except subprocess.TimeoutExpired:
            self.status, self.reason = 'undecided', 'timeout'
            return
        self.total_ms = int(1000 * (time.time() - t))
        text = r.stdout
        self.output = text[-20000:]
        parts = re.split(r'^Checking harness (\w+)\.\.\.$', text, flags=re.M)
        unreached, covers = [], 0
        for name, body in zip(parts[1::2], parts[2::2]):
            m = re.search(r'\*\* (\d+) of (\d+) failed', body)
            if not m or 'VERIFICATION:- ' not in body:
                self.status, self.reason = 'undecided', 'no verdict for ' + name
                return
            self.verified += int(m.group(2)) - int(m.group(1))
            self.errors += int(m.group(1))
            self.smt_ms += int(sum(1000 * float(x) for x in re.findall(r'Runtime Solver: ([\d.e-]+)s', body)))
            for st, d in re.findall(r'Check \d+: [^\n]*\n\s*- Status: (\w+)\n\s*- Description: "([^\n]*)"', body):
                if st == 'FAILURE':
                    self.failed.append((name, d))
                elif st in ('SATISFIED', 'UNSATISFIABLE', 'UNREACHABLE') and d == 'a number within the limits':
                    covers += 1
                    if st != 'SATISFIED':
                        unreached.append(name)
            if 'VERIFICATION:- FAILED' in body and not self.failed:
                self.failed.append((name, 'verification failed'))
        if len(parts) < 3 or len(parts) // 2 != len(self.info['functions']):
            self.status, self.reason = 'undecided', 'Kani does not accept the file: ' + (r.stderr + text)[-1200:]
            return
        self.vacuity = '%d of %d cover properties reached' % (covers - len(unreached), covers)
        if self.failed:
            self.status = 'failed'
            self.playback(out, path)
        elif unreached:
            self.status, self.reason = 'undecided', 'vacuous contracts: ' + ', '.join(unreached)
        else:
            self.status = 'proved'

    def playback(self, out, path):
        for name in sorted(set(n for n, _ in self.failed)):
            try:
                r = subprocess.run(['kani', '-Z', 'function-contracts', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness', name, path],
                                   capture_output=True, text=True, errors='replace', timeout=200, cwd=out)
            except subprocess.TimeoutExpired:
                continue
            kind = name.replace('check_', '').replace('_to_', '-')
            for b in re.findall(r'^\s*vec!\[([\d, ]+)\]', r.stdout, re.M):
                b = bytes(int(x) for x in b.split(','))
                n = int.from_bytes(b, 'little', signed=kind.startswith('i'))
                self.counterexamples.append(('lester+convert:convert', '%s %s' % (kind, '%016x' % n if kind.startswith('f64') else n)))


# ------------------------------------------------------------------ the companion harness
class Harness:
    def __init__(self, pid, cfg, tier, seed):
        self.cfg, self.tier, self.seed, self.pid = cfg, tier, seed, pid
        self.built = {}
        self.error = ''

    def crate(self, mode):
        """`mode`, `crate:mode` or `crate+feature:mode`"""
        if ':' not in mode:
            return 'harness', None, mode
        c, m = mode.split(':')
        c, _, f = c.partition('+')
        return 'harness_' + c, f or None, m

    def build(self, mode):
        name, feature, _ = self.crate(mode)
        key = (name, feature)
        if key not in self.built:
            cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(VERIF, name, 'Cargo.toml')]
            if feature:
                cmd += ['--features', feature]
            r = subprocess.run(cmd, capture_output=True, text=True, env=sh_env())
            self.built[key] = r.returncode == 0
            if r.returncode != 0:
                self.error += r.stderr[-3000:]
            else:
                # another feature of the same crate is built to the same place
                shutil.copy(os.path.join(BUILD, 'target', 'debug', name), self.exe(mode))
        return self.built[key]

    def exe(self, mode):
        name, feature, _ = self.crate(mode)
        return os.path.join(BUILD, 'target', 'debug', 'run-%s%s' % (name, '-' + feature if feature else ''))

    def limit(self):
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def one(self, mode, casefile, timeout=60):
        try:
            r = subprocess.run([self.exe(mode), 'one', self.crate(mode)[2], casefile], capture_output=True, text=True,
                               errors='replace', timeout=timeout, preexec_fn=self.limit, env=sh_env())
        except subprocess.TimeoutExpired:
            return 'does not finish (%d s)' % timeout
        if r.returncode == 0:
            return None
        if r.returncode == 1:
            return r.stdout.strip()
        return 'the process ended with status %d: %s' % (r.returncode, r.stderr[-300:])

    def run(self, mode):
        cur = os.path.join(BUILD, 'cur-%s-%s-%d' % (self.pid, sanitize(mode), os.getpid()))
        shutil.rmtree(cur, ignore_errors=True)
        os.makedirs(cur)
        out = os.path.join(cur, 'out.json')
        try:
            r = subprocess.run([self.exe(mode), 'run', self.crate(mode)[2], self.tier, str(self.seed), out, cur],
                               capture_output=True, text=True, errors='replace', preexec_fn=self.limit, env=sh_env(),
                               timeout=500 if self.tier == 'quick' else 3000)
            status = r.returncode
        except subprocess.TimeoutExpired:
            status = 'timeout'
        res = None
        if status == 0 and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        else:
            # the process died: which of the current cases kills it?
            res = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], violations=[])
            for n in sorted(os.listdir(cur)):
                if n.startswith('cur'):
                    m = self.one(mode, os.path.join(cur, n))
                    if m:
                        with open(os.path.join(cur, n), errors='replace') as f:
                            res['violations'].append(dict(case=f.read(), message=m, key=''))
            if not res['violations']:
                self.error += 'the harness ended with status %s' % status
                res = None
        shutil.rmtree(cur, ignore_errors=True)
        return res


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    units = [Unit(u, tier) for u in cfg.get('units', [])] + [Kani(u, tier) for u in cfg.get('kani', [])]
    har = Harness(pid, cfg, tier, seed)
    modes = cfg.get('harness', [])
    bt = threading.Thread(target=lambda: [har.build(m) for m in modes])
    bt.start()
    ths = [threading.Thread(target=u.run) for u in units]
    for t in ths:
        t.start()
    bt.join()
    results = []
    for mode in modes:
        if not har.build(mode):
            continue
        res = har.run(mode)
        if res is not None:
            results.append((mode, res))
            if any(not v['key'] for v in res['violations']):
                break
    for t in ths:
        t.join()

    known = known_findings(pid)
    keep = cfg.get('functions')
    keep_msg = cfg.get('messages')
    failed = []
    for u in units:
        if u.status == 'failed':
            f = [x for x in u.failed if x[0] == 'lemma' or ((keep is None or re.search(keep, x[0])) and (keep_msg is None or re.search(keep_msg, x[1])))]
            if f:
                failed.append((u, f))
            else:
                u.status = 'proved-elsewhere'
                u.reason = 'failures only in functions of other properties: ' + '; '.join(sorted(set(x[0] for x in u.failed)))
    witness = None
    reported = {}
    for mode, res in results:
        for v in res['violations']:
            if v['key'] and v['key'] in known:
                reported[v['key']] = known[v['key']]
            elif witness is None:
                witness = (mode, v)
    for k in sorted(reported):
        print('KNOWN-FINDING: property=%s %s' % (pid, reported[k]))

    for u, fl in failed:
        # the counterexample of the verifier, replayed against the real code
        for mode, case in u.counterexamples:
            if witness is None and har.build(mode):
                cp = os.path.join(BUILD, 'counterexample-%s-%d' % (pid, os.getpid()))
                with open(cp, 'w') as f:
                    f.write(case)
                m = har.one(mode, cp)
                os.remove(cp)
                if m:
                    witness = (mode, dict(case=case, message=m, key=''))

    undecided = [u for u in units if u.status == 'undecided']
    proved = [u for u in units if u.status in ('proved', 'proved-elsewhere')]
    violation = None
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    if witness:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.case' % pid)
        mode, v = witness
        with open(rp, 'w') as f:
            f.write(v['case'])
        with open(rp + '.txt', 'w') as f:
            f.write('property %s, %s\n\nfailing input: %s\nreplay: bash %s/checks/replay.sh %s %s\n\nwhat fails on the real code:\n%s\n'
                    % (pid, cfg['title'], rp, VERIF, mode, rp, v['message']))
            for u, fl in failed:
                f.write('\nfailed obligations in unit %s:\n' % u.name)
                for w, m in fl:
                    f.write('  %s: %s\n' % (w, m))
                f.write(u.output[-6000:])
        violation = 'VIOLATION property=%s replay=%s' % (pid, rp)
        print('the real code fails: ' + v['message'][:1000])
    elif failed:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.obligation' % pid)
        with open(rp, 'w') as f:
            f.write('property %s, %s\n\nno failing input found; obligations that the verifier no longer accepts:\n' % (pid, cfg['title']))
            for u, fl in failed:
                for w, m in fl:
                    f.write('  %s: %s: %s\n' % (u.name, w, m))
            for u, fl in failed:
                f.write('\n--- %s\n%s\n' % (u.cmd, u.output))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)

    # ---- evidence
    cov = {}
    level = cfg['level']
    full = units and not undecided and not failed
    cov['obligations'] = sum(u.verified + u.errors for u in units)
    cov['discharged'] = sum(u.verified for u in units)
    cov['checker_cmd'] = '; '.join(getattr(u, 'cmd', 'verus ' + u.name) for u in units)
    cov['trusted_base'] = (['Verus 0.2026.09.13, Z3 4.12.5 (bundled), vstd specifications of the standard library',
                            'tools/vx.py (extraction; every rewrite it applies is listed under rewrites)'] if cfg.get('units') else []) + \
        (['Kani 0.68.0, CBMC and its SAT solver'] if cfg.get('kani') else []) + \
        sorted(set(t for u in units for t in u.trusted)) + cfg.get('trusted', [])
    cov['units'] = [dict(unit=u.name, status=u.status, reason=u.reason[:600], functions_under_contract=[f['name'] for f in u.info['functions']],
                         items=u.info['items'], rewrites=u.info['rewrites'], obligations=u.verified + u.errors,
                         discharged=u.verified, back_end=u.back_end, solver_ms=u.smt_ms, total_ms=u.total_ms, vacuity=u.vacuity,
                         failed=['%s: %s' % x for x in u.failed]) for u in units]
    ev = 0
    di = 0
    samples = []
    rules = []
    for mode, res in results:
        ev += res['evaluations']
        di += res['distinct_nontrivial']
        samples += res['samples'][:3]
        rules.append('%s: %s' % (mode, res['rule']))
    cov['evaluations'] = ev
    cov['distinct_nontrivial'] = di
    cov['rule'] = '; '.join(rules) or 'no harness ran'
    cov['samples'] = samples
    cov['bounded_companion'] = cfg.get('bounded', '')
    if har.error:
        cov['harness_error'] = har.error[-1500:]
    if level == 'proof' and not full:
        level = 'exploration'
        cov['explanation'] = 'not all obligations were decided on this tree; what is covered is what the bounded companion explored'
    evidence = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                    assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - T0, 2),
                    violations=1 if violation else 0)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write('\n')

    for u in units:
        print('unit %s: %s, %d verified, %d errors, %s %s' % (u.name, u.status, u.verified, u.errors, u.vacuity, u.reason[:300]))
    for mode, res in results:
        print('harness %s: %d evaluations, %d distinct' % (mode, res['evaluations'], res['distinct_nontrivial']))
    if har.error:
        print('harness: ' + har.error[-800:])
    if violation:
        print(violation)
        sys.exit(1)
    if not full and not results:
        # nothing was decided: neither a proof nor an exploration
        print('nothing decided')
        sys.exit(2)
    print('held: property=%s (%s)' % (pid, level))
    sys.exit(0)


main()
