#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current working tree (see DESIGN.md)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(V, 'build')
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
THOROUGH = TIER == 'thorough'
LIMIT = 3600 if THOROUGH else 840
PROCS = []


def left():
    return LIMIT - (time.time() - T0)


def sh(cmd, cwd=None, env=None, timeout=None, out=None):
    """Runs a command in its own process group; returns (rc, stdout, stderr); rc None on timeout."""
    e = dict(os.environ)
    e.update(env or {})
    so = open(out, 'wb') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=so, stderr=subprocess.PIPE, start_new_session=True)
    PROCS.append(p)
    try:
        o, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, err = p.communicate()
        rc = None
    if out:
        so.close()
    dec = lambda b: (b or b'').decode('utf-8', 'replace')
    return rc, dec(o), dec(err)


def cargo_env(target):
    e = {'CARGO_TARGET_DIR': os.path.join(BUILD, target), 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'RUSTC_WRAPPER': '',
         'CARGO_INCREMENTAL': '1'}
    return e


# ------------------------------------------------------------------------------ building blocks
def build_driver():
    rc, o, err = sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(V, 'driver'), env=cargo_env('driver'), timeout=400)
    b = os.path.join(BUILD, 'driver', 'debug', 'driver')
    if rc != 0:
        return None, err[-3000:]
    return b, ''


def build_vx():
    rc, o, err = sh(['cargo', 'build', '--offline', '--release', '-q'], cwd=os.path.join(V, 'tools/vx'), env=cargo_env('vx'), timeout=400)
    b = os.path.join(BUILD, 'vx', 'release', 'vx')
    return (b if rc == 0 else None), err[-2000:]


def expand(work):
    out = os.path.join(work, 'expanded.rs')
    # the lib's own unit must be recompiled to be printed; its dependencies are reused
    lock = os.path.join(REPO, 'Cargo.lock')
    had = os.path.exists(lock)
    rc, o, err = sh(['cargo', '+nightly', 'rustc', '--offline', '--lib', '-q', '--', '-Zunpretty=expanded'], cwd=REPO,
                    env=cargo_env('expand'), timeout=400, out=out)
    if rc != 0 or os.path.getsize(out) < 1000:
        return None, err[-3000:]
    return out, ''


ERR = re.compile(r'^(error|warning)(\[E\d+\])?: (.*)$')
LOC = re.compile(r'^\s*(?:-->|:::) (.+?):(\d+):(\d+)')
GLOC = re.compile(r'^\s*(\d+)\s*\|')


def parse_errors(text, fname):
    """Errors of a verus/rustc run as dicts(msg, lines, text)."""
    out, cur = [], None
    for l in text.splitlines():
        m = ERR.match(l)
        if m:
            cur = None
            if m.group(1) == 'error' and not m.group(3).startswith('aborting due'):
                cur = {'msg': m.group(3), 'code': m.group(2), 'lines': [], 'text': l + '\n'}
                out.append(cur)
            continue
        if cur is None:
            continue
        if l.startswith('note:') or l.startswith('{'):
            cur = None
            continue
        cur['text'] += l + '\n'
        m = LOC.match(l)
        if m:
            cur['infile'] = os.path.basename(m.group(1)) == os.path.basename(fname)
            if cur['infile']:
                cur['lines'].append(int(m.group(2)))
        else:
            m = GLOC.match(l)
            if m and cur.get('infile', False):
                cur['lines'].append(int(m.group(1)))
    return out


SEMANTIC = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion (failed|not satisfied)|invariant not satisfied|'
                      r'possible (arithmetic|bit shift|division|unsigned)|possible.*(overflow|underflow|division by zero)|'
                      r'decreases not satisfied|could not prove termination|recommendation not met|unable to (prove|show)|loop (ensures|invariant)|'
                      r'unreachable|cannot show|must show|trait method ensures')


PANIC = re.compile(r'possible.*(arithmetic|overflow|underflow|division|bit shift)|decreases not satisfied|could not prove termination|unreachable')
SLOTS = threading.Semaphore(int(os.environ.get('VERIF_SLOTS', '4')))


def may_panic(unit, lab, x):
    """The failed obligation is about running into a panic or not returning, not about the result."""
    if lab.startswith('template'):
        return False
    if PANIC.search(x['msg']):
        return True
    if 'precondition not satisfied' not in x['msg']:
        return False
    ls = open(unit.rs).read().splitlines()
    for n in x['lines'][1:]:
        for k in range(min(n, len(ls)) - 1, -1, -1):
            m = re.search(r'\b(proof\s+fn|axiom\s+fn|fn)\s+\w+', ls[k])
            if m:
                if m.group(1) != 'fn':
                    return False
                break
    return True


class Unit:
    """One Verus crate: the extracted functions with their contracts."""

    def __init__(self, name, work, vx, expanded):
        self.name, self.work, self.vx, self.exp = name, work, vx, expanded
        self.status = 'error'      # ok | failed | undecided
        self.fail = []             # (label, props, error)
        self.undecided = []        # reasons
        self.trusted_now = []      # labels whose body could not be processed this run
        self.info = {}
        self.canary_bad = []
        self.verified = self.errors = 0
        self.solver_ms = 0
        self.cmd = ''

    def extract(self, suffix, extra):
        rs = os.path.join(self.work, f'{self.name}{suffix}.rs')
        js = os.path.join(self.work, f'{self.name}{suffix}.json')
        cmd = [self.vx, 'unit', self.exp, os.path.join(V, 'contracts', self.name + '.rs'), os.path.join(V, 'contracts', 'renames.txt'), rs, js] + extra
        rc, o, err = sh(cmd, timeout=120)
        if rc != 0:
            return None, None, (o + err)[-1500:]
        return rs, json.load(open(js)), ''

    def label_at(self, info, rs, line):
        hit = [f for f in info['functions'] if f['line0'] <= line <= f['line1']]
        if hit:
            f = max(hit, key=lambda f: f['line0'])
            return f['fn'], f
        # a lemma or spec of the template: nearest `fn` above
        ls = open(rs).read().splitlines()
        for k in range(min(line, len(ls)) - 1, -1, -1):
            m = re.search(r'\bfn\s+(\w+)', ls[k])
            if m:
                return 'template: ' + m.group(1), None
        return 'template', None

    def props_at(self, info, rs, err):
        ls = open(rs).read().splitlines()
        ranges = info.get('ranges', [])
        for n in err['lines']:
            m = re.search(r'//\s*\[((?:C\d\d[ ,]*)+)\]', ls[n - 1]) if n <= len(ls) else None
            if m:
                return re.findall(r'C\d\d', m.group(1))
        for n in err['lines'][:1]:
            for r in ranges:
                if r['line0'] <= n < r['line1']:
                    return re.findall(r'C\d\d', r['props'])
        return []

    def verus(self, rs, timeout):
        cmd = ['verus', rs, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--num-threads', '4', '--crate-type=lib', '--rlimit', '40', '--multiple-errors', '3']
        self.cmd = 'verus <unit>.rs ' + ' '.join(cmd[2:])
        with SLOTS:
            rc, o, err = sh(cmd, cwd=self.work, timeout=max(30, min(timeout, left() - 150)))
        js = None
        i = o.find('{')
        if i >= 0:
            try:
                js = json.JSONDecoder().raw_decode(o[i:])[0]
            except ValueError:
                js = None
        return rc, js, o[:max(i, 0)] + err

    def run(self):
        trust = []
        for attempt in range(6):
            extra = [x for t in trust for x in ('--nobody', t)]
            rs, info, e = self.extract('', extra)
            if rs is None:
                self.undecided.append('extraction failed: ' + e)
                self.status = 'undecided'
                return
            self.info = info
            rc, js, text = self.verus(rs, max(30, min(420, left() - 150)))
            if rc is None:
                self.undecided.append('the verifier did not finish in time')
                self.status = 'undecided'
                return
            vr = (js or {}).get('verification-results', {})
            compile_err = js is None or vr.get('encountered-vir-error') or (vr.get('encountered-error') and 'verified' not in vr)
            errs = parse_errors(text, rs)
            if compile_err or (vr.get('verified', 0) == 0 and not vr.get('success')):
                labels = []
                for x in errs:
                    for n in x['lines'][:1]:
                        lab, f = self.label_at(info, rs, n)
                        if f is not None and lab not in trust and lab not in labels:
                            labels.append(lab)
                if not labels:
                    self.undecided.append('the extracted unit does not compile: ' + (errs[0]['text'][:600] if errs else text[-600:]))
                    self.status = 'undecided'
                    return
                for x in errs:
                    self.undecided.append('not accepted by the verifier front end: ' + x['text'][:400])
                trust += labels
                self.trusted_now = list(trust)
                continue
            break
        else:
            self.undecided.append('the extracted unit does not compile')
            self.status = 'undecided'
            return
        self.rs = rs
        self.verified, self.errors = vr.get('verified', 0), vr.get('errors', 0)
        for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            self.solver_ms += m.get('time', 0)
        structural = set()
        clean = True
        for p in info['problems']:
            clean = False
            self.undecided.append(p)
            structural.add(p.split(': ')[0])
        for f in info['functions']:
            if f['uncontracted']:
                clean = False
        for x in errs:
            lab, f = self.label_at(info, rs, x['lines'][0]) if x['lines'] else ('?', None)
            props = self.props_at(info, rs, x)
            if re.search(r'rlimit|Resource limit|timed? ?out', x['text']) or not SEMANTIC.search(x['msg']) or not clean:
                self.undecided.append(f'{lab}: {x["msg"]}')
                self.fail_soft = getattr(self, 'fail_soft', []) + [(lab, props, x)]
            else:
                self.fail.append((lab, props, x))
        if self.errors > 0 and not errs:
            self.undecided.append(f'{self.errors} obligations failed without a message')
        self.status = 'failed' if self.fail else ('undecided' if self.undecided else 'ok')

    def canary(self):
        """Every contract's precondition, with the axioms in scope, must be satisfiable: an
        `assert(false)` at the start of each function has to fail."""
        rs, info, e = self.extract('_canary', ['--canary'])
        if rs is None:
            self.canary_bad.append('extraction: ' + e)
            return
        rc, js, text = self.verus(rs, max(30, min(420, left() - 150)))
        if rc is None or js is None or js.get('verification-results', {}).get('encountered-vir-error'):
            return
        errs = parse_errors(text, rs)
        hit = set()
        for x in errs:
            for n in x['lines']:
                hit.add(self.label_at(info, rs, n)[0])
        ls = open(rs).read().splitlines()
        want = [f['fn'] for f in info['functions'] if f['contract'] and any('assert(false)' in l for l in ls[f['line0'] - 1:f['line1']])]
        self.canary_total = len(want)
        self.canary_bad += [w for w in want if w not in hit]


def trusted_scan(rs):
    """External bodies, axioms, assumes and admits in the unit's text, by name."""
    out, ls = [], open(rs).read().splitlines()
    stack = []
    for i, l in enumerate(ls):
        if re.search(r'external_body|external_fn_specification|assume_specification', l):
            for k in range(i, min(i + 4, len(ls))):
                m = re.search(r'\b(?:fn|struct)\s+(\w+)|assume_specification.*?\[(.*?)\]', ls[k])
                if m:
                    hdr = ''
                    for j in range(k, max(0, k - 40), -1):
                        h = re.match(r'\s*(?:pub )?(?:impl|trait|mod)\b(.*)\{', ls[j])
                        if h:
                            hdr = re.sub(r'\s+', ' ', h.group(0).strip(' {'))[:90] + ' :: '
                            break
                    out.append('external_body: ' + hdr + (m.group(1) or m.group(2)))
                    break
        m = re.search(r'\baxiom fn (\w+)', l)
        if m:
            out.append('axiom: ' + m.group(1))
        if re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'):
            out.append('assume: ' + l.strip()[:100])
    return out


# ------------------------------------------------------------------------------ the bounded companion
def drive(binary, prop, seeds, ms):
    """Runs the driver on several seeds in parallel; returns (fail text or None, cases, distinct, samples)."""
    res = [None] * len(seeds)

    def one(k):
        res[k] = sh([binary, 'run', prop, str(seeds[k]), str(ms)], env={'TZ': 'CET'}, timeout=ms / 1000 + 90)
    th = [threading.Thread(target=one, args=(k,)) for k in range(len(seeds))]
    [t.start() for t in th]
    [t.join() for t in th]
    cases = distinct = 0
    samples, fail, notes = [], None, []
    for k, r in enumerate(res):
        rc, o, err = r
        m = re.search(r'OK cases=(\d+) distinct=(\d+)', o)
        if rc == 0 and m:
            cases += int(m.group(1))
            distinct += int(m.group(2))
            samples += re.findall(r'^SAMPLE (.*)$', o, re.M)[:2]
        elif rc == 1 and 'FAIL case=' in o:
            fail = fail or o
        elif rc is not None and rc < 0 and rc in (-signal.SIGABRT, -signal.SIGSEGV):
            fail = fail or f'the process died with signal {-rc} (seed {seeds[k]})\n{o}\n{err[-2000:]}'
        else:
            notes.append(f'driver run on seed {seeds[k]} gave no verdict (rc={rc}) {err[-200:]}')
    return fail, cases, distinct, samples[:6], notes


def main():
    prop = sys.argv[1]
    cfg = json.load(open(os.path.join(V, 'contracts', 'goals.json')))
    goal = cfg['properties'][prop]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'run-{prop}-', dir=BUILD)
    ev = {'property': prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED}
    state = {}

    def prep_driver():
        state['driver'] = build_driver()

    def prep_vx():
        state['vx'] = build_vx()

    def prep_exp():
        state['exp'] = expand(work)

    th = [threading.Thread(target=prep_driver)]
    if goal['units']:
        th += [threading.Thread(target=prep_vx), threading.Thread(target=prep_exp)]
    [t.start() for t in th]
    # the proof starts as soon as the extractor and the expanded source are there
    [t.join() for t in th[1:]]
    units, uth = [], []
    undecided = []
    if goal['units']:
        vx, e1 = state['vx']
        exp, e2 = state['exp']
        if not vx or not exp:
            undecided.append('cannot extract: ' + (e1 or e2)[-800:])
        else:
            units = [Unit(u, work, vx, exp) for u in goal['units']]
            for u in units:
                def go(u=u):
                    try:
                        u.run()
                    except Exception as ex:
                        u.status = 'undecided'
                        u.undecided.append(f'internal: {ex!r}')
                def goc(u=u):
                    try:
                        u.canary()
                    except Exception as ex:
                        u.canary_bad.append(f'internal: {ex!r}')
                uth += [threading.Thread(target=go)]
                if not goal.get('panics'):  # the canaries belong to the units' own properties
                    uth += [threading.Thread(target=goc)]
            [t.start() for t in uth]
    th[0].join()
    drv, derr = state['driver']
    fail = None
    cases = distinct = 0
    samples, dnotes = [], []
    if drv:
        ms = int(goal.get('ms', 30000)) * (8 if THOROUGH else 1)
        nproc = 7 if THOROUGH else 6
        fail, cases, distinct, samples, dnotes = drive(drv, prop, [SEED * 64 + k for k in range(nproc)], ms)
    else:
        dnotes.append('the driver does not build against this tree: ' + derr[-600:])
    [t.join() for t in uth]

    direct, other = [], []
    for u in units:
        undecided += [f'{u.name}: {x}' for x in u.undecided]
        for lab, props, x in u.fail:
            mine = may_panic(u, lab, x) if goal.get('panics') else prop in props
            (direct if mine else other).append((u.name, lab, x))
        if u.canary_bad:
            undecided.append(f'{u.name}: vacuous contracts: {u.canary_bad}')
    for un, lab, x in other:
        undecided.append(f'{un}: {lab}: a contract this property relies on fails ({x["msg"]}); it is another property\'s obligation')
    if (direct or other or undecided) and not fail and drv:
        # undischarged: look harder for a failing input
        fail, c2, d2, s2, n2 = drive(drv, prop, [SEED * 64 + 16 + k for k in range(8)], 120000 if not THOROUGH else 400000)
        cases += c2
        distinct += d2
        dnotes += n2

    rdir = os.path.join(V, 'replays')
    os.makedirs(rdir, exist_ok=True)
    violation = None
    if fail or direct:
        path = os.path.join(rdir, f'{prop}-{TIER}-{SEED}.txt')
        with open(path, 'w') as f:
            f.write(f'property {prop}\n')
            for un, lab, x in direct:
                f.write(f'\nfailed obligation in unit {un}, function {lab}\n{x["text"]}\n')
            if fail:
                m = re.search(r'FAIL case=(\d+)', fail)
                f.write('\nfailing input on the real code:\n' + fail + '\n')
                if m:
                    f.write(f'\nreplay: cd {V}/driver && CARGO_TARGET_DIR={BUILD}/driver cargo build --offline && TZ=CET {BUILD}/driver/debug/driver replay {prop} {m.group(1)}\n')
            else:
                f.write('\nno failing input was found by the bounded search\n')
        violation = f'VIOLATION property={prop} replay={path}' + ('' if fail else ' no-failing-input-found')

    # ---------------------------------------------------------------- evidence
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    proved = bool(units) and all(u.status == 'ok' for u in units) and not undecided
    trusted = []
    fns = []
    rewrites = []
    for u in units:
        if getattr(u, 'rs', None):
            trusted += [f'{u.name}: {x}' for x in trusted_scan(u.rs)]
        for f in u.info.get('functions', []):
            st = f"contract proved in unit {f['proved_by']}" if f.get('proved_by') else 'assumed contract' if f['trusted'] else ('under contract' if f['contract'] else ('body extracted, no clauses of its own'))
            fns.append(f"{u.name}: {f['fn']}: {st}")
        rewrites += u.info.get('rewrites', [])
    level = goal['level']
    if level == 'proof' and not proved:
        level = 'exploration'
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': (units[0].cmd if units else 'none') + ' (Verus 0.2026.09.13, Z3 back end)' if units else 'none',
        'trusted_base': sorted(set(trusted)),
        'functions': fns,
        'solver_ms': sum(u.solver_ms for u in units),
        'vacuity_canaries': sum(getattr(u, 'canary_total', 0) for u in units),
        'proved': proved,
        'undecided': undecided[:40],
        'extraction_rewrites': sorted(set(rewrites)),
        'evaluations': cases, 'distinct_nontrivial': distinct,
        'rule': 'bounded companion (not counted as proved): ' + goal.get('rule', 'inputs generated from VERIF_SEED and compared with an independent reference; an input counts when it was not seen before'),
        'samples': samples or ['none'],
        'bounded_only': goal.get('bounded', []),
        'driver_notes': dnotes,
    }
    if level == 'other':
        cov['explanation'] = goal.get('explanation', '')
    ev.update({'level': level, 'coverage': cov, 'assumptions': cfg.get('assumptions', []) + goal.get('assumptions', []),
               'wall_s': round(time.time() - T0, 1), 'violations': 1 if violation else 0})
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if drv:
        rc, o, err = sh([drv, 'known', prop], env={'TZ': 'CET'}, timeout=60)
        listed = open(os.path.join(V, 'known-findings.txt')).read()
        for l in o.splitlines():
            if l.startswith('KNOWN-FINDING:') and l in listed:
                print(l)
    for un, lab, x in direct:
        print(f'failed obligation: unit {un}, {lab}: {x["msg"]}')
    for x in undecided[:10]:
        print('undecided: ' + x.replace('\n', ' ')[:300])
    print(f'{prop}: {discharged}/{obligations} obligations discharged in {len(units)} unit(s); bounded companion: {cases} cases; {time.time()-T0:.0f} s')
    shutil.rmtree(work, ignore_errors=True)
    if violation:
        print(violation)
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        for p in PROCS:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
    sys.exit(rc)
