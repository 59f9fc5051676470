#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

1. vx extracts the contracted functions from /repo/src and prints them as Verus input (unit by unit); Verus discharges
   the obligations.                                                     -> proof verdict per function
2. the harness (vh) runs the compiled crate on generated inputs.       -> concrete counterexamples, bounded stand-in
See DESIGN.md for how the two verdicts are combined.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
VDIR = os.path.join(ROOT, 'verus')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        for name in ('vx', 'harness'):
            env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, name), CARGO_NET_OFFLINE='true')
            r = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', f'{ROOT}/{name}/Cargo.toml'], env=env)
            if r.returncode: return f'building {name} failed:\n{r.stderr[-3000:]}'
    return None

def props():
    return json.load(open(f'{VDIR}/props.json'))

_shapes = None
def shapes():
    """the loops each function had when its loop invariants were written"""
    global _shapes
    if _shapes is None: _shapes = json.load(open(f'{VDIR}/shapes.json'))
    return _shapes

def unit_verifies():
    m = {}
    for f in os.listdir(f'{VDIR}/units'):
        if f.endswith('.vu'):
            for l in open(f'{VDIR}/units/{f}'):
                l = l.strip()
                if l == 'spec': break
                if l.startswith('verify '): m.setdefault(l[7:].strip(), f[:-3])
    return m

# ------------------------------------------------------------------ one unit through the verifier
T0 = time.time()
def left():
    """seconds of the time allowed that are left"""
    return (700 if TIER == 'quick' else 7200) - (time.time() - T0)
def verus(out, extra=()):
    cmd = ['verus', out, '--output-json', '--time-expanded', '--multiple-errors', '5', '--error-format=json', '--num-threads', '8', *extra]
    if left() < 20: return None, [], 'no time left'
    try: r = run(cmd, timeout=min(300, left()), cwd=os.path.dirname(out))
    except subprocess.TimeoutExpired: return None, [], 'timeout'
    i = r.stdout.find('{')
    try: js = json.loads(r.stdout[i:])
    except Exception: js = None
    msgs = []
    for l in r.stderr.splitlines():
        if l.startswith('{'):
            try: m = json.loads(l)
            except Exception: continue
            if m.get('level') == 'error': msgs.append(m)
    return js, msgs, r.stderr

OBL = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'loop ensures', 'possible arithmetic',
       'possible division', 'decreases not satisfied', 'unable to prove', 'recommendation not met', 'index out of', 'possible', 'could not prove', 'bit shift', 'at this exit', 'split assertion', 'not satisfied', 'failed')

def do_unit(unit, work, log):
    """verdicts of the functions of a unit"""
    out = f'{work}/{unit}.rs'
    demoted, res = [], None
    for attempt in range(8):
        r = run([f'{BUILD}/vx/debug/vx', f'{REPO}/src', VDIR, unit, out, ','.join(demoted)])
        try: rep = json.loads(r.stdout)
        except Exception: rep = {'unsupported': 'translator crashed: ' + r.stderr[-500:]}
        if 'unsupported' in rep:
            return {'unit': unit, 'error': rep['unsupported'], 'functions': {}}
        js, msgs, err = verus(out)
        if js is None: return {'unit': unit, 'error': 'verifier: ' + str(err)[-800:], 'functions': {}}
        vr = js['verification-results']
        front = [m for m in msgs if not is_obligation(m) and not is_limit(m) and m.get('spans')]
        if (vr.get('encountered-error') or vr.get('encountered-vir-error')) and front and vr.get('verified', 0) + vr.get('errors', 0) == 0:
            # text the verifier does not read: give up the functions it points at, keep the others
            bad = set()
            for m in front:
                for sp in m['spans']:
                    if not sp.get('is_primary'): continue
                    k = owner(rep, sp['line_start'])
                    if k: bad.add(k)
            bad -= set(demoted)
            log.append(f'{unit}: not read: ' + '; '.join(m['message'][:160] for m in front[:4]))
            if not bad: return {'unit': unit, 'error': 'not read by the verifier: ' + front[0]['message'][:300], 'functions': {}}
            demoted += sorted(bad)
            continue
        res = (rep, js, msgs)
        break
    if res is None: return {'unit': unit, 'error': 'not read by the verifier', 'functions': {}}
    rep, js, msgs = res
    limit = [m for m in msgs if is_limit(m)]
    if limit or any(is_obligation(m) for m in msgs):
        # more room before a verdict
        js2, msgs2, _ = verus(out, ('--rlimit', '60'))
        if js2 is not None: js, msgs = js2, msgs2
        # each obligation is a query of its own: one that another seed of the solver settles is settled
        for seed in ('7', '23'):
            if js['verification-results'].get('errors', 0) == 0 or left() < 150: break
            js2, msgs2, _ = verus(out, ('--rlimit', '60', '--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}'))
            if js2 is None: break
            if 'errors' in js2['verification-results'] and js2['verification-results']['errors'] < js['verification-results']['errors']: js, msgs = js2, msgs2
    return collect(unit, rep, js, msgs, out)

def is_limit(m): return 'rlimit' in m['message'] or 'Resource limit' in m['message']
def is_obligation(m):
    t = m['message']
    if m.get('code'): return False
    return any(t.startswith(x) or x in t for x in OBL) and 'aborting' not in t and not is_limit(m)

def owner(rep, line):
    for k, v in rep['functions'].items():
        if 'lines' in v and v['lines'][0] <= line <= v['lines'][1]: return k
    return None

def spec_owner(src, line):
    for i in range(min(line, len(src)) - 1, -1, -1):
        m = re.match(r'\s*(?:#\[.*\]\s*)?pub (?:broadcast )?(?:proof )?fn (\w+)', src[i])
        if m: return 'sp::' + m.group(1)
    return 'sp'

def collect(unit, rep, js, msgs, out):
    src = open(out).read().splitlines()
    fn = {}
    a, b = rep['spec_lines']
    for k, v in rep['functions'].items():
        st = v['status']
        d = {'calls': [c.lstrip('?') for c in v.get('calls', [])], 'dropped': v.get('dropped', []), 'uncontracted': v.get('uncontracted', [])}
        if st == 'verify': d['verdict'] = 'proved'
        elif st == 'assumed': d['verdict'] = 'assumed'
        elif st == 'uncontracted': d['verdict'] = 'assumed'; d['nocontract'] = True
        else: d['verdict'] = 'undecided'; d['why'] = f"{st}: {v.get('reason', '')}"
        if 'loops_changed' in v: d['loops_changed'] = v['loops_changed']
        if 'shape' in v and k in shapes() and shapes()[k] != v['shape']: d['loops_changed'] = [shapes()[k], v['shape']]
        if v.get('nocontract'): d['nocontract'] = True
        fn[k] = d
    # lemmas and composite statements
    i = a - 1
    while i < b - 1:
        m = re.match(r'\s*pub (?:broadcast )?(?:proof )?fn (\w+)', src[i])
        if m:
            j = i + 1
            while j < b and not re.match(r'\s*pub (?:\w+ )*fn |\s*pub open spec|\s*pub uninterp|\s*pub broadcast', src[j]): j += 1
            body = '\n'.join(src[i:j])
            fn['sp::' + m.group(1)] = {'verdict': 'proved', 'calls': [], 'text': body, 'dropped': [], 'uncontracted': []}
        i += 1
    for d in fn.values():
        if 'text' in d:
            d['calls'] = [k for k in fn if (k.startswith('sp::') and re.search(r'\b' + k[4:] + r'\b', d['text'].split('{', 1)[-1])) or (not k.startswith('sp::') and re.search(r'\b' + re.escape(k.split('::')[-1]) + r'\s*\(', d['text']))]
    fails = {}
    for m in msgs:
        if not m.get('spans'): continue
        if not (is_obligation(m) or is_limit(m)): continue
        # the span inside a function body says whose obligation it is
        ks = []
        for sp in sorted(m['spans'], key=lambda s: not s.get('is_primary')):
            l = sp['line_start']
            k = owner(rep, l) or (spec_owner(src, l) if a <= l <= b else None)
            if k: ks.append((k, sp))
        if not ks: continue
        k = pick(m, ks, rep)
        # does the obligation speak of a panic or of termination, rather than of the result?
        t = m['message']
        lemma = any(a <= sp['line_start'] <= b for sp in m['spans'])
        safety = ('precondition' in t and not lemma) or 'overflow' in t or 'division' in t or 'decreases' in t or 'termination' in t
        fails.setdefault(k, []).append({'message': m['message'], 'limit': is_limit(m), 'safety': safety, 'rendered': (m.get('rendered') or '')[:3000]})
    for k, f in fails.items():
        d = fn.setdefault(k, {'calls': [], 'dropped': [], 'uncontracted': []})
        if all(x['limit'] for x in f): d['verdict'] = 'undecided'; d['why'] = 'resource limit'
        elif d.get('loops_changed'): d['verdict'] = 'undecided'; d['why'] = f"the loops the contract speaks of have changed: {d['loops_changed']}"
        elif d.get('uncontracted'): d['verdict'] = 'undecided'; d['why'] = 'calls functions without a contract: ' + ', '.join(d['uncontracted'])
        else: d['verdict'] = 'failed'
        d['fails'] = f
    vr = js['verification-results']
    if 'verified' not in vr or 'errors' not in vr:
        return {'unit': unit, 'error': 'not read by the verifier: ' + '; '.join(m['message'] for m in msgs)[:500], 'functions': {}}
    if vr['errors'] and not fails:
        return {'unit': unit, 'error': 'verifier reported errors that could not be placed: ' + '; '.join(m['message'] for m in msgs)[:500], 'functions': {}}
    if not vr['success'] and not vr['errors']:
        return {'unit': unit, 'error': 'verifier: ' + '; '.join(m['message'] for m in msgs)[:500], 'functions': {}}
    smt = js.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
    return {'unit': unit, 'functions': fn, 'verified': vr['verified'], 'errors': vr['errors'], 'smt_ms': smt, 'trusted': trusted(src, a, b), 'opaque': rep.get('opaque_types', []), 'out': out}

def pick(m, ks, rep):
    """postcondition failures are reported at the contract of the failing function; precondition failures at the call"""
    if 'precondition' in m['message']:
        prim = [k for k, sp in ks if sp.get('is_primary')]
        return prim[0] if prim else ks[0][0]
    return ks[0][0]

def trusted(src, a, b):
    """assumed items of the prelude that the unit refers to"""
    text = '\n'.join(src[a - 1:])
    pre = '\n'.join(src[:a - 1])
    names = set(re.findall(r'#\[verifier::external_body\]\s*(?:pub )?(?:fn|struct) (\w+)', pre)) | set(re.findall(r'axiom fn (\w+)', pre))
    used = sorted(n for n in names if re.search(r'\b' + n + r'\b', text))
    ax = sorted(set(re.findall(r'axiom fn (\w+)', text)))
    return used + ax

# ------------------------------------------------------------------ the harness
def harness_start(prop, secs, iters=10**9, seed=None):
    return subprocess.Popen([f'{BUILD}/harness/debug/vh', prop, '--seed', str(SEED if seed is None else seed), '--secs', str(secs), '--iters', str(iters)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=limits)
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def harness_end(p, limit):
    try: o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); o, e = p.communicate(); return None, 'harness timed out'
    for l in reversed(o.splitlines()):
        if l.startswith('{'):
            try: return json.loads(l), ''
            except Exception: break
    # killed by a signal (stack overflow, abort, memory): the case it was running is the counterexample
    import glob
    for d in glob.glob(f'{tempfile.gettempdir()}/vh-*-{p.pid}-*'):
        try: cur = json.loads(open(f'{d}/.current').read())
        except Exception: cur = None
        shutil.rmtree(d, ignore_errors=True)
        if cur is not None and p.returncode < 0:
            cur['detail'] = f'the process died with signal {-p.returncode}: ' + e[-500:].strip()
            return {'failure': cur, 'evaluations': 1, 'distinct': 1, 'rule': '', 'samples': []}, ''
    return None, f'harness ended with {p.returncode}: {e[-800:]}'

def known(prop):
    out = []
    p = f'{ROOT}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) case=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def closure(roots, fns):
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        todo += [c for c in fns.get(k, {}).get('calls', []) if c in fns and c not in seen]
    return seen

def with_lenders(us):
    """the units, and those that prove the statements they borrow"""
    text = {f[:-3]: open(f'{VDIR}/units/{f}').read().split('\nspec')[0] for f in sorted(os.listdir(f'{VDIR}/units')) if f.endswith('.vu')}
    out, todo = [], list(us)
    while todo:
        u = todo.pop(0)
        if u in out: continue
        out.append(u)
        for b in re.findall(r'^borrow (\w+)', text.get(u, ''), re.M):
            own = [x for x in text if re.search(rf'^include {b}$', text[x], re.M)]
            if not [x for x in own if x in out + todo]: todo.append(own[0])
    return out

def main():
    prop = sys.argv[1]
    t0 = time.time()
    P = props().get(prop)
    if P is None: print('unknown property', prop); return 2
    e = build()
    if e: print(e); return 2
    work = tempfile.mkdtemp(prefix='vcheck-')
    try: return decide(prop, P, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, P, work, t0):
    secs = P.get('secs', 12) if TIER == 'quick' else 240
    hp = harness_start(prop, secs) if REPO == '/repo' else None
    log, units, vmap = [], {}, unit_verifies()
    todo = with_lenders(P.get('units', []))
    def one(u):
        try: return do_unit(u, work, log)
        except Exception as ex: return {'unit': u, 'error': f'runner: {type(ex).__name__}: {ex}', 'functions': {}}
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as pool:
        while todo:
            for u, r in zip(todo, pool.map(one, todo)): units[u] = r
            more = [vmap[k] for u in units.values() for k, d in u.get('functions', {}).items() if d.get('verdict') == 'assumed' and k in vmap]
            todo = [u for u in with_lenders(more) if u not in units]
    fns = {}
    for u in units.values():
        for k, d in u.get('functions', {}).items():
            if k not in fns or fns[k]['verdict'] == 'assumed' and d['verdict'] != 'assumed': fns[k] = dict(d, unit=u['unit'])
    roots = list(P.get('roots', []))
    need = closure(roots, fns)
    # ghost lemmas and contract text may name lemmas that the call graph does not show: take all lemmas of the first-class units
    need |= {k for k, d in fns.items() if k.startswith('sp::') and re.match(r'\s*pub (?:broadcast )?proof fn', d.get('text', ''))}
    missing = [r for r in roots if r not in fns]
    failed = {k: fns[k] for k in sorted(need) if k in fns and fns[k]['verdict'] == 'failed'}
    undecided = {k: fns[k].get('why', '') for k in sorted(need) if k in fns and fns[k]['verdict'] == 'undecided'}
    for u in units.values():
        if 'error' in u: undecided['unit ' + u['unit']] = u['error']
    for r in missing: undecided.setdefault(r, 'not there')
    # a lemma of a needed unit that fails is an obligation of the property too
    for k, d in fns.items():
        if k.startswith('sp::') and d['verdict'] == 'failed' and k in need: failed[k] = d
    if P.get('safety'):
        # the property is about panics and termination only: an obligation about the result does not decide it
        for k in [k for k, d in failed.items() if not any(x['safety'] for x in d['fails'])]:
            undecided[k] = 'an obligation about the result failed, none about a panic or termination: ' + failed.pop(k)['fails'][0]['message']
    proved = [k for k in need if k in fns and fns[k]['verdict'] == 'proved']
    assumed = [k for k in need if k in fns and fns[k]['verdict'] == 'assumed']
    # the harness is built against /repo: nothing to compare on another tree
    h, herr = harness_end(hp, secs + 300) if hp else ({'evaluations': 0, 'distinct': 0, 'rule': '', 'samples': []}, '')
    if h is None: print(f'harness: {herr}'); return 2
    if hp and not h.get('failure') and failed:
        # a proof that no longer goes through: look longer for an input that shows it
        for s in (SEED + 1000, SEED + 2000):
            if left() < 60: break
            h2, herr = harness_end(harness_start(prop, 40 if TIER == 'quick' else 200, seed=s), 500)
            if h2 is not None and h2.get('failure'): h = h2; break
    vac = vacuity(P, units, work) if TIER == 'thorough' and not failed else None
    f = h.get('failure')
    listed = None
    if f:
        for case, what in known(prop):
            if f.get('case') == case: listed = what
    for case, what in known(prop):
        print(f'KNOWN-FINDING: property={prop} {what}')
    # the lesser fixed findings are described in known-findings.txt
    rc, viol = 0, 0
    os.makedirs(f'{ROOT}/replays', exist_ok=True)
    if f and not listed:
        path = f'{ROOT}/replays/{prop}-{hashlib.sha1(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]}.json'
        json.dump({'property': prop, 'failure': f, 'replay_cmd': f"{BUILD}/harness/debug/vh {prop} --seed {f.get('seed', SEED)} --replay {f.get('iter')}", 'failed_obligations': {k: v['fails'] for k, v in failed.items()}}, open(path, 'w'), indent=1)
        print(f"counterexample for {prop}: {f.get('case')}: {str(f.get('detail'))[:600]}")
        for k in failed: print(f'failed obligation: {k}: {failed[k]["fails"][0]["message"]}')
        print(f'VIOLATION property={prop} replay={path}')
        rc, viol = 1, 1
    elif failed:
        path = f'{ROOT}/replays/{prop}-obligation-{hashlib.sha1(json.dumps(sorted(failed)).encode()).hexdigest()[:10]}.json'
        json.dump({'property': prop, 'failed_obligations': {k: v['fails'] for k, v in failed.items()}, 'searched': h.get('evaluations')}, open(path, 'w'), indent=1)
        for k in failed:
            for x in failed[k]['fails'][:3]: print(f'failed obligation: {k}: {x["message"]}\n{x["rendered"][:800]}')
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        rc, viol = 1, 1
    if vac: print('vacuity guard:', vac); rc = rc or 2
    obligations = sum(u.get('verified', 0) + u.get('errors', 0) for u in units.values())
    discharged = sum(u.get('verified', 0) for u in units.values())
    complete = P.get('level') == 'proof' and not undecided and not failed and discharged > 0
    trust = sorted(set(sum((u.get('trusted', []) for u in units.values()), [])))
    if P.get('units') and not undecided and not failed and discharged == 0: print('no obligations were generated'); rc = rc or 2
    level = P.get('level', 'exploration') if (P.get('units') and not undecided) else 'exploration'
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': f'vx {REPO}/src verus <unit> <unit>.rs && verus <unit>.rs   (units: {", ".join(units)})',
        'trusted_base': ['Verus 0.2026.09.13.671956e and its Z3', 'vx: the extraction of functions from /repo/src into the verifier\'s dialect (DESIGN.md lists every rewriting)', 'rustc', *(f'assumed: vp::{n}' for n in trust), *(f'assumed contract: {k}' for k in sorted(assumed)), *P.get('assumes', [])],
        'functions_under_contract': sorted(k for k in proved if not k.startswith('sp::')),
        'statements': sorted(k for k in proved if k.startswith('sp::')),
        'undecided': undecided, 'solver_ms': sum(u.get('smt_ms', 0) for u in units.values()), 'back_end': 'Verus (Z3)',
        'dropped_by_extraction': sorted(set(sum((fns[k].get('dropped', []) for k in proved), []))),
        'evaluations': h['evaluations'], 'distinct_nontrivial': h['distinct'], 'rule': h['rule'], 'samples': h['samples'],
        'bounded_part': P.get('bounded', 'the compiled crate is also run on generated inputs (bounded; never counted as proved)'),
        'explanation': P.get('explain', ''), 'notes': log,
    }
    json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
               'assumptions': P.get('assumes', []) + [f'assumed contract of {k}' for k in sorted(assumed)] + [f'vp::{n}' for n in trust],
               'wall_s': round(time.time() - t0, 2), 'violations': viol}, open_evidence(prop), indent=1)
    word = 'proved' if complete else ('contracts hold' if not undecided and not failed and P.get('units') else ('undecided: ' + '; '.join(f'{k}: {v[:160]}' for k, v in undecided.items()) if undecided else ('bounded only' if not P.get('units') else 'failed')))
    print(f'{prop}: {word}; obligations {discharged}/{obligations} in {len(units)} units; bounded: {h["evaluations"]} evaluations, {h["distinct"]} distinct; {time.time() - t0:.1f} s')
    return rc

def open_evidence(prop):
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    return open(f'{ROOT}/evidence/{prop}.json', 'w')

def vacuity(P, units, work):
    """with `ensures false` added, every function must fail to verify"""
    for u in list(units):
        for k, d in units[u].get('functions', {}).items():
            if d.get('verdict') != 'proved' or k.startswith('sp::'): continue
            out = f'{work}/vac.rs'
            run([f'{BUILD}/vx/debug/vx', f'{REPO}/src', VDIR, u, out, f'vacuous:{k}'])
            js, msgs, _ = verus(out)
            if js is not None and js['verification-results']['success']: return f'{k} verifies `ensures false`'
    return None

if __name__ == '__main__':
    sys.exit(main())
