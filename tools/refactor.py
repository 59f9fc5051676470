#!/usr/bin/env python3
"""Applies behaviour-preserving edits to copies of /repo and runs the proof part of the checks on them: none may alarm.
refactor.py [ids]   (the edits are in tools/edits/*.py: EDITS = [dict(id, props, edits=[(file, old, new)])])"""
import glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
E = []
for f in sorted(glob.glob(f'{R}/tools/edits/*.py')):
    ns = {}; exec(open(f).read(), ns); E += ns['EDITS']
def one(e):
    w = f'/tmp/rf/{e["id"]}'; shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w); sh(f'git -C /repo archive HEAD | tar x -C {w}; cp /repo/Cargo.lock {w}/')
    out = []
    try:
        for file, old, new in e['edits']:
            p = f'{w}/{file}'; s = open(p).read()
            if s.count(old) != 1: return f'{e["id"]}: edit text occurs {s.count(old)} times: {old[:70]!r}'
            open(p, 'w').write(s.replace(old, new))
        t = sh('cargo test --offline --lib --tests 2>&1', cwd=w, env={**os.environ, 'CARGO_TARGET_DIR': '/tmp/rf-target-' + e['id']})
        shutil.rmtree('/tmp/rf-target-' + e['id'], ignore_errors=True)
        if t.returncode: return f'{e["id"]}: does not build or pass: {t.stdout[-900:]}'
        for p in e['props']:
            r = sh(f'python3 {R}/check.py {p}', env={**os.environ, 'VERIF_REPO': w, 'VERIF_TIER': 'quick', 'VERIF_SEED': '1', 'VERIF_NOHARNESS': '1'})
            last = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            out.append(f'{e["id"]} {p} rc={r.returncode} ' + ' | '.join(x[:330] for x in last if x.startswith(('VIOLATION', 'undecided', p + ':', 'failed', 'counterexample')))[:1500])
    finally: shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)
if __name__ == '__main__':
    ids = sys.argv[1:]
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for r in ex.map(one, [e for e in E if not ids or e['id'] in ids]): print(r, flush=True)
