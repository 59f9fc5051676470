#!/usr/bin/env python3
"""Plants the bugs described in tools/bugs/*.py into scratch copies of /repo, confirms them, writes /verif/seeded/<id>/."""
import glob, json, os, re, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '02e1202'
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds a small program against it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "vh"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
swrs = { path = "$repo" }
serde_json = "1"
aes = "0.7.5"
block-modes = "0.8.1"

[profile.dev]
debug = 0
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet
'''
def sh(c, cwd=None, env=None, timeout=900): return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def load():
    out = {}
    for f in sorted(glob.glob(f'{R}/tools/bugs/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        for b in ns['BUGS']: out[b['id']] = b
    return out

def plant(b, keep=False):
    w = f'/tmp/seed-{b["id"]}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w} && git -C {w} checkout -q -- .')
    d = f'{R}/seeded/{b["id"]}'
    try:
        for file, old, new in b['edits']:
            p = f'{w}/{file}'; s = open(p).read()
            if s.count(old) != 1: return f'edit text occurs {s.count(old)} times: {old[:60]!r}'
            # lines must come from the base commit
            s2 = s.replace(old, new)
            open(p, 'w').write(s2)
        patch = sh('git diff', cwd=w).stdout
        # blame of the removed lines
        for file in {e[0] for e in b['edits']}:
            bl = sh(f'git blame -s --abbrev=40 HEAD -- {file}', cwd=w).stdout.splitlines()
            dl = sh(f'git diff -U0 -- {file}', cwd=w).stdout
            basefull = sh(f'git rev-parse {BASE}', cwd=w).stdout.strip()
            touched = 0
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dl, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(a, a + n):
                    touched += 1
                    if not bl[i-1].lstrip('^').startswith(basefull[:38]): return f'{file}:{i} is not an original line'
            if touched == 0: print(f'   note: {b["id"]} {file}: only adds lines')
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(patch)
        open(f'{d}/main.rs', 'w').write(b['main'])
        open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755)
        shutil.copy(f'{R}/harness/Cargo.lock', f'{d}/Cargo.lock')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        t = sh('cargo test --offline 2>&1', cwd=w)
        if t.returncode: return 'existing tests fail or it does not build:\n' + t.stdout[-1500:]
        r = sh(f'bash {d}/demo.sh', cwd=w)
        if r.returncode == 0: return 'demo passes with the bug'
        if 'could not compile' in r.stderr or 'error[' in r.stderr: return 'demo does not build: ' + r.stderr[-2500:]
        sh('git checkout -q -- .', cwd=w)
        r0 = sh(f'bash {d}/demo.sh', cwd=w)
        if r0.returncode: return 'demo fails without the bug: ' + r0.stderr[-1500:]
        return None
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    B = load()
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or list(B)
    with ThreadPoolExecutor(4) as ex:
        for i, e in zip(ids, ex.map(lambda i: plant(B[i]), ids)):
            print(i, 'OK' if e is None else 'REJECTED ' + e)
            if e is not None: shutil.rmtree(f'{R}/seeded/{i}', ignore_errors=True)
