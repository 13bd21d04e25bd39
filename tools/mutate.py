#!/usr/bin/env python3
"""mutate.py FILE.py [NAME...]: sensitivity runs of the checks against a list of small changes.

FILE.py defines M = [(name, file, [(old, new), ...], [property ids])]. Every change is applied to a scratch
clone of /repo under /tmp, the repository's own tests are run on it, then the named checks until one
reports it. Registered by nothing; this is how the tables in DESIGN.md were made."""
import os, subprocess, sys, time, shutil, json
W = os.environ.get('MUT_DIR', '/tmp/mm')
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
ALL = ['U%02d' % i for i in range(1, 26)]

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

if not os.path.isdir(W + '/repo'):
    os.makedirs(W, exist_ok=True)
    sh(f'git clone -q /repo {W}/repo')
sh(f'cd {W}/repo && git checkout -q . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
sh(f'mkdir -p {W}/sim {W}/vd {W}/out; cp -r /verif/sim/. {W}/sim/ --no-target-directory; rm -rf {W}/sim/target; cp /verif/known-findings.txt {W}/vd/')
t = open(W + '/sim/Cargo.toml').read()
open(W + '/sim/Cargo.toml', 'w').write(t.replace('"../../repo"', f'"{W}/repo"').replace('"/repo"', f'"{W}/repo"'))
env = dict(os.environ, CARGO_TARGET_DIR=W + '/target', VERIF_DIR=W + '/vd', VERIF_SEED='1')
for name, f, subs, ids in ns['M']:
    if want and name not in want:
        continue
    sh(f'cd {W}/repo && git checkout -q .')
    subs = subs if isinstance(subs, list) else [subs]
    ok = True
    for s in subs:
        ff, old, new = s if len(s) == 3 else (f, s[0], s[1])
        p = f'{W}/repo/src/{ff}'
        src = open(p).read()
        if src.count(old) < 1:
            print(f'{name}: pattern missing in {ff}: {old[:60]!r}', flush=True); ok = False; break
        open(p, 'w').write(src.replace(old, new, 1))
    if not ok:
        continue
    diff = sh(f'cd {W}/repo && git diff').stdout
    open(f'{W}/out/{name}.diff', 'w').write(diff)
    r = sh(f'cd {W}/repo && CARGO_TARGET_DIR={W}/ttarget timeout 300 cargo test --offline --lib 2>&1')
    if 'error: could not compile' in r.stdout or 'error[' in r.stdout:
        print(f'{name}: DOES NOT COMPILE'); print(r.stdout[-800:]); continue
    tests = 'tests ok' if 'test result: ok' in r.stdout else 'TESTS FAIL'
    b = sh(f'cd {W}/sim && . ./.cargo_env && cargo build --release --offline 2>&1', env=env, executable='/bin/bash')
    if 'Finished' not in b.stdout:
        print(f'{name}: SIM BUILD FAILED', b.stdout[-500:]); continue
    todo = list(ids) + ([i for i in ALL if i not in ids] if os.environ.get('MUT_ALL') else [])
    res, caught = [], False
    for i in todo:
        t0 = time.time()
        c = sh(f'timeout 880 {W}/target/release/sim check {i}', env=env)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        cl = ''
        if v:
            try:
                j = json.load(open(v[0].split('replay=')[1].strip())); cl = j.get('class', '')
            except Exception: pass
        if c.returncode == 1 and v:
            res.append(f'{i}:{cl}({time.time()-t0:.0f}s)'); caught = True
            if not os.environ.get('MUT_EACH'): break
        elif c.returncode != 0:
            res.append(f'{i}:exit{c.returncode}! {c.stdout[-200:]}')
        else:
            res.append(f'{i}:quiet({time.time()-t0:.0f}s)')
    print(f'{name:28s} {tests:10s} {"CAUGHT" if caught else "MISSED"} {" ".join(res)}', flush=True)
sh(f'cd {W}/repo && git checkout -q .')
