#!/usr/bin/env python3
"""seed.py DEFS.py [ID...]: writes and verifies planted changes (/verif/seeded/<id>).

DEFS.py defines S = [dict(id, property, subs=[(file under src, old, new)...], needs, breaks, demo)].
Each is applied to a scratch clone, must build and pass the 62 tests there, and its demonstration must
pass without it and fail with it; only then it is kept. Registered by nothing."""
import os, subprocess, sys, json, shutil
W = '/tmp/seedw'
COMMON = os.environ.get('SEED_COMMON', '/verif/tools/demo_common.rs')
DEMO = os.environ.get('SEED_DEMO', '/verif/tools/demo.sh')
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(W + '/repo'):
    os.makedirs(W, exist_ok=True)
    sh(f'git clone -q /repo {W}/repo')
sh(f'cd {W}/repo && git checkout -q . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
for s in ns['S']:
    if want and s['id'] not in want:
        continue
    sh(f'cd {W}/repo && git checkout -q .')
    ok = True
    for f, old, new in s['subs']:
        p = f'{W}/repo/src/{f}'
        src = open(p).read()
        if src.count(old) != 1:
            print(f"{s['id']}: pattern occurs {src.count(old)} times in {f}: {old[:70]!r}"); ok = False; break
        open(p, 'w').write(src.replace(old, new, 1))
    if not ok:
        continue
    diff = sh(f'cd {W}/repo && git diff').stdout
    d = f"{W}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write(s['demo'].lstrip())
    shutil.copy(COMMON, d + '/common.rs'); shutil.copy(DEMO, d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh(f'cd {W}/repo && CARGO_TARGET_DIR={W}/ttarget timeout 300 cargo test --offline --lib 2>&1')
    if '62 passed; 0 failed' not in r.stdout:
        print(s['id'], 'TESTS:', r.stdout[-700:]); continue
    bad = sh(f'cd {W}/repo && bash {d}/demo.sh')
    sh(f'cd {W}/repo && git checkout -q .')
    good = sh(f'cd {W}/repo && bash {d}/demo.sh')
    if good.returncode != 0 or bad.returncode in (0, 3, 4):
        print(s['id'], 'DEMO: unchanged exit', good.returncode, good.stdout[-600:], '\n changed exit', bad.returncode, bad.stdout[-600:]); continue
    dst = f"/verif/seeded/{s['id']}"
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print(s['id'], s['property'], 'kept; with it:', bad.stdout.strip().splitlines()[-1:] , flush=True)
