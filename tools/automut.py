#!/usr/bin/env python3
"""automut.py OUT.txt [-j N] [-f FILE_SUBSTRING] [-s SAMPLE] [-r SEED]: mechanical mutants of /repo's source.

Every change is one operator, literal, condition or statement of a line outside tests. The changes which
compile and pass the repository's own tests are given to the checks (those likeliest for the file first)
until one reports them; what none reports is listed as SURVIVED, to be judged by hand. Registered by
nothing; works on clones under /tmp."""
import os, re, subprocess, sys, time, random, argparse, threading, queue
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-j', type=int, default=3); ap.add_argument('-f', default='')
ap.add_argument('-s', type=int, default=0); ap.add_argument('-r', type=int, default=1)
ap.add_argument('-l', action='store_true'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--cap', default='6')
ap.add_argument('-w', default='2'); ap.add_argument('--all', action='store_true'); ap.add_argument('-x', default='')
a = ap.parse_args()
SRC = a.repo + '/src'
FIRST = {
    'file/adder.rs': 'U02 U03 U01 U05 U04 U24', 'file/reader.rs': 'U08 U06 U07 U23 U09', 'file/visit.rs': 'U07 U06 U11 U08 U23 U24',
    'file.rs': 'U23 U06', 'walk.rs': 'U10 U12 U11 U13 U23 U24', 'dir/sharded_lookup.rs': 'U14 U15 U16 U13 U23 U24',
    'dir.rs': 'U14 U15 U23 U16', 'dir/directory.rs': 'U23 U15 U12', 'dir/builder.rs': 'U18 U20', 'dir/builder/buffered.rs': 'U18 U17 U24',
    'dir/builder/dir_builder.rs': 'U18 U17', 'dir/builder/iter.rs': 'U17 U19 U20 U21 U05 U24', 'dir/builder/custom_pb.rs': 'U17 U19',
    'pb.rs': 'U26 U15 U12 U06', 'pb/merkledag.rs': 'U26 U15 U12 U02', 'pb/unixfs.rs': 'U26 U12 U21 U15 U02', 'dagpb.rs': 'U15', 'symlink.rs': 'U22', 'lib.rs': 'U23 U21 U10',
}
ALL = ['U%02d' % i for i in range(1, 27)]

def sites():
    out = []
    for root, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if not f.endswith('.rs') or rel == 'test_support.rs' or a.f not in rel or a.x and rel.startswith(a.x):
                continue
            lines = open(os.path.join(root, f)).read().split('\n')
            skip = 0
            for i, l in enumerate(lines):
                t = l.strip()
                if t.startswith('mod tests') or t.startswith('mod test ') or t.startswith('pub(crate) mod tests'):
                    break
                if t.startswith('#[cfg(test)]'):
                    # the item which follows
                    k, depth, seen = i + 1, 0, False
                    while k < len(lines):
                        depth += lines[k].count('{') - lines[k].count('}')
                        seen = seen or '{' in lines[k]
                        if seen and depth <= 0: break
                        k += 1
                    skip = k
                if i < skip or not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'write!', '*', '/*', 'extern')):
                    continue
                if '|-' in l or '- -|' in l or t.startswith('links-'): continue
                code = l.split(' // ')[0]
                for new in variants(code):
                    out.append((rel, i, l, new))
    return out

def variants(l):
    res = []
    def sub(pat, rep):
        for m in re.finditer(pat, l):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            n = l[:m.start()] + r + l[m.end():]
            if n != l: res.append(n)
    if '"' in l and ('write!' in l or 'panic!' in l or 'expect' in l): q = l.split('"')[0]
    sub(r' == ', ' != '); sub(r' != ', ' == ')
    sub(r' < ', ' <= '); sub(r' <= ', ' < '); sub(r' > ', ' >= '); sub(r' >= ', ' > ')
    sub(r' && ', ' || '); sub(r' \|\| ', ' && ')
    sub(r' \+ ', ' - '); sub(r' - ', ' + '); sub(r' \+= ', ' -= '); sub(r' -= ', ' += '); sub(r' \* ', ' + ')
    sub(r'\btrue\b', 'false'); sub(r'\bfalse\b', 'true')
    sub(r'(?<![\w.#"])(\d+)(?![\w.]|u8|u64)', lambda m: str(int(m.group(1)) + 1))
    sub(r'(?<![\w.#"])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1))
    sub(r'\.min\(', '.max('); sub(r'\.max\(', '.min('); sub(r'\bmin\(', 'max('); sub(r'\bmax\(', 'min(')
    sub(r'\.is_some\(\)', '.is_none()'); sub(r'\.is_none\(\)', '.is_some()')
    sub(r'\.rev\(\)', ''); sub(r'\.first\(', '.last('); sub(r'\.pop_front\(', '.pop_back('); sub(r'\.push_back\(', '.push_front(')
    sub(r'\bif !', 'if '); sub(r'(\w[\w.]*)\.is_empty\(\)', r'!\1.is_empty()'); sub(r'!(\w[\w.]*)\.is_empty\(\)', r'\1.is_empty()')
    sub(r'\bif (let)?', lambda m: m.group(0) if m.group(1) else 'if true || ' if False else m.group(0))
    sub(r'unwrap_or\((\w+)\)', r'unwrap_or(\1 + 1)')
    sub(r'\bbreak\b', 'continue'); sub(r'\.take\(\)', '.clone()'); sub(r'\bSome\((\w+)\)$', 'None'); sub(r'\.\.=', '..')
    sub(r'RootDirectory\(', 'Directory(') ; sub(r'nested_depth', 'sibling_depth')
    sub(r'\.saturating_mul\(', '.wrapping_mul('); sub(r'checked_add\(', 'checked_sub(')
    t = l.strip()
    if t.endswith(';') and not t.startswith(('let ', 'return', 'break', 'type ', 'pub ', 'const ', 'fn ', 'continue', '}', ')')) and t.count('(') == t.count(')'):
        res.append(l[:len(l) - len(l.lstrip())] + '/* deleted */')
    m = re.match(r'^(\s*(?:\} else )?if )([^{]*)( \{)$', l)
    if m and ' let ' not in l and not m.group(2).startswith('let '):
        res.append(f'{m.group(1)}true{m.group(3)}'); res.append(f'{m.group(1)}false{m.group(3)}')
    m = re.match(r'^(.* )if ([^=]+)( => .*)$', l)
    if m:
        res.append(f'{m.group(1).rstrip()}{m.group(3)}')
    return [x for x in dict.fromkeys(res) if x != l]

S = sites()
random.Random(a.r).shuffle(S)
if a.s: S = S[:a.s]
if a.l:
    for s in S: print(s[0], s[1] + 1, s[3].strip())
    print(len(S)); sys.exit()
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        p = l.rstrip('\n').split('\t')
        if len(p) > 3: done.add((p[1], p[2], p[3]))
q = queue.Queue()
for s in S:
    if (s[0], str(s[1] + 1), s[3].strip()) not in done: q.put(s)
print(len(S), 'sites,', q.qsize(), 'to do', flush=True)
lock = threading.Lock()

def sh(cmd, **k):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable='/bin/bash', **k)
    except subprocess.TimeoutExpired:
        return None

def work(n):
    W = f'/tmp/am{n}'
    sh(f'mkdir -p {W}/sim {W}/vd; rm -rf {W}/repo; git clone -q {a.repo} {W}/repo; tar -C /verif/sim --exclude ./target -cf - . | tar -C {W}/sim -xf -; cp /verif/known-findings.txt {W}/vd/')
    c = open(f'{W}/sim/Cargo.toml').read()
    open(f'{W}/sim/Cargo.toml', 'w').write(c.replace('"../../repo"', f'"{W}/repo"').replace('"/repo"', f'"{W}/repo"'))
    env = dict(os.environ, CARGO_TARGET_DIR=W + '/target', VERIF_DIR=W + '/vd', VERIF_SEED='1', SIM_CAP_S=a.cap, SIM_WORKERS=a.w, CARGO_BUILD_JOBS='2', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_INCREMENTAL='true', CARGO_PROFILE_RELEASE_DEBUG='0')
    while True:
        try: rel, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = f'{W}/repo/src/{rel}'
        sh(f'cd {W}/repo && git checkout -q .')
        lines = open(p).read().split('\n')
        assert lines[i] == old
        lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        r = sh(f'cd {W}/repo && ulimit -v 12000000 && CARGO_TARGET_DIR={W}/ttarget timeout 120 cargo test --offline --lib 2>&1')
        res = ''
        if 'test result: ok' not in r.stdout:
            res = 'NOCOMPILE' if 'could not compile' in r.stdout else 'TESTS'
        else:
            b = sh(f'cd {W}/sim && . ./.cargo_env && export CARGO_TARGET_DIR={W}/target && cargo build --release --offline 2>&1', env=env)
            if 'Finished' not in b.stdout: res = 'NOBUILD'
            else:
                first = FIRST.get(rel, '').split()
                for id in first + [x for x in (ALL if a.all else ['U22', 'U24', 'U25', 'U11', 'U10']) if x not in first]:
                    c = sh(f'timeout 400 {W}/target/release/sim check {id}', env=env)
                    if c.returncode == 1 and 'VIOLATION' in c.stdout: res = 'CAUGHT ' + id; break
                    if c.returncode != 0: res += f'exit{c.returncode}:{id} '
                else: res = 'SURVIVED ' + res
        with lock:
            with open(a.out, 'a') as f: f.write(f'{res}\t{rel}\t{i + 1}\t{new.strip()}\t{old.strip()}\n')

ts = [threading.Thread(target=work, args=(n,)) for n in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
