#!/usr/bin/env python3
"""plant.py [ID...]: builds seeded/<id>/ from tools/bugs/*.py and validates each change in a
scratch copy of /repo (applies, builds, stable tests pass, demo passes without and fails with it).
plant.py --catch [ID...]: applies each seeded change to /repo in turn and runs its property's quick check."""
import sys, os, json, subprocess, shutil, tempfile, glob
V = '/verif'; R = '/repo'
PRELUDE = open(V + '/tools/bugs/prelude.rs').read()
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository, after it was built. Exit 0: the property holds in this demonstration.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
adextopa-core = { path = "$repo" }
regex = "1.5.4"
[workspace]
EOF
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 2; }
SCRATCH="$t/scratch" timeout 60 "$t/target/debug/demo"
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
bugs = []
def bug(id, prop, needs, breaks, edits, demo):
    bugs.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
assert len({b['id'] for b in bugs}) == len(bugs)

def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)

def build(b):
    d = f"{V}/seeded/{b['id']}"
    t = tempfile.mkdtemp(prefix='plant.')
    try:
        w = t + '/repo'
        shutil.copytree(R, w, symlinks=True)
        for f, old, new in b['edits']:
            p = w + '/' + f
            s = open(p).read()
            n = s.count(old)
            if n != 1: return f'edit in {f}: {n} occurrences of {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', w).stdout
        # removed / changed lines must be the original repository's
        orig = False
        base = '548a7e6'
        for f, _, _ in b['edits']:
            blame = sh(f'git blame -s -l HEAD -- {f}', w).stdout.splitlines()
            own = {l.split(')', 1)[0].split()[-1] for l in blame}
            new_lines = sh(f'git diff -U0 -- {f}', w).stdout
            for l in new_lines.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:]
                    st, ct = (a.split(',') + ['1'])[:2]
                    for i in range(int(st), int(st) + int(ct)):
                        if blame[i-1].lstrip('^').startswith(base) or sh(f'git merge-base --is-ancestor {blame[i-1].split()[0].lstrip("^")} {base}', w).returncode == 0:
                            orig = True
        if not orig: return 'touches no line of the original repository'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.rs', 'w').write(PRELUDE + '\nfn main() {\n' + b['demo'].strip('\n') + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # tests in the copy
        env = dict(os.environ, CARGO_TARGET_DIR=w + '/target', CARGO_NET_OFFLINE='true')
        r = sh(f'. /opt/vp/env.sh; cd {w}; export CARGO_TARGET_DIR={w}/target; cargo test --offline 2>&1', env=env)
        import re
        failed = re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M)
        passed = len(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
        failed = [f for f in failed if any(x.endswith('::' + f) for x in STABLE)]
        if failed or passed < 156: return f'tests: passed {passed} failed {failed[:5]} {r.stdout[-800:] if passed==0 else ""}'
        r = sh(d + '/demo.sh', w, 300)
        if r.returncode == 0: return 'demo passes with the change'
        if r.returncode == 2: return 'demo does not build: ' + (r.stdout + r.stderr)[-1500:]
        out = (r.stdout + r.stderr)[-400:]
        r = sh('git checkout -q -- .; ' + d + '/demo.sh', w, 300)
        if r.returncode != 0: return 'demo fails without the change: ' + (r.stdout + r.stderr)[-1500:]
        return None
    finally:
        shutil.rmtree(t)

def catch(ids):
    # in copies: /repo itself is left alone
    import queue, threading
    T = tempfile.mkdtemp(prefix='catch.')
    q = queue.Queue(); [q.put(i) for i in ids]; lock = threading.Lock()
    def worker(k):
        w = f'{T}/{k}'
        os.makedirs(w + '/verif')
        shutil.copytree(R, w + '/repo', symlinks=True)
        sh(f"cp -a {V}/mc {V}/vendor {V}/run.sh {V}/known_findings.txt {w}/verif/; rm -rf {w}/verif/mc/target/run-*; sed -i 's#\"/repo\"#\"{w}/repo\"#' {w}/verif/mc/Cargo.toml")
        sh('git checkout -- .', w + '/repo')
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            d = f'{V}/seeded/{i}'
            p = json.load(open(d + '/meta.json'))['property']
            try:
                r = sh(f'git apply {d}/patch.diff', w + '/repo')
                assert r.returncode == 0, r.stderr
                r = sh(f'./run.sh {p} quick', w + '/verif')
            finally:
                sh('git checkout -- .', w + '/repo')
            lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            ok = r.returncode == 1 and any(f'VIOLATION property={p} ' in l for l in lines)
            with lock:
                c = V + '/tools/caught.json'
                old = json.load(open(c)) if os.path.exists(c) else {}
                old[i] = 'caught' if ok else 'missed'
                json.dump(dict(sorted((k, v) for k, v in old.items() if os.path.exists(f'{V}/seeded/{k}'))), open(c, 'w'), indent=0)
                print(('CAUGHT ' if ok else 'MISSED '), p, i, f'exit {r.returncode}', lines[:1] or r.stdout[-300:], flush=True)
    try:
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get('JOBS', '2')))]
        [t.start() for t in ts]; [t.join() for t in ts]
    finally:
        shutil.rmtree(T, ignore_errors=True)

a = sys.argv[1:]
if a and a[0] == '--catch':
    catch(a[1:] or sorted(os.listdir(V + '/seeded')))
else:
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in bugs if (b['id'] in a if a else not os.path.exists(f"{V}/seeded/{b['id']}/patch.diff"))]
    def one(b):
        e = build(b)
        if e: shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
        print(('REJECTED ' if e else 'kept ') + b['id'], e or '', flush=True)
    with ThreadPoolExecutor(4) as ex: list(ex.map(one, todo))
