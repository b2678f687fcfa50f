#!/usr/bin/env python3
"""Mechanical mutants of /repo's non-test source, to find what the checks do not see.
mutate.py test OUT.jsonl        : builds every mutant in scratch copies, keeps those that pass the stable tests
mutate.py check IN.jsonl OUT    : runs the checks on each of these until one reports a violation
Works in copies under /tmp/mut only."""
import sys, os, re, json, subprocess, shutil, hashlib, threading, queue
R = os.environ.get('MUT_R', '/repo'); V = '/verif'; T = '/tmp/mut'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
FILES = [f for f in subprocess.run(['git', '-C', R, 'ls-files'], capture_output=True, text=True).stdout.split()
         if f.endswith('.rs') and '/tests' not in f]

REPL = [('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' < ', ' > '), (' > ', ' < '),
        ('&&', '||'), ('||', '&&'), (' + ', ' - '), (' - ', ' + '), (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'),
        ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('.is_ok()', '.is_err()'), ('.start', '.end'), ('.end', '.start'),
        ('captured_range', 'matched_range'), ('matched_range', 'captured_range'), ('continue', 'break'), ('break;', 'continue;'),
        ('.first()', '.last()'), ('.last()', '.first()'), ('.clone_with_name', '.clone_with_name'), ('MatcherFailure::Fail', 'MatcherFailure::Error(crate::parse_error::ParseError::new("x"))'),
        (' 0', ' 1'), (' 1', ' 0'), (' 1', ' 2'), ('(0', '(1'), ('(1', '(0'), ('Skip(0)', 'Skip(1)'), ('if !', 'if '), ('= ""', '= "x"'), ('"*"', '"+"'), ('+"', '*"'), ('*"', '+"'),
        ('\\s', '\\t '), ('\\w', 'a-z'), ('usize::MAX', '3'), ('isize', 'i8'), ('u32', 'u8'), ('min(', 'max('), ('max(', 'min('), ('.rev()', ''), ('.trim()', ''),
        ('MatcherSuccess::Token(', 'MatcherSuccess::ProxyChildren('), ('MatcherSuccess::ProxyChildren(', 'MatcherSuccess::Token('),
        ('MatcherSuccess::Break', 'MatcherSuccess::Continue'), ('MatcherSuccess::Continue', 'MatcherSuccess::Break'), ('Some(', 'None; //('), ('.insert(0, ', '.push('), ('get_value', 'get_captured_value'), ('get_captured_value', 'get_value'), ('get_captured_value', 'get_matched_value'),
        ('Optional!', 'Program!'), ('Discard!', 'Program!'), ('ProxyChildren!', 'Program!'), ('Switch!', 'Program!'), ('?"', '"'), ('|', ''), ('^', ''), ('$"', '"'),
        ('parser_context.clone()', 'sub_context.clone()'), ('sub_context.clone()', 'parser_context.clone()'), ('scope.clone()', 'Default::default()'), ('len()', 'len() - 1'), ('..', '..='), ('..=', '..'), ('ref ', ''), ('| FLAG', '& FLAG'), (' & ', ' | '), (' | ', ' & ')]

def mutants():
    seen = set()
    for f in FILES:
        lines = open(f'{R}/{f}').read().split('\n')
        end = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l), len(lines))
        for i in range(end):
            l = lines[i]; s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#[') or s.startswith('pub mod'): continue
            out = []
            for a, b in REPL:
                k = -1; n = 0
                while True:
                    k = l.find(a, k + 1)
                    if k < 0 or n > 3: break
                    n += 1
                    if a == '..' and (l[k:k+3] == '..=' or l[k-1:k] == '.'): continue
                    out.append([l[:k] + b + l[k+len(a):]])
            m = re.match(r'(\s*)(\} else )?if (.*) \{$', l)
            if m and ' let ' not in l:
                for c in ('true', 'false'):
                    out.append([f'{m[1]}{m[2] or ""}if {c} {{'])
            m = re.match(r'(\s*)if (.*) \{$', l)
            if s.endswith(';') and not s.startswith('let ') and not s.startswith('}') and s != ';' and s.count('(') == s.count(')'):
                out.append([])
            if s.endswith(',') and s.count('(') == s.count(')') and s.count('{') == s.count('}') and ('script' in f or 'macro' in f):
                out.append([])
            if s.endswith('?;'):
                pass
            for o in out:
                if o and o[0] == l: continue
                key = (f, i, o[0] if o else '')
                if key in seen: continue
                seen.add(key)
                yield dict(file=f, line=i + 1, old=l, new=o[0] if o else None)

def sh(cmd, timeout=600, env=None):
    p = subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, 'timeout'

def apply(w, m):
    p = f'{w}/repo/{m["file"]}'
    lines = open(f'{R}/{m["file"]}').read().split('\n')
    if m['new'] is None: del lines[m['line'] - 1]
    else: lines[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(lines))
def undo(w, m):
    p = f'{w}/repo/{m["file"]}'
    open(p, 'w').write(open(f'{R}/{m["file"]}').read())

ENV = '. /opt/vp/env.sh; unset RUSTFLAGS; '
def run_pool(n, todo, setup, one):
    q = queue.Queue(); [q.put(x) for x in todo]
    def w(k):
        d = f'{T}/w{k}'; setup(k, d)
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            try: one(k, d, x)
            except Exception as e: print('EXC', e, x, flush=True)
    ts = [threading.Thread(target=w, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

def copy_repo(d):
    os.makedirs(d, exist_ok=True)
    if os.path.exists(d + '/repo'): shutil.rmtree(d + '/repo')
    shutil.copytree(R, d + '/repo', symlinks=True)

def main_test(out):
    ms = list(mutants()); print(len(ms), 'mutants', flush=True)
    done = set()
    if os.path.exists(out + '.done'):
        done = set(open(out + '.done').read().split())
    lock = threading.Lock(); cnt = [0, 0, 0]
    def key(m): return hashlib.md5(json.dumps(m).encode()).hexdigest()
    def one(k, d, m):
        apply(d, m)
        try:
            c, o = sh(f'{ENV} cd {d}/repo; export CARGO_TARGET_DIR={d}/repo/target; taskset -c {k % 8} timeout 60 cargo test --offline -q --no-run 2>&1 && taskset -c {k % 8} timeout 40 cargo test --offline --no-fail-fast -- --test-threads 4 2>&1')
        finally: undo(d, m)
        failed = [x for x in re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M) if any(s.endswith('::' + x) for s in STABLE)]
        passed = len(re.findall(r'^test (\S+) \.\.\. ok', o, re.M))
        r = 'nobuild' if passed == 0 and 'could not compile' in o else 'killed' if failed or passed < 156 else 'alive'
        with lock:
            cnt[['nobuild', 'killed', 'alive'].index(r)] += 1
            open(out + '.done', 'a').write(key(m) + '\n')
            if r == 'alive': open(out, 'a').write(json.dumps(m) + '\n')
            if sum(cnt) % 100 == 0: print(cnt, flush=True)
    import random; random.Random(1).shuffle(ms)
    run_pool(8, [m for m in ms if key(m) not in done], lambda k, d: copy_repo(d), one)
    print('end', cnt)

ORDER = {
 'program.rs': 'C01 C02 C03 C05 C07 C25 C29 C15 C27', 'pin.rs': 'C14', 'sequence.rs': 'C10', 'discard.rs': 'C04 C07 C25', 'equals.rs': 'C09 C13', 'matches.rs': 'C09 C27', 'fetch.rs': 'C13', 'store.rs': 'C13', 'debug.rs': 'C19 C27', 'map.rs': 'C24', 'catch.rs': 'C24', 'ref.rs': 'C12', 'error.rs': 'C07', 'panic.rs': 'C08', 'proxy_children.rs': 'C25', 'expand_range.rs': 'C25', 'set_scope.rs': 'C11', 'register.rs': 'C12 C28', 'not.rs': 'C04', 'optional.rs': 'C04', 'break.rs': 'C05', 'null.rs': 'C04', 'assert_if.rs': 'C24', 'assert_if_not.rs': 'C24', 'fatal_if.rs': 'C08', 'fatal_if_not.rs': 'C08',
 'token.rs': 'C18 C31 C06', 'token_visitor.rs': 'C17', 'parser_context.rs': 'C28 C16 C11 C07', 'parser.rs': 'C30 C16 C06', 'source_range.rs': 'C18 C06', 'scope.rs': 'C11 C12', 'scope_context.rs': 'C11', 'parse_error.rs': 'C07 C16', 'matcher.rs': 'C27', 'lib.rs': 'C18 C06',
}
ALL = ['C%02d' % i for i in range(1, 33)]
def props_for(f):
    first = 'C21 C32 C20 C22 C23 C26' if 'script' in f else ORDER.get(os.path.basename(f), '')
    first = first.split()
    return first, [p for p in ALL if p not in first]

def main_check(src, out, n=4):
    ms = [json.loads(l) for l in open(src)]
    done = set()
    if os.path.exists(out):
        done = {json.dumps(json.loads(l)['m']) for l in open(out)}
    lock = threading.Lock()
    def setup(k, d):
        copy_repo(d)
        v = d + '/verif'
        shutil.rmtree(v, ignore_errors=True); os.makedirs(v)
        sh(f'cp -a {V}/mc {V}/vendor {V}/known_findings.txt {v}/; rm -rf {v}/mc/target/run-*; sed -i \'s#"/repo"#"{d}/repo"#\' {v}/mc/Cargo.toml')
    def one(k, d, m):
        cpus = f'{2*k},{2*k+1}'
        apply(d, m); res = None
        try:
            c, o = sh(f'{ENV} cd {d}/verif/mc; export CARGO_TARGET_DIR={d}/verif/mc/target CARGO_INCREMENTAL=0; taskset -c {cpus} cargo build --release --offline 2>&1', 900)
            if c != 0: res = 'nobuild ' + o[-300:]
            else:
                first, rest = props_for(m['file'])
                stages = [(p, 6, True) for p in first] + [(p, 2, True) for p in rest]
                if os.environ.get('MUT_FULL'): stages = [(p, 600, True) for p in first + rest]
                for p, b, spread in stages:
                    c, o = sh(f'cd {d}/verif; export MC_HOME={d}/verif MC_BUDGET={b} MC_SPREAD=1; taskset -c {cpus} ./mc/target/release/mc run {p} quick 2>&1', 900)
                    if c != 0:
                        res = f'{p} exit {c} ' + ' / '.join(o.strip().split('\n')[-3:])[:300]; break
        finally: undo(d, m)
        with lock:
            open(out, 'a').write(json.dumps(dict(m=m, res=res)) + '\n')
            print('SURVIVED' if res is None else 'caught', m['file'], m['line'], (m['new'] or '<deleted>').strip()[:80], '|', (res or '')[:60], flush=True)
    run_pool(n, [m for m in ms if json.dumps(m) not in done], setup, one)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'count': print(len(list(mutants())))
    elif a[0] == 'test': main_test(a[1])
    else: main_check(a[1], a[2], int(a[3]) if len(a) > 3 else 4)
