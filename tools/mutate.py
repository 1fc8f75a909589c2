#!/usr/bin/env python3
"""Developer self-test: random source mutations of /repo in scratch copies; reports those that neither the checks nor the
repository's tests notice.  usage: mutate.py WORKDIR NWORKERS COUNT SEED [path-regex]   (never used by a registered check)"""
import sys, os, re, random, subprocess, shutil, json, threading, queue, difflib, time
WORK, NW, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
PATH = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
IDS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
rnd = random.Random(SEED)

def code_lines(t):
    """indices of mutable lines: code before the test module, no comments/attributes/imports"""
    ls = t.split('\n'); out = []; blk = False; use = False; st = False
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith('#[cfg(test)]') or s.startswith('#[test]') or s.startswith('#[ignore'): break
        if use:
            use = not s.endswith(';')
            continue
        if re.match(r'(pub(\(crate\))? )?use ', s): use = not s.endswith(';'); continue
        if re.match(r'(pub(\(crate\))? )?mod \w+;', s) or 'macro_rules' in s or 'panic!' in s or 'todo!' in s or 'Debug' in s: continue
        if re.match(r'(pub )?fn ', s): continue
        if blk:
            if '*/' in s: blk = False
            continue
        if s.startswith('/*'): blk = '*/' not in s; continue
        if not s or s.startswith('//') or s.startswith('#![') or s.startswith('use ') or s.startswith('pub use ') or s.startswith('mod ') or s.startswith('pub mod '): continue
        out.append(i)
    return ls, out

SUB = [  # (regex, replacement)
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'&&', '||'), (r'\|\|(?! )', '&&'), (r'\+=', '-='),
    (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b3\b', '2'), (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '0.0'), (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)),
    (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'\.z\b', '.y'), (r'\bX\b', 'Y'), (r'\bY\b', 'X'), (r'\bZ\b', 'Y'),
    (r'_x\b', '_y'), (r'_y\b', '_x'), (r'_z\b', '_y'), (r'axis_x', 'axis_y'), (r'axis_z', 'axis_y'), (r'\bheight\b', 'width'), (r'\bwidth\b', 'height'), (r'\blength\b', 'height'), (r'\bheight\b', 'length'),
    (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.into_iter\(\)', '.into_iter().rev()'), (r'\.into_iter\(\)', '.into_iter().skip(1)'),
    (r'\.into_iter\(\)', '.into_iter().take(2)'), (r'\.iter\(\)', '.iter().take(2)'), (r'\.collect\(\)', '.take(3).collect()'), (r'\.filter\(', '.skip(1).filter('), (r'\.copied\(\)', '.copied().filter(|_| false)'),
    (r'\bany\(', 'all('), (r'\ball\(', 'any('), (r'\.push\((.*?)\);', r'.insert(0, \1);'), (r'separated\(0', 'separated(1'), (r'repeat\(0\.\.', 'repeat(1..'), (r'repeat\(1\.\.', 'repeat(0..'), (r'0\.\.', '1..'), (r'1\.\.', '0..'),
    (r'last\(\)', 'first()'), (r'first\(\)', 'last()'), (r'\.next\(\)', '.last()'), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'Some\((\w+)\) =>', r'Some(\1) if false =>'),
    (r'\bPositive\b', 'Negative'), (r'\bAxis1\b', 'Axis2'), (r'\bAxis2\b', 'Axis1'), (r'::Body\b', '::Axis'), (r'::Axis\b', '::Body'), (r'SweptSolid', 'Brep'), (r'\bArea\b', 'Curve'), (r'Omitted', 'Inherited'), (r'Inherited', 'Omitted'),
    (r'omitted\(\)', 'inherited()'), (r'inherited\(\)', 'omitted()'), (r'\.normalize\(\)', ''), (r'!(\w+[.(])', r'\1'), (r'\bif (?!let)', 'if !'), (r'p_space_or_comment_surrounded\("(.)"\)', r'"\1"'), (r'p_space_or_comment\(\)', '""'),
    (r'unwrap_or_default\(\)', 'unwrap()'), (r'\.is_empty\(\)', '.len() == 1'), (r'insert_new\(', 'insert_new('), (r'\?;', '.ok();'), (r'\.trim\(\)', ''), (r'\.clone\(\)', '.clone()'), (r'\babs\(\)', 'signum()'),
    (r'checked_(\w+)', r'wrapping_\1'), (r'\bi64\b', 'i32'), (r'\bu64\b', 'u32'), (r'\bf64\b', 'f32'), (r'u128', 'u64'), (r'Some\(([^()]+)\)', 'None'), (r'wall', 'slab'), (r'slab', 'wall'), (r'window', 'opening'), (r'user', 'application'),
]
def ident_swap(l):
    m = [x for x in re.finditer(r'\(([a-z_.]+), ([a-z_.]+)([,)])', l) if x.group(1) != x.group(2)]
    if not m: return None
    x = rnd.choice(m); return l[:x.start()] + f'({x.group(2)}, {x.group(1)}{x.group(3)}' + l[x.end():]
def lit(l):
    m = [x for x in re.finditer(r'"([^"\\{}]{2,})"', l)]
    if not m: return None
    x = rnd.choice(m); s = x.group(1); k = rnd.randrange(len(s)); how = rnd.random()
    n = s[:k] + s[k+1:] if how < .3 else s[:k] + rnd.choice('AXQ_ ') + s[k+1:] if how < .7 else s[:k] + s[k].swapcase() + s[k+1:]
    return None if n == s else l[:x.start()] + '"' + n + '"' + l[x.end():]
def fieldswap(l, ls, i):
    """replace self.a by self.b of a neighbouring line"""
    a = re.findall(r'self\.(\w+)', l)
    b = [f for j in range(max(0, i-4), min(len(ls), i+5)) for f in re.findall(r'self\.(\w+)', ls[j])]
    if not a: return None
    x = rnd.choice(a); b = [y for y in b if y != x]
    return re.sub(r'self\.%s\b' % x, 'self.' + rnd.choice(b), l, count=1) if b else None
def mutate(t):
    ls, idx = code_lines(t)
    if not idx: return None
    for _ in range(60):
        i = rnd.choice(idx); l = ls[i]; s = l.strip(); n = list(ls); how = rnd.random()
        if how < .18:
            if not (s.endswith(';') or s.endswith(',') or s.startswith('.')) or s.startswith('}') or s.startswith(')'): continue
            if s.startswith('.') and s.endswith(';'): n[i] = l[:len(l) - len(l.lstrip())] + ';'
            else: del n[i]
        elif how < .33:
            if i + 1 not in idx: continue
            if abs((len(l) - len(l.lstrip())) - (len(ls[i+1]) - len(ls[i+1].lstrip()))) > 0 or l == ls[i+1]: continue
            if ls[i+1].strip().startswith('}') or ls[i+1].strip().startswith(')'): continue
            if re.match(r'(pub(\(crate\))? )?\w+(: [^(]*)?,$', s): continue   # order of struct fields, shorthand
            if re.match(r'\w+: .*,$', s) and re.match(r'\w+: .*,$', ls[i+1].strip()): continue   # order in a struct literal
            if s.startswith('#[') or s.startswith('.name('): continue
            n[i], n[i+1] = n[i+1], n[i]
        elif how < .43:
            x = lit(l)
            if x is None: continue
            n[i] = x
        elif how < .5:
            x = ident_swap(l)
            if x is None: continue
            n[i] = x
        elif how < .58:
            x = fieldswap(l, ls, i)
            if x is None: continue
            n[i] = x
        elif how < .62:
            m = re.match(r'(\s*)#\[ifc_types\((.*)\)\]', l)
            if not m: continue
            k = m.group(2).split(', ')
            if len(k) < 2: continue
            del k[rnd.randrange(len(k))]; n[i] = f'{m.group(1)}#[ifc_types({", ".join(k)})]'
        else:
            if s.startswith('#['): continue
            ok = [(r, p) for r, p in SUB if re.search(r, l)]
            if not ok: continue
            r, p = rnd.choice(ok); m = rnd.choice(list(re.finditer(r, l)))
            n[i] = l[:m.start()] + re.sub(r, p, m.group(0), count=1) + l[m.end():]
            if n[i] == l: continue
        r = '\n'.join(n)
        if r != t: return r
    return None

FILES = []
for d, _, fs in os.walk('/repo'):
    if '/target' in d or '/.git' in d or '/tests' in d or '/examples' in d: continue
    for f in fs:
        p = os.path.join(d, f)
        if f.endswith('.rs') and f != 'build.rs' and (PATH is None or PATH.search(p)): FILES.append(p)
FILES.sort()
W = [max(1, len(code_lines(open(p).read())[1])) ** .8 for p in FILES]
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='', VERIF_SHRINK_S='0')
SKIP = set(json.load(open('/opt/vp/BASELINE.json')).get('flaky', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
lock = threading.Lock(); stats = {}; q = queue.Queue()
def setup(k):
    b = f'{WORK}/w{k}'
    os.makedirs(b, exist_ok=True)
    subprocess.run(f'rm -rf {b}/repo {b}/harness; cp -a /repo {b}/repo; cp -a /verif/harness {b}/harness; sed -i "s#/repo/ifc_rs#{b}/repo/ifc_rs#" {b}/harness/Cargo.toml; [ -d {b}/target ] || cp -a /verif/target {b}/target; cp /verif/known_findings.txt {b}/', shell=True, check=True)
def sh(cmd, k, t, cwd):
    b = f'{WORK}/w{k}'
    try:
        p = subprocess.run(['taskset', '-c', str(k % 8), 'timeout', '-k', '5', str(t), 'bash', '-c', cmd], cwd=cwd, env=dict(ENV, VERIF_ROOT=b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout
    except Exception as e: return 99, str(e)
def run(k, path, new):
    b = f'{WORK}/w{k}'; f = path.replace('/repo/', f'{b}/repo/', 1)
    old = open(path).read(); open(f, 'w').write(new)
    try:
        rc, o = sh(f'cargo build --offline --target-dir {b}/target', k, 400, f'{b}/harness')
        if rc: return 'no-build' if 'could not compile `ifc_rs' in o else 'harness-no-build'
        h = f'{b}/target/debug/harness'
        for frac in (60, 8):
            order = IDS[:]; rnd2 = random.Random(hash(new)); rnd2.shuffle(order)
            for p in order:
                c = QUICK[p] // frac
                rc, o = sh(f'{h} check {p} --cases {c}', k, 300, b)
                if rc == 1 and 'VIOLATION' in o: return 'caught ' + p
                if rc not in (0, 1): return f'caught? {p} rc={rc}'
        rc, o = sh(f'INSTA_UPDATE=no CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --features bevy_math/std --no-fail-fast --offline', k, 600, f'{b}/repo')
        if rc: return 'tests'
        return 'SURVIVOR'
    finally: open(f, 'w').write(old)
QUICK = {}
def worker(k):
    setup(k)
    while True:
        try: path, new = q.get_nowait()
        except queue.Empty: return
        r = run(k, path, new)
        with lock:
            stats[r.split()[0]] = stats.get(r.split()[0], 0) + 1
            d = ''.join(difflib.unified_diff(open(path).read().splitlines(1), new.splitlines(1), path, path, n=2))
            open(f'{WORK}/log.txt', 'a').write(f'=== {r}\n{d}\n')
            if r == 'SURVIVOR' or r.startswith('caught?'): open(f'{WORK}/survivors.txt', 'a').write(f'=== {r}\n{d}\n')
            open(f'{WORK}/stats.json', 'w').write(json.dumps(dict(stats, left=q.qsize())))
os.makedirs(WORK, exist_ok=True)
for l in subprocess.run(['/verif/target/debug/harness', 'list'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    w = l.split()
    QUICK[w[0]] = 20000
for f in os.listdir('/verif/harness/src/props'):
    for m in re.finditer(r'id: "(P\d+)".*?quick: ([\d_]+)', open('/verif/harness/src/props/' + f).read(), re.S): QUICK[m.group(1)] = int(m.group(2).replace('_', ''))
seen = set()
while len(seen) < COUNT:
    p = rnd.choices(FILES, W)[0]; m = mutate(open(p).read())
    if m and (p, m) not in seen: seen.add((p, m)); q.put((p, m))
ts = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
