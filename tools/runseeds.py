#!/usr/bin/env python3
"""Developer tool: builds the harness against a scratch copy of /repo with each planted bug and tells which checks report it.
usage: runseeds.py [--all] [ID...]   (--all: run every check, not only the bug's own); results in /verif/seeded/RESULTS.json"""
import sys, os, subprocess, json
W = '/tmp/seedrun'; args = [a for a in sys.argv[1:] if not a.startswith('--')]; ALL = '--all' in sys.argv
def sh(c, cwd, t=1200, env={}):
    p = subprocess.run(['timeout', str(t), 'bash', '-c', c], cwd=cwd, env=dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'); return p.returncode, p.stdout
os.makedirs(W, exist_ok=True)
sh(f'rm -rf {W}/repo {W}/harness; cp -a /repo {W}/repo; rm -rf {W}/repo/target; cp -a /verif/harness {W}/harness; sed -i "s#/repo/ifc_rs#{W}/repo/ifc_rs#" {W}/harness/Cargo.toml; [ -d {W}/target ] || cp -a /verif/target {W}/target; cp /verif/known_findings.txt {W}/', '/tmp')
R = '/verif/tools/seed_results.json'; res = json.load(open(R)) if os.path.exists(R) else {}
ids = args or sorted(os.listdir('/verif/seeded'))
PROPS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for i in ids:
    d = f'/verif/seeded/{i}'
    if not os.path.exists(d + '/patch.diff'): continue
    prop = json.load(open(d + '/meta.json'))['property']
    sh('git checkout -q -- .', W + '/repo')
    rc, o = sh(f'git apply {d}/patch.diff', W + '/repo')
    if rc: print(i, 'does not apply', o); continue
    rc, o = sh(f'cargo build --offline --target-dir {W}/target', W + '/harness')
    if rc: print(i, prop, 'HARNESS DOES NOT BUILD', o[-800:]); continue
    hit = []; own = ''
    for p in (PROPS if ALL else [prop]):
        rc, o = sh(f'{W}/target/debug/harness check {p}', W, 900, {'VERIF_ROOT': W, 'VERIF_SHRINK_S': '10' if p == prop else '0'})
        if rc == 1 and f'VIOLATION property={p}' in o: hit.append(p)
        elif rc: hit.append(f'{p}?rc={rc}')
        if p == prop: own = '\n'.join(o.splitlines()[:12])
    res[i] = {'property': prop, 'caught_by': hit}
    print(i, prop, 'CAUGHT' if prop in hit else 'MISSED', hit, flush=True)
    if prop not in hit: print(own)
    json.dump(res, open(R, 'w'), indent=1, sort_keys=True)
