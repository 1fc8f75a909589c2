#!/usr/bin/env python3
"""Developer tool: makes /verif/seeded/<id> from a spec module (list SEEDS) and confirms each in a scratch copy of /repo.
usage: mkseed.py SPEC.py [ID...]"""
import sys, os, subprocess, json, importlib.util, re
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
W = '/tmp/seedwt'; R = W + '/repo'
def sh(c, cwd=R, t=900):
    p = subprocess.run(['timeout', str(t), 'bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'); return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# Runs the demonstration program against the crate in the current directory: exit 0 = behaves as stated.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ifc_rs = { path = "$R/ifc_rs" }
bevy_math = { version = "0.16", features = ["std"] }
[profile.dev]
debug = false
EOF
cd "$T"
export CARGO_NET_OFFLINE=true
timeout 280 cargo run -q --offline --target-dir "$T/target"
'''
os.makedirs(W, exist_ok=True)
sh('rm -rf /tmp/seedwt/repo; cp -a /repo /tmp/seedwt/repo', cwd='/tmp')
ok = []
for s in m.SEEDS:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    sh('git checkout -- .')
    f = R + '/' + s['file']; edits = s['edits']
    files = {}
    for e in edits:
        p, old, new = (f, *e) if len(e) == 2 else (R + '/' + e[0], e[1], e[2])
        t = files.get(p) or open(p).read()
        if t.count(old) != 1: print(s['id'], 'pattern occurs', t.count(old), 'times:', old[:60]); break
        files[p] = t.replace(old, new)
    else:
        for p, t in files.items(): open(p, 'w').write(t)
        d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        rc, diff = sh('git diff --no-color'); open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc, o = sh('export INSTA_UPDATE=no CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never; cargo test --workspace --features bevy_math/std --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test result|FAILED|^error|failed$"')
        bad = [l for l in o.splitlines() if 'FAILED' in l or l.startswith('error')]
        rc1, o1 = sh(f'bash {d}/demo.sh')
        sh('git checkout -- .')
        rc0, o0 = sh(f'bash {d}/demo.sh')
        good = not bad and rc1 not in (0, 124) and 'error[' not in o1 and 'could not compile' not in o1 and rc0 == 0
        print(s['id'], 'OK' if good else 'BAD', 'tests', bad[:3], 'patched', rc1, 'clean', rc0)
        if not good: print(o1[-600:], '\n--clean--\n', o0[-600:]); sh(f'rm -rf /verif/seeded/{s["id"]}', cwd='/tmp')
        sys.stdout.flush()
