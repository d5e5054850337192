#!/usr/bin/env python3
"""mkseed.py SPECFILE: make /verif/seeded/<id> entries.  SPECFILE is python defining SEEDS =
[dict(id, prop, file, edits=[(old,new[,nth])], needs, breaks, demo)]. Each is confirmed in a scratch copy:
builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, subprocess, json, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = r'''#!/bin/bash
# exit 0: the property holds on the cases below; non-zero: it is broken.  Run in the repository root.
set -u
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin CARGO_NET_OFFLINE=true
repo="$PWD"; here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
kami = { path = "$repo" }
nalgebra-glm = "0.7.0"
num-traits = "0.2"
approx = "0.3.2"
serde_json = "1.0.56"
T
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 99
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2> "$d/log" || { cat "$d/log"; exit 98; }
timeout 60 "$d/target/debug/demo"
'''
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    out = f"/verif/seeded/{s['id']}"
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        repo = w + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        orig = {}
        edits = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
        for f, es in edits.items():
            t = open(f'{repo}/{f}').read()
            for e in es:
                n = t.count(e[0])
                assert n >= 1, (s['id'], 'not found', e[0])
                if len(e) == 2: assert n == 1, (s['id'], 'ambiguous', n, e[0]); t = t.replace(e[0], e[1])
                else:
                    parts = t.split(e[0]); k = e[2]
                    t = e[0].join(parts[:k+1]) + e[1] + e[0].join(parts[k+1:])
            open(f'{repo}/{f}', 'w').write(t)
        patch = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        # stable tests with the change, in the copy
        env = dict(os.environ, CARGO_TARGET_DIR=repo + '/target', CARGO_NET_OFFLINE='true')
        r = subprocess.run('timeout 120 cargo test --workspace --lib --offline 2>&1', shell=True, cwd=repo, env=env, capture_output=True, text=True)
        passed = {l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')}
        miss = [x for x in b if x.split(' ')[-1] not in passed and not any(x.endswith(p) for p in passed)]
        d1 = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
        d0 = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        ok = r.returncode == 0 and not miss and d1.returncode not in (0, 98, 99) and d0.returncode == 0
        print(('OK  ' if ok else 'BAD '), s['id'], 'tests', r.returncode, miss[:3], 'demo with', d1.returncode, 'without', d0.returncode)
        if not ok: print(r.stdout[-1500:] if r.returncode else '', d1.stdout[-600:], d1.stderr[-600:], d0.stdout[-600:], d0.stderr[-600:])
    finally:
        shutil.rmtree(w)
