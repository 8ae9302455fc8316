"""Development aid: builds and confirms a planted bug in a scratch copy of /repo.

  seed.py ID PROPERTY FILE <<EOF with sections:
  @@OLD / @@NEW pairs (exact text; `@@FILE path` switches file), @@NEEDS, @@BREAKS, @@DEMO (body of main.rs)
"""
import os, sys, re, json, subprocess, shutil
ID, PROP = sys.argv[1:3]
txt = sys.stdin.read()
parts = re.split(r'^@@(\w+)[ ]?(.*)\n', txt, flags=re.M)[1:]
secs = [(parts[i], parts[i+1], parts[i+2]) for i in range(0, len(parts), 3)]
D = f'/verif/seeded/{ID}'
M = '/tmp/mut'
if not os.path.exists(M):
    subprocess.check_call(['cp', '-a', '/repo', M])
g = lambda *a, **k: subprocess.run(['git', '-C', M] + list(a), capture_output=True, text=True, **k)
g('fetch', '-q', '/repo', 'HEAD'); g('checkout', '-q', '-f', 'FETCH_HEAD'); g('clean', '-qfd')
f = None; old = None; meta = {'property': PROP}; demo = ''
for k, a, b in secs:
    if k == 'FILE': f = f'{M}/{a.strip()}'
    elif k == 'OLD': old = b
    elif k == 'NEW':
        s = open(f).read()
        n = s.count(old)
        if n != 1: print('OLD matches', n, 'times in', f, ':', old); sys.exit(1)
        open(f, 'w').write(s.replace(old, b))
    elif k == 'NEEDS': meta['needs'] = ' '.join(b.split())
    elif k == 'BREAKS': meta['what_it_breaks'] = ' '.join(b.split())
    elif k == 'DEMO': demo = b
patch = g('diff').stdout
os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w').write(patch)
open(D + '/main.rs', 'w').write(demo)
json.dump(meta, open(D + '/meta.json', 'w'), indent=1)
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# Run with cwd /repo. Exit 0 on a correct tree, nonzero with the bug.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp /opt/veriftools/crates.Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
prima_undine = { path = "$R/prima_undine" }
prima_undine_contrib = { path = "$R/prima_undine_contrib" }
prima_undine_derive = { path = "$R/prima_undine_derive" }
serde = "*"
serde_json = "*"
bincode = "1"
[workspace]
TOML
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2> "$T/err" || { cat "$T/err"; exit 1; }
timeout 120 "$T/target/debug/demo"
''')
os.chmod(D + '/demo.sh', 0o755)
if not patch: print('empty patch'); sys.exit(1)
# tests
cur = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {M}; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1'], capture_output=True, text=True, env={**os.environ, 'CARGO_TARGET_DIR': '/tmp/mut/target'}).stdout
open('/tmp/w/mut.log','w').write(cur)
fails = re.findall(r'^test (.*) \.\.\. FAILED', cur, re.M)
ok = len(re.findall(r'^test (.*) \.\.\. ok', cur, re.M))
print('tests ok', ok, 'failed', fails[:5], 'compile error' if 'could not compile' in cur else '')
a = subprocess.run(['bash', D + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run(['bash', D + '/demo.sh'], cwd=M, capture_output=True, text=True)
print('demo clean rc', a.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else '')
print('demo bug rc', b.returncode, (b.stdout + b.stderr)[-300:])
good = ok >= 210 and not fails and a.returncode == 0 and b.returncode != 0
print('GOOD' if good else 'BAD')
if not good: shutil.rmtree(D)
