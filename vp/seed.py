"""Development helper (no check uses it): seed.py ID PROPERTY MODE SEED0 COUNT 'needs' 'breaks' < edits
stdin: blocks `FILE\n<<<<\nold\n====\nnew\n>>>>`.  Builds /verif/seeded/ID after confirming, in a scratch copy, that the
change compiles, keeps the stable tests and makes the demonstration fail, and that the demo passes unchanged.
MODE: a mode of the demo driver, or @file.rs = a main.rs of its own."""
import sys, os, re, subprocess, shutil, json, tempfile
sid, prop, mode, seed0, count, needs, breaks = sys.argv[1:8]
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
D = os.path.join(ROOT, 'seeded', sid)
W = '/tmp/seedwork'; TGT = '/tmp/seedtgt'
def sh(c, cwd, env=None, t=600):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
os.path.exists(W) and shutil.rmtree(W)
shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('target'))
txt = sys.stdin.read()
blocks = re.findall(r'(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', txt, re.S)
assert blocks
for f, o, n in blocks:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(o) == 1, ('count', f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
diff = sh('git diff', W).stdout
os.makedirs(D, exist_ok=True)
open(os.path.join(D, 'patch.diff'), 'w').write(diff)
os.makedirs(os.path.join(D, 'src'), exist_ok=True)
if mode.startswith('@'):
    shutil.copy(mode[1:], os.path.join(D, 'src/main.rs')); args = ''
else:
    for f in os.listdir(os.path.join(ROOT, 'harness/src')): shutil.copy(os.path.join(ROOT, 'harness/src', f), os.path.join(D, 'src', f))
    m = os.path.join(D, 'src/main.rs'); s = open(m).read()
    s = s.replace('while t0.elapsed() < Duration::from_millis(ms) {', 'while n < ms {').replace('let t0 = Instant::now();\n', '').replace('use std::time::{Duration, Instant};', 'use std::time::Duration;').replace('n += 1; if i.nontrivial', 'n += 1; if i.nontrivial')
    s = s.replace('BUDGET_MS   explore seeds SEED0, SEED0+STEP, ... until the budget is spent', 'COUNT   explore COUNT seeds SEED0, SEED0+STEP, ...').replace('//! Concrete search used when a proof obligation fails (to find a failing input) and as the labelled\n//! bounded stand-in for what is outside the verifier\'s reach.\n', '//! Random models run through the crate against a brute-force oracle.\n')
    open(m, 'w').write(s); args = 'run %s %s 1 %s' % (mode, seed0, count)
open(os.path.join(D, 'demo.sh'), 'w').write('''#!/bin/bash
# demonstrates the change: builds a small driver against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
cp -r "$here/src" "$d/src"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "replay"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
engineering = { path = "$repo" }
parking_lot = "0.12.0"
bitset-fixed = "0.1.0"
[profile.release]
opt-level = 2
overflow-checks = true
debug-assertions = true
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --release --offline --quiet || exit 3
timeout 200 "$d/target/release/replay" %s
''' % args)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(D, 'meta.json'), 'w'), indent=1)
ok = True
t = sh('cargo test --offline --lib 2>&1; cargo test --offline --doc -- BitSet 2>&1', W, {'CARGO_TARGET_DIR': TGT})
res = re.findall(r'test result: (\w+)\. (\d+) passed', t.stdout)
print('tests with the change:', res); ok &= [r for r in res] == [('ok', '11'), ('ok', '2')]
if not ok: print(t.stdout[-2000:])
b = sh('cargo build --offline --examples 2>&1', W, {'CARGO_TARGET_DIR': TGT}); ok &= b.returncode == 0
a = sh('bash %s/demo.sh' % D, '/repo', t=400); print('demo unchanged:', a.returncode, a.stdout[-200:], a.stderr[-300:]); ok &= a.returncode == 0
a = sh('bash %s/demo.sh' % D, W, t=400); print('demo changed  :', a.returncode, a.stdout[-400:], a.stderr[-200:]); ok &= a.returncode != 0
shutil.rmtree(W)
if not ok: shutil.rmtree(D); print('REJECTED', sid)
else: print('KEPT', sid)
