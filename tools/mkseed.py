"""Helper to plant a seeded change: writes seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json} and
confirms in scratch copies that the change compiles, passes the stable tests, and that the
demonstration tells the two trees apart. Used by hand; no check uses it."""
import json, os, re, shutil, subprocess, sys

DEMO = '''#!/bin/bash
# Builds a small program against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sgp4 = { path = "$repo", default-features = false, features = ["alloc", "serde"%s] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[workspace]
EOF
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)

def mkseed(id, prop, needs, what, edits, main_rs, libm=False, test=True):
    work = '/tmp/seedwork'
    if os.path.exists(work):
        shutil.rmtree(work)
    sh(f'git clone -q /repo {work}', '/tmp')
    d = os.path.join(os.environ.get('SEED_OUT', '/verif/seeded'), id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = f'{work}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', work).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/main.rs', 'w').write(main_rs)
    open(f'{d}/demo.sh', 'w').write(DEMO % (', "libm"' if libm else ', "std"'))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(f'{d}/meta.json', 'w'), indent=1)
    ok = True
    if test:
        r = sh('cargo test --offline --no-fail-fast 2>&1', work)
        failed = set(re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M)) - {'src/lib.rs - (line 13)'}
        passed = len(re.findall(r'^test .* \.\.\. ok', r.stdout, re.M))
        print(id, 'tests: passed', passed, 'failed', failed)
        ok &= not failed and passed >= 17
    r = sh(f'bash {d}/demo.sh', work)
    print(id, 'demo with change exit', r.returncode, (r.stdout + r.stderr)[-300:].strip())
    ok &= r.returncode == 1 or r.returncode == 101 or r.returncode in (124, 134)
    sh('git checkout -q -- .', work)
    r = sh(f'bash {d}/demo.sh', work)
    print(id, 'demo unchanged exit', r.returncode, (r.stdout + r.stderr)[-300:].strip())
    ok &= r.returncode == 0
    print(id, 'CONFIRMED' if ok else 'NOT CONFIRMED')
    shutil.rmtree(work)
