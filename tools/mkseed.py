"""Development helper: write a planted change into seeded/<id>."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'

DEMO = '''#!/bin/bash
# builds a small program against the library in the current directory and runs it
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
nanvm-lib = { path = "$repo/nanvm-lib" }
io-trait = "0.11.0"
io-impl = "0.11.0"
[workspace]
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true timeout 200 cargo run -q --offline
'''


# the program beside it must NOT compile, with this error code
NOCOMPILE = DEMO.rsplit('CARGO_TARGET_DIR', 1)[0] + '''if o=$(CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true timeout 200 cargo build -q --offline 2>&1); then
  echo "compiles, but must not"; exit 1
fi
case "$o" in *"error[%s]"*) exit 0;; *) echo "$o"; exit 1;; esac
'''


def sh(c, cwd=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Exception(p.stdout)
    return p.stdout


def seed(i, prop, needs, breaks, edits, main, demo=None):
    if not os.path.isdir(WT):
        sh('git clone -q /repo %s' % WT)
    sh('git fetch -q origin && git reset -q --hard origin/HEAD', WT)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', WT))
    open(d + '/demo.sh', 'w').write(demo or DEMO)
    open(d + '/main.rs', 'w').write(main)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
