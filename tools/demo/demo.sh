#!/bin/bash
# Builds /repo's matrix, spatial, visual and element modules with demo.rs as a test module, in a scratch
# directory, and runs it. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/partial/env.sh
work=$(mktemp -d /tmp/bugi-demo.XXXXXX) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/tmp"
cp -r /repo/src/matrix /repo/src/spatial /repo/src/visual /repo/src/element "$work/src/"
cp "$here/Cargo.lock" "$work/"
cp "$here/demo.rs" "$work/src/planted_demo.rs"
find "$work/src" -name 'tests.rs' -exec sh -c ': > "$1"' _ {} \;
cat > "$work/src/lib.rs" <<'R'
#![allow(dead_code)]
pub mod element;
pub mod matrix;
mod spatial;
pub mod visual;
#[cfg(test)]
mod planted_demo;
R
cat > "$work/Cargo.toml" <<'R'
[package]
name = "bugi"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
image = { version = "0.23.12", default-features = false, features = ["png"] }
fastrand = "1.5.0"
R
python3 - "$work/src" <<'P' || exit 99
import os, re, sys
for top, _, names in os.walk(sys.argv[1]):
    for n in names:
        path = os.path.join(top, n)
        text = open(path).read()
        new = re.sub(r"(?ms)^impl\b[^\n]*\bspacemath::[^\n]*\{\n.*?^\}\n", "", text)
        if new != text:
            open(path, "w").write(new)
P
cd "$work" && export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$work/target" TMPDIR="$work/tmp"
cargo test --offline -q planted_demo 2>&1 | tail -40
exit ${PIPESTATUS[0]}
