#!/bin/bash
# Builds the whole of /repo's crate in a scratch directory, with the stand-in for the missing spacemath
# crate beside this file and demo.rs as a test (of the library, or of the program), and runs it.
# Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/partial/env.sh
work=$(mktemp -d /tmp/bugi-demo.XXXXXX) || exit 99
trap 'rm -rf "$work"' EXIT
crate=$work/crate
mkdir "$work/tmp" "$work/run" "$crate" "$crate/tests"
cp -r /repo/src "$crate/src"
cp -r "$here/spacemath" "$work/spacemath"
cp "$here/Cargo.lock" "$crate/"
find "$crate/src" -name 'tests.rs' -exec sh -c ': > "$1"' _ {} \;
if grep -q '^use crate::' "$here/demo.rs"; then
    cp "$here/demo.rs" "$crate/src/planted_demo.rs"
    printf '\n#[cfg(test)]\nmod planted_demo;\n' >> "$crate/src/lib.rs"
else
    cp "$here/demo.rs" "$crate/tests/planted_demo.rs"
fi
cat > "$crate/Cargo.toml" <<'R'
[package]
name = "bugi"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
image = { version = "0.23.12", default-features = false, features = ["png"] }
fastrand = "1.5.0"
spacemath = { path = "../spacemath" }
clap = { version = "~2.27.0", features = ["yaml"] }
nom = "7.1.1"
R
cd "$crate" && export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$work/target" TMPDIR="$work/tmp" DEMO_DIR="$work/run"
if [ -e tests/planted_demo.rs ]; then
    cargo test --offline -q --test planted_demo 2>&1 | tail -40
else
    cargo test --offline -q --lib planted_demo 2>&1 | tail -40
fi
exit ${PIPESTATUS[0]}
