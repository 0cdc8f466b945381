#!/bin/bash
# run with cwd = the crate under test; builds a small program against it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
crate="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
d="$(mktemp -d /tmp/seed-demo-XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
[ -f "$crate/Cargo.lock" ] && cp "$crate/Cargo.lock" "$d/Cargo.lock.orig"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
bulletproofs_amcl = { path = "$crate" }
rand = "0.6"
merlin = "1"
serde_json = "1.0"
[dependencies.amcl_wrapper]
version = "0.1.5"
default-features = false
features = ["bls381"]
[profile.dev]
opt-level = 1
EOF
cp "$here/demo.lock" "$d/Cargo.lock" 2>/dev/null
cd "$d" && CARGO_TARGET_DIR="$d/t" cargo build --offline >"$d/log" 2>&1 || { tail -40 "$d/log"; exit 0; }
"$d/t/debug/demo"
