#!/bin/bash
# Run from the repository root: builds demo.rs against it and runs it (0: property holds, 101: it does not).
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; [ ! -f "$D/refs.rs" ] || cp "$D/refs.rs" "$T/src/"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
hacspec = { path = "$R/hacspec" }
secret_integers = { path = "$R/secret-integers" }
abstract_integers = { path = "$R/abstract-integers" }
hacspec-examples = { path = "$R/spec-examples" }
num = "0.2"
[profile.dev]
debug = false
incremental = false
X
cd "$T" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo run -q --offline 2>"$T/err"; rc=$?
grep -v '^warning' "$T/err" | tail -20
exit $rc
