#!/bin/bash
# Exit 0: the library behaves as the property says.  Run with cwd = the library's tree.
here=$(cd "$(dirname "$0")" && pwd)
lib=$(pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_RESOLVER_LOCKFILE_PATH
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo/." "$work/" || exit 3
sed -i "s|@REPO@|$lib|" "$work/Cargo.toml"
cd "$work" || exit 3
if ! cargo build --offline --quiet 2>"$work/build.log"; then
    cat "$work/build.log"
    exit 3
fi
timeout 120 ./target/debug/conformance
