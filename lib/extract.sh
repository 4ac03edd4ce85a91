#!/bin/bash
# extract.sh OUT.jsonl : type-check /repo's library with the driver and dump its MIR.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1
repo=${RAWDIO_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
build=$here/build
mkdir -p "$build"
exec 9>"$build/lock"
flock 9
drv=$build/driver/release/mirdump
if [ ! -x "$drv" ] || [ "$here/driver/src/main.rs" -nt "$drv" ]; then
  (cd "$here/driver" && cargo build --release --offline --target-dir "$build/driver") >"$build/driver.log" 2>&1 || { cat "$build/driver.log"; exit 3; }
fi
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export MIRDUMP_CRATE=rawdio MIRDUMP_OUT=$out
export RUSTC_WORKSPACE_WRAPPER=$drv
export RUSTFLAGS="-Zalways-encode-mir -Zinline-mir=no"
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false
rm -f "$out"
rm -rf "$build"/target/debug/.fingerprint/rawdio-* "$build"/target/debug/build/rawdio
(cd "$repo" && cargo check --offline --lib --locked --target-dir "$build/target") >"$build/check.log" 2>&1
rc=$?
if [ $rc -ne 0 ] || [ ! -s "$out" ]; then cat "$build/check.log"; exit 4; fi
exit 0
