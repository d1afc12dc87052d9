#!/bin/bash
# builds demo.rs against the library of the current directory and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
cargo build --offline --lib -q 2>/dev/null || exit 3
lib=$PWD/target/debug
d=$(mktemp -d) || exit 3
trap 'rm -r "$d"' EXIT
build() { rustc --edition 2021 -A warnings -o "$d/demo" "$here/demo.rs" --extern starry="$lib/libstarry.rlib" -L dependency="$lib/deps" "$@"; }
if grep -q 'log::LevelFilter' "$here/demo.rs"; then
  # the log crate may have been built more than once: only the one the library uses fits
  for l in "$lib"/deps/liblog-*.rlib; do build --extern log="$l" 2>/dev/null && break; done
  [ -x "$d/demo" ] || exit 3
else
  build || exit 3
fi
cd "$d" && timeout -k 5 120 ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
