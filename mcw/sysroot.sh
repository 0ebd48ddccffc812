#!/bin/bash
# Standard libraries of the machines the converter is run on, into $1: the
# real one for WebAssembly, the ones the interpreter needs for the others.
out=$1
mkdir -p "$out/empty/src" || exit 3
cd "$out/empty" || exit 3
printf '[package]\nname = "empty"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n' >Cargo.toml
: >src/lib.rs
lib=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library
wasm() {
  [ -f "$out/wasm/done" ] && return 0
  CARGO_TARGET_DIR="$out/build-std" cargo +nightly build --offline -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --release \
    --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$lib/vendor\"" || return 3
  to="$out/wasm/lib/rustlib/wasm32-unknown-unknown/lib"
  mkdir -p "$to"
  find "$out/build-std" -path '*wasm32*' \( -name 'lib*.rlib' -o -name 'lib*.rmeta' \) -not -name 'libempty*' -exec cp {} "$to/" \; || return 3
  rm -rf "$out/build-std"
  touch "$out/wasm/done"
}
interpreted() {
  [ -f "$out/$1/done" ] && return 0
  MIRI_SYSROOT="$out/$1" cargo +nightly miri setup --target "$1" && touch "$out/$1/done"
}
wasm >"$out/wasm.log" 2>&1 & a=$!
interpreted s390x-unknown-linux-gnu >"$out/s390x.log" 2>&1 & b=$!
interpreted powerpc-unknown-linux-gnu >"$out/powerpc.log" 2>&1 & c=$!
r=0
wait $a || { cat "$out/wasm.log"; r=3; }
wait $b || { cat "$out/s390x.log"; r=3; }
wait $c || { cat "$out/powerpc.log"; r=3; }
exit $r
