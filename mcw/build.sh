#!/bin/bash
# Builds the converter for other machines into $1.
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out" || exit 3
bash "$here/sysroot.sh" "$out" || exit 3
rm -f "$out"/*.wasm "$out"/*.broken
export CARGO_TARGET_DIR="$out/build"
cd "$here" || exit 3
rm -rf "$out/build"
for p in release checked; do
  if RUSTFLAGS="--sysroot $out/wasm" cargo +nightly build --offline --target wasm32-unknown-unknown --profile "$p" >"$out/build-$p.log" 2>&1; then
    cp "$out/build/wasm32-unknown-unknown/$p/mcw.wasm" "$out/$p.wasm" || exit 3
  elif grep -q 'could not compile `lunify`' "$out/build-$p.log"; then
    echo "the converter does not compile for a machine with 32 bit pointers" >"$out/$p.broken"
  else
    cat "$out/build-$p.log"; exit 3
  fi
done
# Build for the interpreter now, so that the workers need not.
cd "$here/../mcf" || exit 3
for t in s390x powerpc; do
  if MIRI_SYSROOT="$out/$t-unknown-linux-gnu" CARGO_TARGET_DIR="$out/build-$t" MIRIFLAGS="-Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-isolation" cargo +nightly miri run --offline --target "$t-unknown-linux-gnu" </dev/null >"$out/build-$t.log" 2>&1; then
    :
  elif grep -q 'could not compile `lunify`' "$out/build-$t.log"; then
    echo "the converter does not compile for a big-endian machine" >"$out/$t.broken"
  else
    cat "$out/build-$t.log"; exit 3
  fi
done
exit 0
