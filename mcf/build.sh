#!/bin/bash
# Builds mcf with every set of optional features into $1. Prints the sets for
# which only the converter itself does not compile.
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out" || exit 3
export CARGO_TARGET_DIR="$out/build"
cd "$here" || exit 3
cargo clean --offline --release -p lunify -p mcf >/dev/null 2>&1
rm -f "$out"/mcf-none* "$out"/mcf-debug* "$out"/mcf-serde*
for f in none debug serde debug,serde; do
  a=(--features "$f"); [ "$f" = none ] && a=()
  if cargo build --release --offline "${a[@]}" >"$out/build-$f.log" 2>&1; then
    cp "$out/build/release/mcf" "$out/mcf-$f" || exit 3
  elif [ "$f" != none ] && grep -q 'could not compile `lunify`' "$out/build-$f.log"; then
    echo "the converter does not compile with features $f" >"$out/mcf-$f.broken"
  else
    cat "$out/build-$f.log"; exit 3
  fi
done
exit 0
