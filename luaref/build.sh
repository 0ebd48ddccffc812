#!/bin/bash
# Builds the stock Lua 5.1.5 variants into $1: one per flush size and number type.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
stamp=$(cat "$here"/driver.c "$here"/shim.h "$here"/build.sh "$here"/lua-5.1.5/* | sha256sum | cut -d' ' -f1)
[ "$(cat "$out/stamp" 2>/dev/null)" = "$stamp" ] && exit 0
variant() { # name flush numtype fmt
  d=$(mktemp -d)
  cp "$here"/lua-5.1.5/* "$d"/
  sed -i "s/^#define LFIELDS_PER_FLUSH.*/#define LFIELDS_PER_FLUSH $2/" "$d/lopcodes.h"
  if [ "$3" != double ]; then
    sed -i "s/^#define LUA_NUMBER_DOUBLE.*//; s/^#define LUA_NUMBER	double/#define LUA_NUMBER $3/; s/^#define LUA_NUMBER_FMT.*/#define LUA_NUMBER_FMT \"$4\"/" "$d/luaconf.h"
  fi
  gcc -O1 -w -include "$here/shim.h" -I"$d" -o "$out/luaref-$1" "$here/driver.c" "$d"/*.c -lm
  rm -rf "$d"
}
for f in 1 2 3 4 5 6 7 8 9 32 50; do variant "$f" $f double x & done
wait
variant f32 50 float %.14g &
variant i32 50 int %d &
variant i64 50 long %ld &
wait
for v in 1 2 3 4 5 6 7 8 9 32 50 f32 i32 i64; do [ -x "$out/luaref-$v" ]; done
echo "$stamp" > "$out/stamp"
