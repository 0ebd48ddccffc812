#!/bin/bash
# Builds the stock Lua variants and the model checker from /repo's working tree.
# Anything that fails here ends with 3: neither "held" nor "broken".
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/target" || exit 3
exec 9>"$here/target/.build-lock"
flock 9 || exit 3
bash "$here/luaref/build.sh" "$here/target/luaref" >"$here/target/luaref.log" 2>&1 || { cat "$here/target/luaref.log"; exit 3; }
# Time stamps do not tell whether /repo changed (it may have been restored or
# replaced): rebuild whenever the content differs from what was built last.
sum=$({ cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$here" && find mc model -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$here/target/.built" 2>/dev/null)" != "$sum" ] || [ ! -x "$here/target/release/mc" ]; then
  rm -f "$here/target/.built"
  cd "$here/mc" || exit 3
  cargo clean --offline --release -p lunify -p mc -p model >/dev/null 2>&1
  cargo build --release --offline >"$here/target/build.log" 2>&1 || { cat "$here/target/build.log"; exit 3; }
  echo "$sum" >"$here/target/.built"
fi
# The builds with optional features, for the check that needs them.
if [ "$1" = features ]; then
  fsum=$({ echo "$sum"; cd "$here" && find mcf -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$here/target/mcf/.built" 2>/dev/null)" != "$fsum" ]; then
    rm -f "$here/target/mcf/.built"
    bash "$here/mcf/build.sh" "$here/target/mcf" || exit 3
    echo "$fsum" >"$here/target/mcf/.built"
  fi
fi
# The builds for other machines, for the check that needs them.
if [ "$1" = hosts ]; then
  hsum=$({ echo "$sum"; cd "$here" && find mcf mcw -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$here/target/hosts/.built" 2>/dev/null)" != "$hsum" ]; then
    rm -f "$here/target/hosts/.built"
    bash "$here/mcw/build.sh" "$here/target/hosts" || exit 3
    echo "$hsum" >"$here/target/hosts/.built"
  fi
fi
exit 0
