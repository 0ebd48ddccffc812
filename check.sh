#!/bin/bash
# check.sh <property> [--thorough]
here=$(cd "$(dirname "$0")" && pwd)
case "$1" in C25) extra=features ;; C26) extra=hosts ;; *) extra= ;; esac
bash "$here/build.sh" $extra || exit 3
exec "$here/target/release/mc" "$@"
