#!/bin/sh
# usage: check.sh <property> <quick|thorough>
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V"
bin="$V/.build/release/vh"
if ! out=$("$V/build.sh" vh 2>&1); then
    # perhaps only other checks do not build
    case "$1" in C13 | C14 | C23) f=robust ;; *) f=c${1#C} ;; esac
    "$V/build.sh" one "$f" || exit 2
    bin="$V/.build/one/release/vh"
fi
[ "$1" != C17 ] || "$V/build.sh" tsan || exit 2
exec "$bin" "$1" "$2"
