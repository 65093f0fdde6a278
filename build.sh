#!/bin/sh
# Builds the harness from /repo's current working tree. What: vh | tsan | all | one <feature>
# 'one' is for a crate against which the whole harness does not build: only one check, if
# necessary without the guarded hook
set -e
cd "$(dirname "$0")"
V=$PWD
B=$V/.build
mkdir -p "$B"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS

srchash() {
    {
        find /repo/anothertls -type f \( -name '*.rs' -o -name 'Cargo.*' \) -not -path '*/target/*' -print0
        find /repo -maxdepth 1 -name 'Cargo.*' -print0
        find "$V/$1" -type f \( -name '*.rs' -o -name 'Cargo.*' \) -not -path '*/target/*' -print0
    } | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1
}
one() {
    # name, crate, target directory, command
    name=$1; crate=$2; tgt=$3; shift 3
    h="$(srchash "$crate")"
    if [ "$(cat "$B/$name.stamp" 2>/dev/null)" = "$h" ]; then return 0; fi
    rm -f "$B/$name.stamp"
    # never trust modification times
    find "$tgt" -type d -path '*.fingerprint/*' \( -name 'anothertls-*' -o -name 'vh-*' -o -name 'vt-*' \) -prune -exec rm -rf {} + 2>/dev/null || true
    (cd "$crate" && CARGO_TARGET_DIR="$tgt" "$@" >"$B/$name.log" 2>&1) || return 1
    echo "$h" >"$B/$name.stamp"
}
san() {
    # with a sanitizer, the standard library too
    RUSTFLAGS="-Zsanitizer=$1" one "vt-$1" harness-tsan "$B/vt-$1" \
        cargo +nightly build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu
}
failed() {
    tail -60 "$B/$1.log"
    echo "ERROR: the harness does not build against /repo"
    exit 2
}
exec 9>"$B/lock"
flock 9
case "${1:-all}" in vh | all) RUSTFLAGS="--cfg anothertls_verif" one vh harness "$B" cargo build --release --offline || failed vh ;; esac
case "${1:-all}" in tsan | all)
    san thread || failed vt-thread
    san address || failed vt-address
    ;;
one)
    f=$2
    rm -f "$B"/one-*.stamp
    set -- harness "$B/one" cargo build --release --offline --no-default-features --features "$2"
    RUSTFLAGS="--cfg anothertls_verif" one "one-$f" "$@" ||
        RUSTFLAGS="" one "one-$f-nohook" "$@" || failed "one-$f-nohook"
    ;;
esac
