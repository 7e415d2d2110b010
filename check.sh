#!/bin/bash
# ./check.sh ID              run the check of one property (VERIF_SEED, VERIF_TIER)
# ./check.sh replay ID SEED THOROUGH(0|1) CASE   run one case again
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export OVERMON_ROOT=$ROOT CARGO_NET_OFFLINE=true
unset RUSTFLAGS MIRIFLAGS
T=$ROOT/target
TRIPLE=x86_64-unknown-linux-gnu
mkdir -p "$T"
build() { # target-dir-name, cargo args...
  local dir=$1; shift
  CARGO_TARGET_DIR=$T/$dir cargo "$@" >"$T/$dir.log" 2>&1 || {
    echo "build failed ($dir):" >&2; tail -n 30 "$T/$dir.log" >&2; exit 2; }
}
main() { build main build --offline --locked --manifest-path harness/Cargo.toml; }
# The library without optimisation, as its users' debug builds have it: recursion then takes most stack.
plain() { build plain build --offline --locked --manifest-path harness/Cargo.toml --config profile.dev.package.over.opt-level=0; }
sanitized() { # name, extra cargo args...
  local name=$1; shift
  RUSTFLAGS=-Zsanitizer=$name build "$name" +nightly build --offline --locked --no-default-features \
    --manifest-path harness/Cargo.toml --target $TRIPLE "$@"
}
miri() { (cd harness && build miri +nightly miri run --offline --locked --no-default-features -- special miri nothing); }
first=main; id=$1
[ "$1" = replay ] && id=$2
case $id in C01 | C24) first=plain ;; esac
BIN=$T/$first/debug/overmon
if [ "$1" = replay ]; then shift; $first; exec "$BIN" replay "$@"; fi
builds=($first)
case $1 in
  C20) builds+=("sanitized thread -Zbuild-std" miri)
       export OVERMON_TSAN=$T/thread/$TRIPLE/debug/overmon OVERMON_MIRI=$ROOT/harness OVERMON_MIRI_TARGET=$T/miri ;;
  C21) builds+=("sanitized address" miri)
       export OVERMON_ASAN=$T/address/$TRIPLE/debug/overmon OVERMON_MIRI=$ROOT/harness OVERMON_MIRI_TARGET=$T/miri
       if [ "$VERIF_TIER" = thorough ]; then
         builds+=("sanitized memory -Zbuild-std"); export OVERMON_MSAN=$T/memory/$TRIPLE/debug/overmon
       fi ;;
esac
pids=()
for b in "${builds[@]}"; do $b & pids+=($!); done
for p in "${pids[@]}"; do wait "$p" || exit 2; done
exec "$BIN" check "$1"
