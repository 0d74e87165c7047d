#!/bin/bash
# check.sh ID: build what the check of one property needs against /repo's working tree, and run it.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never AFV_VERIF="$PWD"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET MIRIFLAGS
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT

# variants of ../lite built at the same time; AFV_<VARIANT> is the path of the program
variants=""
case "$1" in
C15) variants="asan msan tsan miri64 miri32" ;;
C17) variants="tsan" ;;
C19) variants="i686" ;;
C21) variants="base opt nostd portable" ;;
esac
for v in $variants; do
  ( lite/build.sh "$v" >"$tmp/$v" 2>&1; echo $? >"$tmp/$v.rc" ) &
done
if ! (cd harness && cargo build --offline --locked) >"$tmp/log" 2>&1; then
  echo "the harness does not build"; grep -E "^error" -A6 "$tmp/log" | cut -c1-300 | head -40
  wait; exit 2
fi
wait
for v in $variants; do
  if [ "$(cat "$tmp/$v.rc")" != 0 ]; then
    # a configuration which does not compile though the usual one does is an observation of C21
    if [ "$1" = C21 ] && [ "$v" != base ] && grep -q "^error" "$tmp/$v"; then
      export "AFV_${v^^}=FAILED:$tmp/$v"; continue
    fi
    cat "$tmp/$v"; exit 2
  fi
  export "AFV_${v^^}=$(tail -1 "$tmp/$v")"
done
export AFV_LITE="$PWD/lite"
[ "$1" = C15 ] && export XDG_CACHE_HOME="$PWD/lite/target/cache"
harness/target/debug/afv check "$1"
