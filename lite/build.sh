#!/bin/bash
# build.sh i686|asan|msan|tsan|miri64|miri32|base|opt|nostd|portable: build the program against /repo's working tree; the last line is its path.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T="$PWD/target/$1"
host=x86_64-unknown-linux-gnu
case "$1" in
i686)
  L="$T/lib32"; mkdir -p "$L" || exit 2
  for l in c:6 m:6 pthread:0 rt:1 dl:2 util:1 gcc_s:1; do
    n=${l%%:*} v=${l##*:} f=""
    for d in /lib32 /usr/lib32 /lib/i386-linux-gnu /usr/lib/i386-linux-gnu; do
      [ -e "$d/lib$n.so.$v" ] && f="$d/lib$n.so.$v" && break
    done
    [ -n "$f" ] && ln -sfn "$f" "$L/lib$n.so"
  done
  t=i686-unknown-linux-gnu
  # the C start files for 32 bits are not installed: the program has its own entry point
  flags="--cfg bare32 -C link-arg=-nostartfiles -C link-arg=-L$L -C relocation-model=static -C link-arg=-no-pie"
  opt="-Zbuild-std" ;;
asan) t=$host; flags="-Zsanitizer=address -Cforce-frame-pointers=yes"; opt="" ;;
msan) t=$host; flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins"; opt="-Zbuild-std" ;;
miri64 | miri32)
  # builds the interpreter's library and the program, and runs nothing
  export XDG_CACHE_HOME="$PWD/target/cache" MIRIFLAGS="-Zmiri-disable-isolation"
  [ "$1" = miri32 ] && t="--target i686-unknown-linux-gnu" || t=""
  log=$(mktemp)
  mkdir -p target/cache
  # one at a time: both use the same folders
  if ! flock target/cache/lock cargo +nightly miri run --offline --locked --target-dir target/miri $t -- stress 1 0 3 >"$log" 2>&1; then
    echo "lite ($1) does not run"; grep -E "^error" -A8 "$log" | cut -c1-300 | head -40
    rm -f "$log"; exit 2
  fi
  rm -f "$log"; echo "$1"; exit 0 ;;
tsan) t=$host; flags="-Zsanitizer=thread"; opt="-Zbuild-std" ;;
base | opt | nostd | portable)
  # the configurations of the library, by the stable compiler
  set -- "$1"
  case "$1" in
  opt) more="--release" ;;
  nostd) more="--no-default-features" ;;
  portable)
    # the library as on a processor which is not x86: the processor's name in conditions is changed
    mkdir -p "$T/copy" || exit 2
    rm -rf "$T/copy/astro-float-num"
    mkdir "$T/copy/astro-float-num" && cp -a /repo/astro-float-num/Cargo.toml /repo/astro-float-num/src "$T/copy/astro-float-num/" || exit 2
    find "$T/copy/astro-float-num/src" -name '*.rs' -exec sed -i -E 's/target_arch *= *"x86_64"/target_arch = "none"/g' {} +
    more="--config paths=[\"$T/copy/astro-float-num\"]" ;;
  *) more="" ;;
  esac
  log=$(mktemp)
  if ! cargo build --offline --locked $more --target-dir "$T" >"$log" 2>&1; then
    echo "lite ($1) does not build"; grep -E "^error" -A8 "$log" | cut -c1-300 | head -40
    rm -f "$log"; exit 2
  fi
  rm -f "$log"
  [ "$1" = opt ] && echo "$T/release/lite" || echo "$T/debug/lite"
  exit 0 ;;
*) echo "unknown variant $1"; exit 2 ;;
esac
log=$(mktemp)
if ! RUSTFLAGS="$flags" cargo +nightly build --offline --locked $opt --target "$t" --target-dir "$T" >"$log" 2>&1; then
  echo "lite ($1) does not build"; grep -E "^error" -A8 "$log" | cut -c1-300 | head -40
  rm -f "$log"; exit 2
fi
rm -f "$log"
echo "$T/$t/debug/lite"
