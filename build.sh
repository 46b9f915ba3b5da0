#!/bin/bash
# build.sh [native|tsan|miri|all]: builds the harness against the current tree of /repo. Serialised
# by a lock; cargo decides by mtime, so the packages under test are cleaned whenever the contents of
# /repo changed.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
what=${1:-native}
if [ "$what" = all ]; then
  for w in native tsan miri; do "$ROOT/build.sh" $w || exit 2; done
  exit 0
fi
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS MIRIFLAGS
target=()
case $what in
native)
  export RUSTUP_TOOLCHAIN=${VH_TOOLCHAIN:-1.97.1-x86_64-unknown-linux-gnu}
  export CARGO_TARGET_DIR=$ROOT/target
  dir=harness pkgs="stream-download stream-download-opendal vh" cmd=(cargo build --offline) ;;
tsan)
  export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$ROOT/target/tsan
  export RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
  dir=harness pkgs="stream-download stream-download-opendal vh"
  target=(--target x86_64-unknown-linux-gnu)
  cmd=(cargo build --offline -Zbuild-std "${target[@]}") ;;
miri)
  export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$ROOT/target/miri MIRI_SYSROOT=$ROOT/target/miri-sysroot
  dir=miri pkgs="stream-download vm"
  # a run which does nothing compiles everything
  cmd=(env VM_NOTHING=1 MIRIFLAGS=-Zmiri-env-forward=VM_NOTHING cargo miri run --offline --quiet) ;;
*) echo "unknown build $what"; exit 2 ;;
esac
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/out" "$ROOT/evidence"
exec 9>"$CARGO_TARGET_DIR/.vh-lock"
flock 9
now=$( (cd /repo && find Cargo.toml Cargo.lock crates -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; echo "$RUSTUP_TOOLCHAIN") | sha256sum | cut -d' ' -f1)
stamp=$CARGO_TARGET_DIR/.vh-stamp
cd "$ROOT/$dir" || exit 2
log=$CARGO_TARGET_DIR/.vh-build.log
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  rm -f "$stamp"
  for p in $pkgs; do
    cargo clean --offline "${target[@]}" -p "$p" >/dev/null 2>&1
  done
fi
if [ $what = miri ] && [ ! -d "$MIRI_SYSROOT/lib" ] && ! cargo miri setup >"$log" 2>&1; then
  tail -40 "$log"
  echo "error: no library for Miri"
  exit 2
fi
if ! "${cmd[@]}" >"$log" 2>&1; then
  tail -40 "$log"
  echo "error: the harness does not build against /repo ($what)"
  exit 2
fi
echo "$now" >"$stamp"
