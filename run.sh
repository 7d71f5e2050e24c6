#!/bin/bash
# usage: run.sh <binary> <property> <tier>
# Rebuilds the harness against /repo's current working tree and runs one check.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target"
bin="$1"; prop="$2"; tier="${3:-quick}"
cd "$here/harness" || exit 4
mkdir -p "$here/out"
if ! cargo build --offline --locked --quiet --bin "$bin" 2> "$here/out/build-$prop.log"; then
  cat "$here/out/build-$prop.log" >&2
  echo "BUILD FAILED (harness against /repo)" >&2
  exit 4
fi
if [ "$tier" = thorough ] && [ "$bin" != features ] && [ "$bin" != compile ]; then
  # as the library is used in a release: the quick exploration without debug assertions and overflow checks
  if ! cargo build --offline --locked --quiet --release --bin "$bin" 2> "$here/out/build-$prop.log"; then
    cat "$here/out/build-$prop.log" >&2
    exit 4
  fi
  MC_RELEASE_PASS=1 "$CARGO_TARGET_DIR/release/$bin" "$prop" --tier=quick || exit $?
  export MC_AFTER_RELEASE_PASS=1
fi
"$CARGO_TARGET_DIR/debug/$bin" "$prop" "--tier=$tier"
code=$?
if [ $code = 134 ] || [ $code = 139 ]; then
  # the harness is safe code: only runaway recursion or an abort inside the library ends it this way
  echo "the library ended the process (status $code) while $bin explored $prop; run $0 $* to see it again" > "$here/out/$prop.replay.txt"
  echo "VIOLATION property=$prop replay=$here/out/$prop.replay.txt"
  exit 1
fi
exit $code
