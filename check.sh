#!/bin/bash
# check.sh <property id> [quick|thorough]   build the simulator against /repo's working tree, run one check.
# check.sh build                            build only.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_TARGET_DIR=$ROOT/target SIM_ROOT=$ROOT
unset CARGO_ENCODED_RUSTFLAGS
# guarded hooks in /repo
export RUSTFLAGS="--cfg webparse_sim"
mkdir -p target
build() {
  # cargo decides by mtime; make it decide by content
  local h
  h=$(cd /repo && find Cargo.toml build.rs src -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
  if [ "$h" != "$(cat target/repo.hash 2>/dev/null)" ]; then
    rm -f "$ROOT/target/repo.hash"
    cargo clean --offline --manifest-path sim/Cargo.toml -p webparse >/dev/null 2>&1
  fi
  if ! cargo build --offline --manifest-path sim/Cargo.toml >target/build.log 2>&1; then
    grep -A12 "^error" target/build.log >&2
    echo "build failed" >&2
    return 1
  fi
  echo "$h" >target/repo.hash
}
(
  flock 9
  build
) 9>target/lock || exit 2
[ "$1" = build ] && exit 0
exec target/debug/webparse-sim run "$1" ${2:+"$2"}
