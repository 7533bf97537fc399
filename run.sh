#!/bin/bash
# ./run.sh <property> <quick|thorough> [--replay 'space#index']
# Rebuilds the explorer against /repo's current working tree and runs one check.
# Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
# Anything else: error of the check itself.
cd "$(dirname "$0")" || exit 2
V=$PWD
REPO=${MC_REPO:-/repo}
export RUSTUP_TOOLCHAIN=${MC_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export CARGO_TARGET_DIR=$V/harness/target
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence" "$V/replays"
stamp=$(cd "$REPO" && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
build() {
  local old; old=$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)
  # cargo looks at times, not contents: drop the crate whenever its contents changed
  [ "$old" = "$stamp" ] || cargo clean --offline --release --manifest-path "$V/harness/Cargo.toml" -p stun_codec >/dev/null 2>&1
  cargo build --offline --locked --release --manifest-path "$V/harness/Cargo.toml" > "$CARGO_TARGET_DIR/build.log" 2>&1 || return 1
  echo "$stamp" > "$CARGO_TARGET_DIR/repo.stamp"
}
(
  flock 9
  build
) 9> "$CARGO_TARGET_DIR/lock" || { tail -40 "$CARGO_TARGET_DIR/build.log"; echo "the explorer does not build against $REPO"; exit 2; }
[ "$1" = --build ] && exit 0
export MC_VERIF=$V
tier=${2:-quick}
export VERIF_TIER=$tier
ulimit -v 28000000
rm -f "$V/replays/$1"-*.json
"$CARGO_TARGET_DIR/release/mc" "$1" "$tier" "${@:3}"
rc=$?
case $rc in
  132|134|135|139) # killed by a signal its handler did not survive; the handler's file, if any, stays
    r=$V/replays/$1-abort.json
    [ -s "$r" ] || echo "{\"property\":\"$1\",\"sig\":\"abort\",\"detail\":\"the explorer died with status $rc while running the code under test\",\"rerun\":\"./run.sh $1 $tier\"}" > "$r"
    echo "VIOLATION property=$1 replay=$r"
    rc=1;;
esac
exit $rc
