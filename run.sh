#!/bin/bash
# run.sh <property> quick|thorough: rebuild the harness against /repo's working tree, then run one check.
# run.sh setup: only build.
set -u
cd "$(dirname "$0")" || exit 2
VERIF="$PWD"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$VERIF/target" VH_VERIF="$VERIF"
mkdir -p "$VERIF/target" "$VERIF/evidence" "$VERIF/replays"
build() {
  (
    flock 9
    # recompile the crate under test whatever the modification times say
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/nodejs-resolver-*
    cd "$VERIF/harness" && cargo build --release --offline >"$VERIF/target/build.log" 2>&1
  ) 9>"$VERIF/target/.lock"
}
if ! build; then
  tail -40 "$VERIF/target/build.log" >&2
  echo "check error: the harness does not build against /repo" >&2
  exit 2
fi
[ "${1:-}" = setup ] && exit 0
exec "$VERIF/target/release/vh" run "$1" "${2:-${VERIF_TIER:-quick}}"
