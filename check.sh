#!/bin/bash
# check.sh <property> <quick|thorough> [--only KEY]   run one check
# check.sh build                                      build every harness
# Rebuilds what it needs from /repo's working tree; exit 0 held, 1 violation
# (a violation too: the code under test brings the process down), anything else: the check itself could not run.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
export RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_ROOT/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

pkg_of() {
  case "$1" in
    C0[1-5]) echo h-core ;;
    C0[6-9]) echo h-dif ;;
    C1[01]) echo h-macros ;;
    C1[2-8]) echo h-wire ;;
    C2?|C3[0-2]) echo h-issuer ;;
    C4?) echo h-verifier ;;
    C5?) echo h-holder ;;
    *) echo "" ;;
  esac
}

build() { # build <package>
  local log
  log=$(mktemp)
  if ! (cd shadow && cargo build --offline --locked -q -p "$1") >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "build of $1 failed" >&2
    exit 2
  fi
  rm -f "$log"
}

if [ "${1:-}" = build ]; then
  (cd shadow && cargo build --offline --locked --workspace) || exit 2
  exit 0
fi
id="${1:?property}"; tier="${2:-quick}"; shift 2
pkg=$(pkg_of "$id")
[ -n "$pkg" ] || { echo "unknown property $id" >&2; exit 2; }
build "$pkg"
mkdir -p evidence
err=$(mktemp)
timeout -k 5 "${VERIF_TIMEOUT:-3000}" "target/debug/$pkg" "$id" "$tier" "$@" 2> >(tee "$err" >&2)
rc=$?
case $rc in
  132|134|135|136|139)
    # the code under test brought the process down (stack overflow, abort)
    mkdir -p evidence/replay
    { echo "check.sh $id $tier $* ended with status $rc"; tail -c 2000 "$err"; } >"evidence/replay/$id-abort.txt"
    echo "VIOLATION property=$id replay=$VERIF_ROOT/evidence/replay/$id-abort.txt"
    rc=1 ;;
esac
rm -f "$err"
exit $rc
