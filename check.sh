#!/bin/bash
# check.sh ID: build the harness against /repo's current tree and run one check.
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
export CARGO_TARGET_DIR="$VERIF/target" CARGO_NET_OFFLINE=true FUSER_PBT_ROOT="$VERIF"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
# C29 gives programs to the compiler; it must have an answer even if the other harness, a client
# of the library itself, is one that does not compile any more
case "$1" in C29) crate=types name=fuser-types ;; *) crate=harness name=fuser-pbt ;; esac
exec 9>"$VERIF/.build.lock"
flock 9
log=$(mktemp)
# file times of /repo may be older than the last build: never trust them
( cd "$crate" && cargo clean -q -p html5-fuser --release --offline && \
  cargo build -q --release --offline ) >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  tail -40 "$log"; rm -f "$log"
  echo "ERROR: the harness does not build"; exit 2
fi
rm -f "$log"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/fuser-pbt-XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
bin="$scratch/fuser-pbt"
cp "target/release/$name" "$bin" && chmod +x "$bin"
# there is only one, as it was just built afresh
cp target/release/deps/libhtml5_fuser-*.rlib "$scratch/libhtml5_fuser.rlib" || exit 2
export FUSER_PBT_RLIB="$scratch/libhtml5_fuser.rlib" FUSER_PBT_SCRATCH="$scratch"
flock -u 9
exec 9>&-
ulimit -v 20000000
ulimit -c 0
"$bin" check "$1"
