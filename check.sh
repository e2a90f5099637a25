#!/bin/bash
# usage: check.sh ID quick|thorough -- builds the checker against /repo's working tree and runs it
ID=$1; TIER=${2:-quick}
cd /verif || exit 2
if [ -z "$HOME" ]; then export HOME=/root; fi
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
case $ID in
  C04|C06|C07|C08|C13|C18) BIN=vshipped;;
  C10) BIN=vhook; export RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR=/verif/target/hooked;;
  *) BIN=vcore;;
esac
mkdir -p evidence replay
LOG=$(mktemp)
if ! (cd harness && cargo build --offline -p $BIN >"$LOG" 2>&1); then
  tail -60 "$LOG"; rm -f "$LOG"; echo "check $ID: build failed"; exit 2
fi
if [ $ID = C04 ]; then
  # the libraries the generated sources are compiled against
  eval "$(cd harness && cargo build --offline -p $BIN --message-format=json 2>/dev/null | python3 /verif/rlibs.py)"
  export VERIF_DOODLE_RLIB VERIF_LOG_RLIB VERIF_C04_DIR=/verif/scratch/c04
fi
rm -f "$LOG"
rm -rf "/verif/replay/$ID"
${CARGO_TARGET_DIR:-/verif/target}/debug/$BIN "$ID" "$TIER"
rc=$?
if [ $rc -gt 127 ]; then
  # the code under test brought the process down (abort, stack overflow, out of memory)
  mkdir -p "replay/$ID"
  { echo "checker process ended with status $rc (code under test crashed)"; cat /verif/scratch/$ID.*.case 2>/dev/null; } > "replay/$ID/crash.txt"
  echo "VIOLATION property=$ID replay=/verif/replay/$ID/crash.txt"
  exit 1
fi
exit $rc
