#!/bin/bash
# run.sh ID [quick|thorough] | run.sh build | run.sh replay FILE
# Rebuilds the model checker against /repo's working tree, then explores the property.
here="$(cd "$(dirname "$0")" && pwd)"
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$here/mc" || exit 2
export MC_HOME="$here" CARGO_TARGET_DIR="$here/mc/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log="$(mktemp)"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  cat "$log"
  rm -f "$log"
  echo "ERROR: the model checker does not build against /repo"
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
if [ "$1" = replay ]; then
  exec "$CARGO_TARGET_DIR/release/mc" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/mc" run "$1" "${2:-${VERIF_TIER:-quick}}"
