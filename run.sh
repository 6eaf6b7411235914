#!/bin/bash
# run.sh <property> [quick|thorough]: rebuild from /repo's working tree, run the monitor.
# exit 0 held, 1 violated (VIOLATION line), anything else: error / inconclusive.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
. /verif/env.sh
case "$ID" in
  C01|C02|C03|C04|C05|C06) PKG=vmchk ;;
  C07|C08) PKG=txchk ;;
  C13|C14|C15) PKG=curvechk ;;
  C19|C20|C21|C22) PKG=gadgetchk ;;
  C09|C10|C11|C12|C16|C17|C18|C23) PKG=plonkchk ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
EXTRA=; [ "$PKG" = txchk ] && EXTRA=prover_bin
/verif/tools/build.sh "$PKG" $EXTRA || { echo "build failed" >&2; exit 2; }
mkdir -p /verif/evidence /verif/replays
export VERIF_SEED=${VERIF_SEED:-1}
[ -e "$CARGO_TARGET_DIR/.nohooks" ] && { NOHOOKS=1; . /verif/env.sh; }
case "$PKG" in
  *) exec "$CARGO_TARGET_DIR/release/$PKG" "$ID" "$TIER" ;;
esac
