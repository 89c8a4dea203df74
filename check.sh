#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh ID replay FILE
# Builds the harness from /repo's working tree (build overlay) and runs one property.
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
ID="$1"; MODE="${2:-${VERIF_TIER:-quick}}"
. /opt/vp/env.sh >/dev/null 2>&1
W=$(mktemp -d /tmp/verifmc.XXXXXX)
trap 'rm -rf "$W"' EXIT
export VERIF_WORK="$W"
# For harnesses built with the race detector.
export GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
python3 "$VERIF_DIR/mc/build.py" "$ID" "$W" >"$W/build.log" 2>&1
if [ $? -ne 0 ]; then
  echo "BUILD-ERROR: the harness or /repo does not build"; tail -40 "$W/build.log"; exit 2
fi
case "$MODE" in
  replay) "$W/mc" -prop "$ID" -replay "$3" ;;
  *) "$W/mc" -prop "$ID" -tier "$MODE" ;;
esac
exit $?
