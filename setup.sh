#!/bin/bash
# Warms the Go build cache; checks build on their own as well.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)" VERIF_REPO="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh >/dev/null 2>&1
W=$(mktemp -d /tmp/verifmc.XXXXXX); trap 'rm -rf "$W"' EXIT
for p in all; do python3 "$VERIF_DIR/mc/build.py" $p "$W" || exit 1; done
mkdir -p "$VERIF_DIR/evidence"
