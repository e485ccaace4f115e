#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's current working tree.
set -u
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -n "${2:-}" ] && export VERIF_TIER="$2"
export VERIF_DIR="$PWD"
BIN="$PWD/bin/verifengine"
if [ ! -x "$BIN" ] || [ -n "$(find engine -name '*.go' -newer "$BIN" -print -quit)" ]; then
  bash setup.sh >/dev/null || { echo "cannot build the engine" >&2; exit 2; }
fi
exec "$BIN" check "$1" "${VERIF_TIER:-quick}"
