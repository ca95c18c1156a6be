#!/bin/bash
# run.sh ID [tier]: build the checker (if needed) and decide property ID on /repo's current source.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
B="$V/.build/chk"
if [ ! -x "$B" ] || [ -n "$(find "$V/checker" -newer "$B" -type f | head -1)" ]; then
	bash "$V/setup.sh" || { echo "checker does not build"; exit 3; }
fi
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_OUT="$V"
exec "$B" check "$1"
