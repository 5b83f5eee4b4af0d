#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra mc options]
# Builds the library from /repo's working tree and runs one check on it.
V=$(cd "$(dirname "$0")" && pwd); P=$1; T=${2:-${VERIF_TIER:-quick}}; [ $# -ge 2 ] && shift; shift
VAR=plain; [ "$P" = C08 ] && VAR=asan
LOG=$(mktemp); if ! bash "$V/build.sh" $VAR >"$LOG" 2>&1; then cat "$LOG"; rm -f "$LOG"; echo "build failed"; exit 2; fi; rm -f "$LOG"
B=$V/build/$VAR; [ "${REPO:-/repo}" = /repo ] || B=$B-$(echo "$REPO" | md5sum | cut -c1-8)
exec "$B/mc" "$P" --tier "$T" --verif "$V" "$@"
