#!/bin/bash
# check.sh <property> [engine flags]: decides one property on /repo's current tree.
# VERIF_TIER=quick|thorough, VERIF_SEED; REPO overrides /repo (for trying things in scratch copies).
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
eng=$here/bin/gosym
if [ ! -x "$eng" ] || [ -n "$(find "$here/engine" -newer "$eng" -name '*.go' -print -quit)" ]; then
  "$here/build_engine.sh" "$eng" >&2 || exit 2
fi
exec "$eng" -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -repo "${REPO:-/repo}" -verif "$here" "$@"
