#!/bin/bash
# check.sh ID: decide one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/analyze" ] || [ -n "$(find "$here/analyzer" -newer "$here/bin/analyze" -type f -print -quit)" ]; then
  bash "$here/setup.sh" || exit 2
fi
exec "$here/bin/analyze" -repo "${VERIF_REPO:-/repo}" -verif "$here" -property "$1"
