#!/bin/bash
# run.sh PROP [TIER]: decide one property against /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
. "$here/setup.sh" || exit 2
exec "$here/engine/bin/gosym" -verif "$here" -repo "${REPO:-/repo}" -prop "$1" -tier "$VERIF_TIER"
