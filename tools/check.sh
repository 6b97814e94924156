#!/bin/bash
# check.sh <property> [quick|thorough]: build the simulator against /repo's
# working tree and explore the property. Exit 0 held, 1 violation, 2 no answer.
. "$(dirname "$0")/build.sh" || exit 2
exec "$SIM" check "$1" "${2:-${VERIF_TIER:-quick}}"
