#!/bin/bash
# replay.sh <file>: run a replay file against /repo's working tree.
. "$(dirname "$0")/build.sh" || exit 2
exec "$SIM" replay "$1"
