#!/bin/bash
# Builds /verif/sim (with rawdio from /repo's current working tree) and sets SIM.
. /opt/vp/env.sh
export RUST_BACKTRACE=0
SIM_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/../sim" && pwd)"
SIM="$SIM_DIR/target/release/rawdio-sim"
sim_log=$(cd "$SIM_DIR" && cargo build --release --offline -Zchecksum-freshness 2>&1) || {
  echo "$sim_log" | tail -40 >&2
  echo "build of the simulator failed" >&2
  false
}
