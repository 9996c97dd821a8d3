#!/bin/bash
# Build the simulator (development helper).
. /verif/sim/env.sh
cd /verif/sim && cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)|^  *-->|Finished" -A12 | head -${1:-60}
