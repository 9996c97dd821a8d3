#!/bin/bash
# check.sh PROP quick|thorough: build the simulator against /repo's working tree and run one check.
# Exit 0: held (or only known findings). Exit 1: VIOLATION line printed. Exit 3: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
if ! "$here/build.sh" >"/tmp/relp-sim-build-$$.log" 2>&1; then
    cat "/tmp/relp-sim-build-$$.log"
    rm -f "/tmp/relp-sim-build-$$.log"
    echo "BUILD-ERROR: the simulator does not build against this tree"
    exit 3
fi
rm -f "/tmp/relp-sim-build-$$.log"
exec "$here/sim/target/release/relp-sim" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"
