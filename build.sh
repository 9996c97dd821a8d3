#!/bin/bash
# Build the simulator against /repo's working tree. Also the setup command: later builds only
# rebuild what changed.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/sim/env.sh"
cd "$here/sim"
mkdir -p target/release
# Cargo compares modification times, which say nothing in a copied tree: compare the contents.
now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/release/relp-tree 2>/dev/null)" ]; then
    find target/release/.fingerprint -maxdepth 1 \( -name 'relp-[0-9a-f]*' -o -name 'relp-sim-*' \) -exec rm -r {} + 2>/dev/null || true
    rm -f target/release/relp-tree
fi
if ! cargo build --release --offline; then
    # An edit may have touched what the guarded hooks refer to, which nothing but this build compiles:
    # do without them, with fewer alternatives for the scheduler.
    echo "the hooks don't build with this tree: building without"
    RUSTFLAGS="-Awarnings" cargo build --release --offline
fi
printf '%s\n' "$now" > target/release/relp-tree
