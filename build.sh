#!/bin/bash
# Builds the simulator with geom3d from /repo's working tree into /verif/target. Offline.
cd "$(dirname "$0")/sim" || exit 2
mkdir -p ../target ../out ../evidence
exec 9>../target/.build.lock
flock 9
cargo build --release --offline --locked -q 2>../target/build.log && exit 0
tail -40 ../target/build.log
exit 2
