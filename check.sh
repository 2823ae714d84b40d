#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the simulator from /repo's working tree, then search.
# exit 0: held on everything explored; 1: VIOLATION; 2: the check gave no answer
cd "$(dirname "$0")" || exit 2
prop="$1"; tier="${2:-quick}"
./build.sh || { echo "check.sh: build failed"; exit 2; }
exec ./target/release/dst check "$prop" --tier "$tier"
