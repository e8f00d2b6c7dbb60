#!/bin/bash
# dev helper: vx/run.sh unit [extra verus args]
u=$1; shift
mkdir -p /tmp/vxo
/verif/.target/vx/debug/vx /repo /verif/contracts/$u.vrs /verif/contracts/prelude /tmp/vxo/$u.rs /tmp/vxo/$u.json || exit 3
cd /tmp/vxo && verus --triggers-mode silent -A warnings $u.rs "$@"
