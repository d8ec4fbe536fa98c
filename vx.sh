#!/bin/bash
# dev helper: extract and verify one module or function, show errors grouped by function
set -e
mkdir -p /tmp/vxw
/verif/extract/target/release/vx-extract /repo/src /verif/contracts /tmp/vxw/all.rs /tmp/vxw/all.json
python3 /verif/vx_dev.py "$@"
