#!/bin/bash
# Builds the extractor and the executable contracts (each check rebuilds what it needs anyway).
set -e
source /opt/vp/env.sh
cd "$(dirname "$0")"
(cd vx && CARGO_TARGET_DIR=/verif/target/vx cargo build --offline)
(cd exec && CARGO_TARGET_DIR=/verif/target/exec cargo build --offline)
/opt/veriftools/verus/verus --version
