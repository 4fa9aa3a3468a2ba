#!/bin/bash
cd /verif/harness; CARGO_TARGET_DIR=/verif/.work/target cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -${1:-50}
