#!/bin/bash
# Builds the MIR driver and extracts the current tree once (checks extract again if it changed).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "engine")
import lib
lib.build_driver()
for c in lib.CONFIGS:
    print(lib.extract(c))
P
