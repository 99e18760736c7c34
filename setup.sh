#!/bin/bash
# Nothing to compile: the checks are Python and import the code from /repo/src.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -B - <<'P'
import sys
sys.path.insert(0, "/repo/src")
import numpy, xarray, netCDF4, cftime, shapely, shapefile, click, yaml, wam2layers
import mc.run, mc.ref, mc.synth, mc.scen
print("ready:", wam2layers.__file__)
P
