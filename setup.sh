#!/bin/bash
# Nothing to compile: verify that the interpreter, its packages and the exploration engine are usable.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "
import numpy, scipy, obspy, matplotlib, pandas, sigpropy
import mc.explore
print('ready')
"
