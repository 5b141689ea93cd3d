#!/bin/bash
# nothing has to be built: check that both interpreters start and can import what the checks need
set -e
python3-vt -c 'import hypothesis'
OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 /opt/pvenv/bin/python -c 'import numpy, scipy'
