#!/bin/bash
# nothing is kept between runs: every check builds what it needs itself
/opt/venv/bin/python -c 'import numpy, scipy, h5py, matplotlib, Cython' || exit 1
mkdir -p "$(dirname "$0")/evidence"
