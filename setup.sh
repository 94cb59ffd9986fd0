#!/bin/bash
# Nothing to build: the checks import /repo's working tree. This only makes sure the tools are there.
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import hypothesis' || exit 1
/opt/venv/bin/python -c 'import numpy, scipy, autograd' || exit 1
mkdir -p evidence replays
