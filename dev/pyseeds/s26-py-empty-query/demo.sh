#!/bin/bash
# cwd: the repository, after its build
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/_build/src/py LD_LIBRARY_PATH=$PWD/_build/src/lib timeout 120 python3 "$D/demo.py"
