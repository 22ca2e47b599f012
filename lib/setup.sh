#!/bin/bash
# Builds the extraction driver and analyses the dependencies once (offline).
cd "$(dirname "$0")/.." || exit 2
python3 - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'lib')
import core
core.Ctx()
print('extraction ready')
PY
