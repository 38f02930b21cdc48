#!/bin/bash
# Builds the extractor and the oracle (offline) so that the checks start warm; the checks build them too if they are missing.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from vlib import run, oracle
run.build_vx()
exe, err = oracle.build()
if exe is None:
    print('oracle does not build yet:', err)
P
