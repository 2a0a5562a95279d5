#!/bin/bash
# nothing to install: the checks are Python (python3-vt) + clang/opt 18 + gcc, all preinstalled
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c "import sys; sys.path.insert(0,'.'); from engine import ir, sym, loops, prover, gf2, runner; from specs import sm4; sm4.selftest(); print('ok')"
