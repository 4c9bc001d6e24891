#!/bin/sh
# nothing to build: the framework is Python and uses the preinstalled python3-vt (z3, cvc5, numpy)
cd "$(dirname "$0")" && mkdir -p evidence/replay && python3-vt -B -c "import z3, cvc5, numpy, sys; sys.path.insert(0, '.'); import pyvc.api"
