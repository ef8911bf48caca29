#!/bin/sh
# builds the SSA dumper from the committed sources (offline)
cd "$(dirname "$0")" || exit 2
python3-vt -c "
import sys; sys.path.insert(0,'engine')
import ssa; print(ssa.ssadump_bin())"
