#!/bin/bash
# Builds the nine drivers (one per set of instruction-set features, four of them without overflow checks) from /repo's working tree.
cd "$(dirname "$0")/.." && exec python3 -c '
import sys; sys.path.insert(0, "tools"); import vf
vf.build(extra=vf.EXTRA + vf.WRAPPING)'
