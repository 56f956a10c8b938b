#!/bin/bash
# builds the harness from the committed files and /repo's working tree
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
from vlib import common
common.build_harness()
common.cleanup()
PY
