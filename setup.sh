#!/bin/bash
# Nothing to compile: the harness is Python and imports /repo/src directly.
set -e
/opt/venv/bin/python - <<'PY'
import numpy, scipy
print("harness ready: numpy", numpy.__version__, "scipy", scipy.__version__)
PY
