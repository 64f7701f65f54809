#!/bin/bash
# Nothing is compiled: check that the interpreters and libraries are there.
cd "$(dirname "$0")" || exit 1
PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python - <<'EOF'
from pv import boot
boot.boot()
boot.import_all()
import hypothesis, mpmath, sympy, llvmlite, numpy
print("setup ok: hypothesis", hypothesis.__version__, "sympy", sympy.__version__)
EOF
