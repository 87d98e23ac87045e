#!/bin/bash
# nothing to install: checks the tools and builds the extensions from /repo
cd "$(dirname "$0")" || exit 1
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
bash /opt/vp/build.sh ext >/dev/null 2>&1 || { echo "build failed"; exit 1; }
python - <<'P' || exit 1
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, pixell.enmap
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
P
command -v cvc5 cbmc
exit 0
