#!/bin/bash
# nothing to build: the checks are Python and import bilby from /repo; verify the tools are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD /opt/venv/bin/python - <<'P'
import bilby, numpy, scipy, os
assert os.path.abspath(bilby.__file__).startswith("/repo/")
import mc.core, mc.run, mc.fakerng
print("setup ok", bilby.__file__)
P
