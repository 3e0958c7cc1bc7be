#!/bin/bash
# Builds the extension modules from /repo's working tree and checks that the
# simulator imports.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
. /opt/vp/env.sh
/opt/venv/bin/python /opt/vp/buildext.py
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/package:. /opt/venv/bin/python -W ignore -c '
import glob, importlib
for f in sorted(glob.glob("dst/p[0-9][0-9].py")):
    importlib.import_module("dst." + f[4:7]).SCENARIO.setup()
print("ok")'
