#!/bin/bash
# Nothing to build: the checks import the code under test from /repo. Only verify that the explorer itself compiles.
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" -B - "$here" <<'P'
import os, sys
for root in (sys.argv[1] + "/mc", sys.argv[1] + "/mc/checks"):
    for f in sorted(os.listdir(root)):
        if f.endswith(".py"):
            compile(open(os.path.join(root, f)).read(), f, "exec")
print("ok")
P
