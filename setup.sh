#!/bin/bash
# Build the extensions of /repo's working tree, in both flavours (checks do it
# themselves if these are missing or out of date)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c '
from pbt import loader
for flavour in ("plain", "asan"):
    print(loader.build(flavour))
'
