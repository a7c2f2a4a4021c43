#!/bin/bash
# Nothing to compile: verifies that the monitors load and the library imports from /repo.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -W ignore - <<'PY'
import importlib, json
from vm import target, gen, core, ref
target.Lib()
gen.harvest(target.source_files())
for check in json.load(open("MANIFEST.json"))["checks"]:
    importlib.import_module("vm.props." + check["property"].lower())
print("monitors ready")
PY
