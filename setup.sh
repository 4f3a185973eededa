#!/bin/bash
# Offline setup: compile the TLC operator overrides (each check does the same on demand).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys; sys.path.insert(0, "harness")
import common; print(common.classes_dir())
P
