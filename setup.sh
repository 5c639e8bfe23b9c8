#!/bin/bash
# Unpack Hypothesis (a pure-python use of the wheel shipped with the sandbox) into /verif/.deps.
here="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$here/vf/deps.py"
