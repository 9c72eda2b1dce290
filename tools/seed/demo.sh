#!/bin/bash
# Run with the tree to demonstrate on as the current directory: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$here/demo.py"
