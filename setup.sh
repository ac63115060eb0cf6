#!/bin/bash
# nothing to build: checks that the interpreter and the library of /repo can be loaded
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c 'import pygcode, euclid3; print("pygcode", pygcode.__file__)'
