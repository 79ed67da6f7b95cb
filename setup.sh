#!/bin/bash
# builds the MIR driver from the committed sources
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec python3 -c 'import sys; sys.path.insert(0, "lib"); import program; print(program.build_driver())'
