#!/bin/bash
# run.sh <property id> <quick|thorough>      run.sh --replay <file>
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B "$(dirname "$0")/lib/main.py" "$@"
