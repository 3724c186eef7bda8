#!/bin/bash
# replay.sh <replay file written by run.py>: builds the harness natively with /repo's code and runs the recorded inputs
exec python3 "$(dirname "$0")/replay.py" "$1"
