#!/bin/sh
# replay.sh PROPERTY HARNESS FILE: run a recorded counterexample against the real code
cd "$(dirname "$0")/.." && exec python3-vt engine/run.py --replay "$@"
