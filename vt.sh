#!/bin/sh
cd "$(dirname "$0")" && PYTHONHASHSEED=0 exec python3-vt engine/run.py "$@"
