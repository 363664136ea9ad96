#!/bin/bash
# Run one check verbosely; print what does not hold, grouped by message.
cd "$(dirname "$0")/.."
VERIF_VERBOSE=1 timeout 900 python3 check.py "$1" 2>&1 | grep -v "^   ok" | cut -c1-${3:-260} | head -${2:-25}
