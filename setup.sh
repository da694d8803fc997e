#!/bin/bash
# Build the fact extractor once; checks extract facts from /repo themselves.
set -eu
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.argv = ['check.py']
sys.path.insert(0, '.')
import check
check.facts_dir()
P
