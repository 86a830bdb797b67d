#!/bin/bash
# Builds the extractor and warms the extraction cache for the current tree.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
from engine import extract
extract.build_tool()
r, e = extract.extract()
print('extracted', len(r), 'units', e)
sys.exit(0 if r else 1)
PY
