#!/bin/bash
# development: run the bounded driver of one property alone
cd "$(dirname "$0")/.." && python3-vt - "$1" "${2:-5}" <<'P'
import sys, importlib
sys.path.insert(0, '.')
from lvc import check
m = importlib.import_module('specs.' + sys.argv[1])
print(check.run_driver(sys.argv[1], m, 'quick', float(sys.argv[2]), 1))
P
