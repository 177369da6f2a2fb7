#!/bin/bash
# run every (or the named) checks; one line each
cd "$(dirname "$0")/.."
ps="$*"; [ -z "$ps" ] && ps=$(python3 -c "
from npv import registry
print(' '.join(sorted(registry.load_all())))")
for p in $ps; do python3 check.py $p 2>&1 | grep "NOTE\|VIOL\|CHECK\|KNOWN\|quick\|thorough" | cut -c1-220; done
