#!/bin/bash
# all proof units (or those of the properties given), no concrete checks:  tools/prove_all.sh [C05 ...]
cd "$(dirname "$0")/.."
for p in ${@:-$(ls pyvc/specs | sed -n 's/^\(c[0-9][0-9]\)\.py$/\U\1/p')}; do timeout 900 python3-vt - $p <<'E'
import sys, time, os; sys.path.insert(0, '.'); sys.setrecursionlimit(6000)
from pyvc import verify, check
for u in check.units_of(sys.argv[1]):
    r = verify.run_unit(u[0], u[1], time.time() + 600, check.REPO)
    bad = [o for o in r['obs'] if o[2] != 'proved']
    print(sys.argv[1], r['unit'], len(r['obs']), 'failed %d' % len(bad), [(o[0], o[1]) for o in bad][:5] or '', r['error'] or '', round(r['wall'], 1), flush=True)
E
done
