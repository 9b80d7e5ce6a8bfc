"""Replays one concrete case: python3-vt -m pyvc.replay C04 7   (VERIF_SEED / VERIF_TIER as in the check)"""
import sys, os, json, shutil
from . import check
d = check.scratch_dir()
try:
    p, out, u = check.start_harness(sys.argv[1], int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'), 600, d, int(sys.argv[2]))
    r = check.finish_harness(p, out, d, 700)
finally: shutil.rmtree(d, ignore_errors=True)
print(json.dumps(r, indent=1)); sys.exit(1 if r['violation'] else 0)
