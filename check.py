#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID [--tier quick|thorough] | check.py replay FILE | check.py list"""
import os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import checks, driver
def main(a):
    if a and a[0] == "list": print(" ".join(checks.CHECKS)); return 0
    if len(a) == 2 and a[0] == "replay": return driver.replay(a[1], checks.CHECKS)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i+1]; del a[i:i+2]
    if len(a) != 1 or a[0] not in checks.CHECKS: print(__doc__); return 2
    return driver.run_check(checks.CHECKS[a[0]], tier, int(os.environ.get("VERIF_SEED", "1")))
if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
