"""python3-vt /verif/checks/run.py Cxx [Cyy ...] [--thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import lib
from checks import specs

def main(argv):
    tier = 'thorough' if '--thorough' in argv else 'quick'
    ids = [a for a in argv if not a.startswith('-')]
    if ids == ['all']: ids = sorted(lib.REGISTRY)
    rc = 0
    for pid in ids:
        rc = max(rc, lib.run(pid, tier))
    return rc

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
