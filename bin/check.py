#!/usr/bin/env python3
"""check.py ID   - decides one property on /repo's current working tree.

Builds the harness of the property (from /repo's sources as they are now), runs its
exhaustive enumeration on all cores, replays whatever fails before reporting it, and
writes evidence/ID.json.  Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=ID replay=PATH": broken.  VERIF_TIER selects quick or thorough.
"""
import importlib.util, json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
