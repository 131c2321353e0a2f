#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property of /repo's current working tree.

exit 0: the property held on everything decided; exit 1 with a VIOLATION line: it is broken.
See DESIGN.md for what is proved, what is bounded, and the decision policy.
"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run.main(pid, tier))
