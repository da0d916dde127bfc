#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree (tier from VERIF_TIER)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import props
pid = sys.argv[1]
sys.stdout.reconfigure(line_buffering=True)
sys.exit(props.CHECKS[pid]())
