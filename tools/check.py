#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property (see MANIFEST.json)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vlib, jobs
prop = sys.argv[1]
vlib.main(prop, jobs.JOBS[prop])
