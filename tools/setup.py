#!/usr/bin/env python3
"""setup_cmd: builds every check binary once, so that checks only rebuild what changed."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_check
bad = 0
for k, pid in (("mc", "all"), ("mcs", "all-s")):
    if os.path.isdir(os.path.join(run_check.ROOT, k)):
        bad |= run_check.build(pid) is None
sys.exit(1 if bad else 0)
