#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]: exit 0 when the property holds, 1 with a VIOLATION line otherwise"""
import os
import sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "vcg")
import runner
a = sys.argv[1:]
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in a:
    tier = a[a.index("--tier") + 1]
sys.stdout.flush()
rc = runner.main(a[0], tier)
sys.stdout.flush()
os._exit(rc)
