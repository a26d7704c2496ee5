#!/usr/bin/env -S python3-vt
"""checks/run.py <property> [--thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import driver
import props

pid = sys.argv[1]
tier = "thorough" if "--thorough" in sys.argv else "quick"
sys.exit(driver.main(props.PROPS[pid](), pid, tier))
