#!/usr/bin/env python3-vt
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc import driver  # noqa: E402

sys.exit(driver.main(sys.argv[1]))
