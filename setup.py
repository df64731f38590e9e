#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and that the monitors build (each check builds again what it needs)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engines"))
from common import *
b, s = build_mon("release")
print("monitor built in %.1f s" % s)
