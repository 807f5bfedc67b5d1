#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import checks
sys.exit(checks.main(sys.argv[1:]))
