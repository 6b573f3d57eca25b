#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa.runner import main

sys.exit(main(sys.argv))
