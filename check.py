#!/usr/bin/env python3
"""python3 check.py <ID> [--replay FILE]   (VERIF_SEED, VERIF_TIER, VF_REPO)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
sys.stdout.reconfigure(encoding='utf-8', errors='backslashreplace')
sys.exit(core.main(sys.argv[1:]))
