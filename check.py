#!/usr/bin/env python3
"""python3 check.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import registry
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(registry.main(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
