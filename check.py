#!/usr/bin/env python3
"""check.py <property> -- decides one property for /repo's working tree (PZ_REPO overrides the tree)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pz.checks import main

sys.exit(main(sys.argv[1:]))
