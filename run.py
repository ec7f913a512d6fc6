#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE]: decide one property (see MANIFEST.json)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.core import main
sys.exit(main(sys.argv[1:]))
