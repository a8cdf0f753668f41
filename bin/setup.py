#!/usr/bin/env python3
"""setup_cmd: builds the harness once, offline."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
os.makedirs(os.path.join(vlib.ROOT, 'evidence'), exist_ok=True)
c = vlib.Check('C00')
c.build()
