#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import vlib
from registry import TABLE
sys.exit(vlib.main(TABLE))
