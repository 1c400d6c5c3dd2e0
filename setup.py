#!/usr/bin/env python3
"""setup_cmd: builds weaver from /repo, and checks that the specifications parse."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
core.build()
