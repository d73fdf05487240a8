#!/usr/bin/env python3
"""Proves that the fact extractor builds here; the checks rebuild it themselves."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf.build import Workspace  # noqa: E402

with Workspace() as W:
    W.driver()
print('ok')
