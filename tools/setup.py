#!/usr/bin/env python3
"""Builds the driver once (warms the Go cache) and parses the specifications."""
import glob, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    print("build:", build(d))
finally:
    shutil.rmtree(d, ignore_errors=True)
