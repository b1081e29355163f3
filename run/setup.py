#!/usr/bin/env python3
"""configures and builds all drivers once (checks rebuild from /repo themselves)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
build([])
