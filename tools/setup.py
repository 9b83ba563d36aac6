#!/usr/bin/env python3
"""Builds the symbolic executor (the checks do it too when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
vlib.build_engine()
