#!/usr/bin/env python3
"""Builds the analyser."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sl
print(sl.build_driver())
