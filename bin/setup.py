#!/usr/bin/env python3
"""Compiles the arithmetic of the specification (checks do it themselves where it is missing)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import tlc
print(tlc.classes())
