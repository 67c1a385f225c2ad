#!/usr/bin/env python3
"""Builds the compiler driver and extracts the program once (each check does both by itself when needed)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
import extract
files, key = extract.extract()
print("extracted %d crates, source %s" % (len(files), key))
