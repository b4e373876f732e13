#!/usr/bin/env python3
"""Build the rustc driver and extract the facts once, so that the checks find them cached."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import extract
extract.extract()
print("ready")
