#!/usr/bin/env python3
"""build the AST exporter (the checks do the same if it is missing)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
print(lib.exporter())
