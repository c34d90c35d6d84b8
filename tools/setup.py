#!/usr/bin/env python3
"""setup: builds the MIR driver"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import load
load.driver()
