#!/usr/bin/env python3
"""Builds the fact extraction driver (every check does so itself when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import facts
facts.facts()
