#!/usr/bin/env python3
"""Builds the extractor (everything else is Python)."""
from f2c import load
load.build_extractor()
print('extractor ready')
