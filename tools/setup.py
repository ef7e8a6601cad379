#!/usr/bin/env python3
"""builds the fact extractor and warms the dependency build"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rules"))
import extract

extract.driver()
d, info = extract.facts()
print("facts:", {k: len(v) for k, v in d.items() if hasattr(v, "__len__")})
try:
    extract.facts(python=True)
except extract.ExtractError as e:
    print("python feature:", str(e)[-500:])
