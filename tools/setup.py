#!/usr/bin/env python3
"""Warm the build caches: compiles the Java operators, the drivers and the commands once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlc import Session
from props import PROPS
s = Session("setup", "quick", 1)
try:
    s.classes()
    s.binary()
    s.release()
    seen = set()
    for p in PROPS:
        for r in PROPS[p]["runs"]("quick", 1):
            k = (tuple(r.get("driver") or ()), r.get("race", False))
            if k[0] and k not in seen:
                seen.add(k)
                s.driver(list(k[0]), k[1])
finally:
    s.close()
