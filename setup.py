#!/usr/bin/env python3
"""Builds every variant the checks use, so that checks only recompile what changed in /repo."""
import sys
import build
from jobs import PROPERTIES, SOURCES
vs = sorted({j.get("variant", "plain") for p in PROPERTIES.values() for j in p["jobs"]} | {"plain"})
for v in vs:
    print(v, build.build(v, SOURCES), flush=True)
