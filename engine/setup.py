#!/usr/bin/env python3
"""Build the IR flattener and the bitcode of the current sources (both are also built on demand by the checks)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from gx import build  # noqa: E402

print(build.gxir())
for part in ('lib', 'py'):
    try:
        print(build.bitcode(part)[0])
    except build.BuildError as e:
        print('not built now: %s: %s' % (part, str(e)[:300]))
