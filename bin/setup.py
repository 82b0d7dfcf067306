#!/usr/bin/env python3
"""Build the harness once (every check builds it again from /repo's current tree)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import run
os.makedirs(run.BUILD, exist_ok=True)
try:
    print(run.build())
except run.ToolError as e:
    sys.exit(str(e))
