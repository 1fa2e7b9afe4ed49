#!/usr/bin/env python3
"""setup_cmd: build the IR dumper."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
print(run.irdump_path())
