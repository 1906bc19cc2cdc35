#!/usr/bin/env python3
"""setup_cmd: build the harness once (checks rebuild it from /repo's working tree anyway)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
print(core.build_harness())
