#!/usr/bin/env python3
"""Build the harness against /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))
import nd

nd.build()
print('built', nd.BIN if hasattr(nd, 'BIN') else '')
