#!/usr/bin/env python3
"""Checks that the compilers the checks need are there (every check builds from /repo by itself)."""
import os, shutil, sys
missing = [t for t in ('g++', 'clang++') if not shutil.which(t)]
if missing:
    sys.exit('missing: ' + ', '.join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ready')
