#!/usr/bin/env python3
"""Checks that the tools the checks need are there, and prepares directories."""
import os, shutil, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ('gcc', 'g++', 'cmake', 'ninja', 'valgrind') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ', '.join(missing))
for d in ('evidence', 'out', '.work'):
    os.makedirs(os.path.join(VERIF, d), exist_ok=True)
os.chmod(os.path.join(VERIF, 'bin', 'ccwrap'), 0o755)
print('ready')
