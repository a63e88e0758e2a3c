#!/usr/bin/env python3
"""Nothing to compile: confirm that the interpreter the checks use can import the tree under test."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
r = subprocess.run([core.PY, '-c', 'import dill, sys; print(dill.__file__, sys.version)'],
                   env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1'))
sys.exit(r.returncode)
