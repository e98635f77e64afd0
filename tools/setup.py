"""Sanity check of the environment: nothing has to be built (pure Python)."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', '-c', 'import numpy, scipy, mpmath, attr, absl'], cwd=V))
