#!/usr/bin/env python3
"""setup_cmd: the tools the checks need are there."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-c', 'import z3, pyvc.vc; print(z3.get_version_string())'], cwd=HERE, env=e, check=True)
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy; print(numpy.__version__)'], cwd=HERE, env=e, check=True)
