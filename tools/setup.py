#!/usr/bin/env python3
"""Checks that what the simulator needs is present (nothing has to be built)"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f"{os.environ.get('CDTB_REPO', '/repo')}:{HERE}", PYTHONHASHSEED='1')
code = "import check; check.setup_sim(); from props.registry import PROPS; print('ready:', ' '.join(PROPS))"
sys.exit(subprocess.run(['/opt/venv/bin/python', '-c', code], cwd=HERE, env=env).returncode)
