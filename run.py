#!/usr/bin/env python3
"""usage: run.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [--replay FILE] [-v]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'QISKIT_IN_PARALLEL': 'FALSE',
       'PYTHONWARNINGS': 'ignore', 'PYSYM_CHILD': '1'}
if os.environ.get('PYSYM_CHILD') != '1':
    env = dict(os.environ, QISKIT_PARALLEL='FALSE')
    env.update(ENV)
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

os.environ['PYSYM_CHILD'] = '0'
sys.path.insert(0, HERE)
# the z3 bindings live in the tooling venv (same Python version); everything else
# must come from the repository's own venv, so this goes last
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(10000)
import warnings
warnings.simplefilter('ignore')
warnings.showwarning = lambda *a, **k: None
import logging
logging.disable(logging.CRITICAL)
from pysym import driver  # noqa
sys.exit(driver.main(sys.argv[1:]))
