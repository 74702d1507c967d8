"""nothing to build: verify that the interpreter, z3 and the code under test import"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv/bin/python'
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get('PYSYM_IN_VENV'):
    os.environ['PYSYM_IN_VENV'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa
import numpy  # noqa
import qiskit.ignis  # noqa
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
