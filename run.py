#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay file]"""
import os
import sys
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
       'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    os.execv(py, [py] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
code = core.self_test() if sys.argv[1:] == ['--self-test'] else \
    core.main(sys.argv[1:])
sys.stdout.flush()
os._exit(code)
