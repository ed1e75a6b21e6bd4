#!/opt/venv/bin/python
"""Entry point of the checks:  run.py <ID> [--replay FILE] [--workload NAME] [--index N]

Exit 0: the property held on every execution the monitors observed.
Exit 1: a monitor saw a violation (a VIOLATION line is printed).
Exit 2: inconclusive (a harness failure, or the deciding monitors were not reached).
"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
for k in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['CUDA_VISIBLE_DEVICES'] = ''
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLCONFIGDIR', '/tmp/vf_mplconfig')
if os.environ.get('PYTHONHASHSEED') != '0' or sys.prefix != '/opt/venv':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, HERE)

from vf import core
sys.exit(core.main(sys.argv[1:], HERE, REPO))
