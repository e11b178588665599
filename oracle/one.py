"""python3-vt -m oracle.one PROPERTY SEED NUMBER - run one case again"""
import sys
import os
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'oracle.one'] + sys.argv[1:])
from . import search
sys.stdout.reconfigure(errors='backslashreplace')
sig, nt, fail = search.one(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
print(fail or 'the property holds for this case')
sys.exit(1 if fail else 0)
