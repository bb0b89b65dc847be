"""Puts the code under test and the generators on the path, writing nothing into /repo."""
import os
import sys

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.dont_write_bytecode = True
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.path.insert(0, REPO)
if os.path.isdir(_VT) and _VT not in sys.path:
    sys.path.append(_VT)  # hypothesis and what it needs; the venv's own numpy etc. come first

import warnings  # noqa: E402

warnings.simplefilter('ignore')
import numpy as np  # noqa: E402

np.seterr(all='ignore')


def load():
    """Import shipgrav from the tree under test and nowhere else."""
    import importlib
    mods = {}
    for m in ('io', 'nav', 'grav', 'utils'):
        mods[m] = importlib.import_module('shipgrav.' + m)
        f = os.path.abspath(mods[m].__file__)
        if not f.startswith(REPO + os.sep):
            raise RuntimeError('shipgrav.%s was imported from %s, not from %s' % (m, f, REPO))
    return mods
