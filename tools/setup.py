"""Checks that everything the framework needs is installed; builds nothing that has to be kept."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dpv import common
os.makedirs(os.path.join(common.VERIF, 'evidence'), exist_ok=True)
subprocess.check_call([common.VENV_PY, '-c', 'import numpy, scipy, phonopy, h5py'])
subprocess.check_call(['gcc', '--version'], stdout=subprocess.DEVNULL)
subprocess.check_call(['clang', '--version'], stdout=subprocess.DEVNULL)
sys.path.append(common.TOOLS_SITE)
import z3, cvc5
print('ready')
