import sys, time
sys.path[:0]=['/verif','/repo']; sys.path.append('/opt/venv/lib/python3.12/site-packages')
import importlib, glob, os
for f in sorted(glob.glob('/verif/contracts/c_*.py')): importlib.import_module('contracts.'+os.path.basename(f)[:-3])
from pyvc.spec import *
for prop in sys.argv[1].split(','):
    print(prop); t=time.time()
    c=run_contracts(prop, time.time()+600, True, sys.argv[2] if len(sys.argv)>2 else None)
    import collections
    print(prop, collections.Counter(o.status for o in c.obs), '%.1f'%(time.time()-t), c.notes)
