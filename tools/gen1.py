import sys,traceback
sys.path.insert(0,'/verif')
from pyvc import run as R
w=R.load_world(sys.argv[1]); vf=R.make(w); vf.ghost_hits=set()
try: vf.verify(w.contracts[sys.argv[2]])
except Exception: traceback.print_exc()
