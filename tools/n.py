import sys
sys.path[:0]=['/verif','/repo/src']; sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode=True; import logging; logging.disable(50)
import importlib
from dv.api import REGISTRY
import dv.conc as C
m=importlib.import_module('contracts.'+sys.argv[1])
c=[c for c in REGISTRY if c.fn.__name__==sys.argv[2]][0]
vals=eval(sys.argv[3]) if len(sys.argv)>3 and sys.argv[3]!='None' else None
oc=C.ConcS.call
def call(self,*a,**k):
    r=oc(self,*a,**k)
    if not r.ok:
        import traceback; traceback.print_exception(r.exc_obj)
    return r
C.ConcS.call=call
print(C.run_native(c.fn, vals, int(sys.argv[4]) if len(sys.argv)>4 else 1))
