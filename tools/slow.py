import sys
sys.path[:0]=['/verif','/repo/src']; sys.path.append('/opt/venv/lib/python3.12/site-packages')
import logging; logging.disable(50)
import importlib, time, traceback, threading
import dv.path as P
from dv.api import REGISTRY
from dv.runner import explore
threading.stack_size(512*1024*1024)
o=P.Path.check
def chk(self,*extra):
    t=time.time(); r=o(self,*extra); d=time.time()-t
    if d>1.5:
        print('SLOW %.1f %s'%(d,r), str(extra)[:600]); 
        f=sys._getframe(1); st=[]
        print([str(x)[:200] for x in self.pc[-6:]])
    return r
P.Path.check=chk
def main():
    m=importlib.import_module('contracts.'+sys.argv[1])
    c=[c for c in REGISTRY if c.fn.__name__==sys.argv[2]][0]
    print(explore(c,60)['complete'])
t=threading.Thread(target=main); t.start(); t.join()
