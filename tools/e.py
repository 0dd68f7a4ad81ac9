import sys
sys.path[:0]=['/verif','/repo/src']; sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode=True; import logging; logging.disable(50)
import threading, importlib
threading.stack_size(512*1024*1024)
import dv.sym as sym
def main():
    from dv.api import REGISTRY
    from dv.runner import explore
    orig=sym.call_s
    seen=set()
    import dv.interp as ip
    stack=[]
    def call(I,S,name,args,kw):
        o=orig(I,S,name,args,kw)
        if name=='call' and not o.attrs['ok']:
            t=repr((o.attrs['exc'],o.attrs['exc_obj'].attrs))[:300]
            if t not in seen:
                seen.add(t); print(repr(args[0])[:80], t, getattr(I,'where',None))
        return o
    sym.call_s=call; 
    for m in list(sys.modules.values()):
        if getattr(m,'call_s',None) is orig: m.call_s=call
    importlib.import_module('contracts.'+sys.argv[1])
    for c in REGISTRY:
        if c.fn.__module__=='contracts.'+sys.argv[1] and sys.argv[2] in c.name:
            explore(c,30)
t=threading.Thread(target=main); t.start(); t.join()
