import sys,json,time
sys.path[:0]=['/verif','/repo/src']; sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode=True; import logging; logging.disable(50)
import importlib, threading
threading.stack_size(512*1024*1024)
def main():
    from dv.api import REGISTRY
    from dv.runner import explore, concrete_search
    importlib.import_module('contracts.'+sys.argv[1])
    for c in REGISTRY:
        if c.fn.__module__!='contracts.'+sys.argv[1]: continue
        if len(sys.argv)>2 and sys.argv[2]!='-v' and sys.argv[2] not in c.name: continue
        t=time.time()
        r=explore(c,60)
        print(c.name, 'paths',r['paths'],'complete',r['complete'],'infeas',r['infeasible'],'cc',r['crosscheck'],'wall',r['wall'],r['stats'])
        for k,v in r['labels'].items():
            if v['failed'] or v['undecided'] or '-v' in sys.argv: print('    ',k,v)
        for f in r['failed'][:6]: print('   FAILED',f)
        for f in r['escaped'][:3]: print('   ESCAPED',f)
        if r['unsupported']: print('   UNSUPPORTED',r['unsupported'])
        for m in r['cross_mismatch'][:3]: print('   MISMATCH',m)
        print('   ', 'covers',r['covers'],'fns',len(r['functions']), r['notes'])
        cs=concrete_search(c,300,1,10)
        print('    conc', {k:v for k,v in cs.items() if k!='labels'})
t=threading.Thread(target=main); t.start(); t.join()
