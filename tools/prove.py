import sys, time, importlib; sys.path.insert(0,'/verif')
from pyvc import theory as th, repo, contract
from pyvc.exec import Exec
mod=importlib.import_module('specs.'+sys.argv[1])
if "-q" in sys.argv:
    def dbg(r,t,a):
        if t>0.3: print("    Q",r,round(t,2),str(a[-1])[:300].replace(chr(10)," "))
    th.DEBUG=dbg
import threading
threading.stack_size(1 << 30)
def main():
    R=repo.Repo()
    th.setup(R,mod.CLASSES)
    t=time.time()
    th.prove_lemmas(print)
    print('lemmas', time.time()-t)
    for q,c in contract.CONTRACTS.items():
        if len(sys.argv)>2 and not any(a in q for a in sys.argv[2:]): continue
        if c.assumed: continue
        t=time.time()
        e=Exec(R,c,print if '-v' in sys.argv else lambda *a:None)
        try: e.run()
        except Exception as x:
            import traceback; traceback.print_exc(); 
        print(q, 'obl',e.obl,'ok',e.ok,'reach',e.reach,'t',round(time.time()-t,2), 'inlined',e.inlined,'assumed',[a[:30] for a in e.assumed_used])
        for f in e.failures: print('   FAIL',f)
        if '-i' in sys.argv:
            for i in e.inv_used: print('   inv',i)
        if '-o' in sys.argv:
            for i in e.obl_names: print('   obl',i)
    print(th.STATS)
t=threading.Thread(target=main); t.start(); t.join()
