# whyinv.py module contract PAT: print pc + goal of candidate invariants matching PAT that are dropped
import sys
PAT=sys.argv.pop()
src=open('/verif/tools/prove.py').read()
sys.path.insert(0,'/verif')
from pyvc import theory as th, exec as ex
import z3
old=ex.Exec.cand_ok
n=[0]
def cand_ok(self, y, c, env, *a):
    r=old(self,y,c,env,*a)
    if not r and PAT in str(c) and n[0]<3:
        n[0]+=1
        print("===== dropped",c)
        for p in y.pc: print('     ',str(p).replace('\n',' ')[:700])
        try: print('   GOAL', self.cand_term(c, env))
        except Exception as x: print('   env',{k:str(v)[:200] for k,v in env.items()})
    return r
ex.Exec.cand_ok=cand_ok
exec(src)
