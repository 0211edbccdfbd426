# t6.py module contract -- PAT : print obligations failing whose text contains PAT with pc
import sys
PAT=sys.argv.pop()
src=open('/verif/tools/prove.py').read()
sys.path.insert(0,'/verif')
from pyvc import theory as th, exec as ex
import z3
n=[0]
old=ex.Exec.oblige
def oblige(self, st, goal, what, line=None):
    r=old(self,st,goal,what,line)
    if not r and PAT in what and n[0]<1 and not self.quiet:
        n[0]+=1
        print("=====",what,line)
        for p in st.pc: print('     ',str(p).replace('\n',' ')[:1200])
        print('   GOAL', z3.simplify(goal))
    return r
ex.Exec.oblige=oblige
exec(src)
