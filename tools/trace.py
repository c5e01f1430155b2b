import sys; import os; sys.path.insert(0, os.environ.get('VDIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nfa.prog import Program
from nfa.terms import *
from nfa.interp import LoopNode
import importlib
mod,un=sys.argv[1:3]
u=getattr(importlib.import_module('specs.'+mod),un)
p=Program(sys.argv[3] if len(sys.argv)>3 else '/repo'); o=u.run(p)
def pr(tr,ind):
    for e in tr:
        if isinstance(e,LoopNode):
            print(ind,'LOOP',show(e.lv),'<',show(e.n)[:100],'cond',show(e.cond)[:200],'g',show(e.guard)[:100]); pr(e.body,ind+'    ')
        else: print(ind,e.kind,str(e)[:300], '@',u.channel(e))
for s in (o.impl,o.spec):
    print('-----'); pr(s.trace,' ')
    print("RET",show(s.ret)[:1500])
    print(s.I.unsupported)
