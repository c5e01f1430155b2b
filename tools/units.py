import sys, time, importlib, traceback
import os; sys.path.insert(0, os.environ.get('VDIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nfa.prog import Program
from nfa.unit import Unit
from nfa.terms import *
def main():
    root='/repo'
    a=sys.argv[1:]
    if a[0].startswith('@'): root=a.pop(0)[1:]
    m=importlib.import_module('specs.'+a[0]); pats=a[1:]
    for k,u in list(vars(m).items()):
        if isinstance(u,Unit) and (not pats or any(p in k for p in pats)):
            t=time.time(); p=Program(root)
            o=u.run(p)
            print('==',k,o.fi.qual, round(time.time()-t,2),'s obligations',o.obligations, u.notes)
            for r in o.results: print('   ',str(r)[:1500])
            for s,n in ((o.impl,'impl'),(o.spec,'spec')):
                if s is not None and s.I.unsupported: print('   UNSUP',n,s.I.unsupported[:6])
main()
