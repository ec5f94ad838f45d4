import sys
sys.path.insert(0,'/verif')
from fv import driver as D
src=sys.argv[1]
d=D.directives(src)
m,proofs,rep,loops,dem=D.load_module('/tmp/dbg.bc',d)
print(loops); print({dem[k]:v for k,v in rep.items()})
from fv import loops as L
for f in loops:
    fn=m.fn(f)
    for h in L.headers(fn):
        print(h,[ (p[0],p[1]) for p in fn.blocks[h].phis], len(fn.loops[h]))
print(L.variants(m,loops,d,'x'))
for pat in sys.argv[2:]:
    import re
    for n,q in dem.items():
        if re.search(pat,q): print(n,'|',q, m.has_body(n))
