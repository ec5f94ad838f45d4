"""where does the executor give up? dbg5.py contract proof"""
import sys, traceback; sys.path.insert(0,'/verif')
from fv import driver as D, loops as L, exec as X
src,proof=sys.argv[1:3]
d=D.directives(src); ok,e,c=D.compile_ir(src,'/tmp/d3.bc',d); assert ok,e
m,proofs,rep,loops,dem=D.load_module('/tmp/d3.bc',d)
loops={f:[sp for sp,lp in v if lp in(None,proof)] for f,v in loops.items()}; loops={f:v for f,v in loops.items() if v}
try:
    D.execute(m,d,proof,{},rep,dem,loops,(list(L.variants(m,loops,d,proof)) or [None])[0] if loops else None,{})
except Exception as e:
    tb=e.__traceback__
    traceback.print_exc()
    while tb:
        fl=tb.tb_frame.f_locals
        for k in ('fr','st','ins','inst'):
            if k in fl:
                v=fl[k]
                if k=='st' and hasattr(v,'frames'):
                    for f in v.frames[-8:]: print('   frame', D.cxxfilt([f.fn.name])[f.fn.name][:150] if hasattr(f,'fn') else f)
                elif k in('ins','inst'): print('   ',k,str(v)[:300])
        tb=tb.tb_next
