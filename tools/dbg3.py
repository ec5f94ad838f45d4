import sys; sys.path.insert(0,'/verif')
from fv import driver as D, loops as L
src,proof=sys.argv[1:3]
d=D.directives(src); ok,e,c=D.compile_ir(src,'/tmp/d3.bc',d); assert ok,e
m,proofs,rep,loops,dem=D.load_module('/tmp/d3.bc',d)
loops={f:[sp for sp,lp in v if lp in(None,proof)] for f,v in loops.items()}; loops={f:v for f,v in loops.items() if v}
hv={}
for variant in (L.variants(m,loops,d,proof) if loops else [None]):
  for k in range(10):
    try: ex,ns,es=D.execute(m,d,proof,{},rep,dem,loops,variant,hv); break
    except L.Restart: continue
  break
for o in ex.oblig:
    if len(sys.argv)>3 and sys.argv[3] in o.name:
        print('OBL',o.name,o.line); 
        pass
        pass
from fv import smt, terms as t
if len(sys.argv)>4:
  for o in ex.oblig:
    if sys.argv[3] in o.name:
      c=o.cond
      parts=c.args if c.op=='and' else [c]
      for q in parts:
          r=smt.solve(list(o.pc)+[t.not_(q)],30)
          print(r[0],r[1],str(q)[:500])
  import os
  if len(sys.argv)>5:
    for o in ex.oblig:
      if sys.argv[3] in o.name:
        global_n=globals().get('global_n',0)+1
        open(f'/tmp/q_{global_n}.smt2','w').write('(set-logic ALL)\n'+smt.script(list(o.pc)+[t.not_(o.cond)],'mix'))
        if global_n>=int(sys.argv[5]): break
