exec(open('/tmp/dbg3.py').read().split("for o in ex.oblig")[0])
from fv import smt, terms as t
import subprocess
for o in ex.oblig:
    if sys.argv[3] in o.name:
        q=[x for x in (o.cond.args if o.cond.op=='and' else [o.cond])]
        goal=t.not_(o.cond)
        # all subterms
        seen={}
        def walk(x):
            if x.id in seen: return
            seen[x.id]=x
            for a in x.args: walk(a)
        for x in list(o.pc)+[goal]: walk(x)
        fl=[x for x in seen.values() if x.op in('flt','fle','feq','fmul','fdiv','fneg','sitofp','uf') and x.op!='const']
        txt=smt.script(list(o.pc)+[goal],True,fl)
        open('/tmp/q.smt2','w').write('(set-logic ALL)\n'+txt)
        r=subprocess.run(['cvc5','--produce-models','--tlimit=60000','/tmp/q.smt2'],capture_output=True,text=True).stdout
        print(r[:200])
        ls=r.strip().split('\n')[1:]
        for x,l in zip(fl,ls): print(x.id,x.op,x.val,[ (a.id,a.op,a.val) for a in x.args],'=>',l[:200])
        open('/tmp/q.pc','w').write('\n'.join(str(x) for x in o.pc))
        bl=[x for x in seen.values() if x.sort==0 and x.op!='const']
        txt=smt.script(list(o.pc)+[goal],True,bl)
        open('/tmp/q.smt2','w').write('(set-logic ALL)\n'+txt)
        r=subprocess.run(['cvc5','--produce-models','--tlimit=60000','/tmp/q.smt2'],capture_output=True,text=True).stdout
        val={x.id:l.strip().endswith('true))') for x,l in zip(bl,r.strip().split('\n')[1:])}
        def ex_(x,want,ind=0):
            if ind>14: return
            if x.op=='const': print(' '*ind,'const',x.val); return
            v=val.get(x.id)
            print(' '*ind,x.op,v,str(x)[:110])
            if x.op=='not': ex_(x.args[0],not want,ind+1)
            elif x.op=='and':
                if v: pass
                for a in x.args:
                    if (a.op=='const' and not a.val) or (a.op!='const' and val[a.id]==v): ex_(a,want,ind+1); 
                    if v==False and a.op!='const' and not val[a.id]: break
            elif x.op=='or':
                for a in x.args:
                    if a.op!='const' and val[a.id]==v: ex_(a,want,ind+1)
                    if v and a.op!='const' and val[a.id]: break
            elif x.op=='ite':
                c=val[x.args[0].id]; print(' '*ind,' cond',c); ex_(x.args[0],None,ind+1); ex_(x.args[1] if c else x.args[2],want,ind+1)
        ex_(o.cond,True)
