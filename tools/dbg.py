import sys,faulthandler,signal
sys.path.insert(0,'/verif')
faulthandler.register(signal.SIGUSR1)
import os,re
from fv import driver as D
src,proof=sys.argv[1],sys.argv[2]
d=D.directives(src)
ok,e,c=D.compile_ir(src,'/tmp/dbg.bc',d)
if not ok: print(e[:3000]); sys.exit(1)
os.environ['FV_DEBUG']='1'
import threading
if len(sys.argv)>3:
    faulthandler.dump_traceback_later(int(sys.argv[3]),exit=True)
r=D.run_proof(('/tmp/dbg.bc',d,proof,300))
print({k:v for k,v in r.items() if k not in('functions',)})
