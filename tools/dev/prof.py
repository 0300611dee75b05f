import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(5000)
from pyvc import mods, vcsym, coll, core
from pyvc.core import C
import os, time, traceback, collections
name,hid=sys.argv[1:3]; bud=float(sys.argv[3]) if len(sys.argv)>3 else 60
cdir='/verif/contracts'
L=mods.Loader(extra={n[:-3]: os.path.join(cdir, n) for n in os.listdir(cdir) if n.endswith('.py')})
L.load(name)
acc=collections.Counter()
slow=[]
oc=C.check
def check(extra=None,timeout=None):
    t=time.time()
    r=oc(extra,timeout) 
    d=time.time()-t
    st=[f for f in traceback.extract_stack()[:-1] if 'vc:' in f.filename or 'prelude' in f.filename]
    where=' < '.join('%s:%d'%(f.filename[4:-1],f.lineno) for f in st[::-1][:4])
    acc[where]+=d
    if d>1: slow.append((d,str(r),where,str(extra)[:500]))
    return r
C.check=check
for h in vcsym.REG:
    if h.id==hid:
        r=vcsym.run_harness(h,bud)
        print(r['status'],r['why'],C.stats)
for k,v in acc.most_common(15): print('%.2f'%v,k)
for x in slow[:15]: print(x)
