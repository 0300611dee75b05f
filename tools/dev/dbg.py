import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(5000)
from pyvc import mods, vcsym, coll, core
from pyvc.core import C
import os
name,hid=sys.argv[1:3]
cdir='/verif/contracts'
L=mods.Loader(extra={n[:-3]: os.path.join(cdir, n) for n in os.listdir(cdir) if n.endswith('.py')})
L.load(name)
of=vcsym.fail
def fail(label,status,note=''):
    print('FAIL',label,status)
    for f in C.frames:
        print('  frame',f.fid,f.decisions)
        for c in f.pc: print('     ',str(c).replace('\n',' ')[:6000])
    of(label,status,note)
vcsym.fail=fail
for h in vcsym.REG:
    if h.id==hid:
        r=vcsym.run_harness(h,60)
        print(r['status'],r['why'],r.get('trace'))
        for f in r['failures']: print(f['label'],f['status'],f['tree'],f['note'])
