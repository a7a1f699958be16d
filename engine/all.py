import sys,time
from dbg import *
p=Prog(sys.argv[1]); import traceback
import gc; gc.collect(); gc.freeze(); gc.disable()
tot=time.time(); unk={}
for r in p.roots:
    if r.get('derived'): continue
    t=time.time()
    i=Interp(p,Handlers(),max_nodes=100000)
    try:
        g=i.run(r['inst'])
    except Exception as e:
        print("EXC",r['canon'],repr(e)); traceback.print_exc(limit=-3); continue
    dt=time.time()-t
    for u in g.unknown_calls: unk.setdefault(u,[]).append(r['path'])
    if dt>1 or g.incomplete: print('%.1fs'%dt,len(g.nodes),r['path'],g.incomplete,i.notes)
print('total %.1f'%(time.time()-tot))
for u,l in sorted(unk.items()): print(u,len(l),l[0])
