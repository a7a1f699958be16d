import sys,collections
from dbg import *
p=Prog(sys.argv[1]); pat=sys.argv[2]
r=[r for r in p.roots if r['canon'].endswith(pat)][0]
i=Interp(p,Handlers(),max_nodes=4000)
import types
g0=i.run
keep={}
orig=i.node
def node(st):
    n=orig(st); keep[n.id]=(st.loc,st.mem,st.facts,[ (p.bodies[f[0]]['canon'],f[1]) for f in st.frames]); return n
i.node=node
g=i.run(r['inst'])
c=collections.Counter(n.point for n in g.nodes if n.point)
for pt,k in c.most_common(3):
    ids=[n.id for n in g.nodes if n.point==pt][:4]
    print(k, keep[ids[0]][3][-4:])
    base=keep[ids[0]]
    for j in ids[1:]:
        o=keep[j]
        for nm,a,b in (('loc',base[0],o[0]),('mem',base[1],o[1]),('facts',base[2],o[2])):
            for q in set(a)|set(b):
                if a.get(q)!=b.get(q): print('   ',nm,q,str(a.get(q))[:300],' <> ',str(b.get(q))[:300])
        print('   --')
