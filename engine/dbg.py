import sys, time
sys.path.insert(0,'/verif/engine')
from interp import *
from handlers import *
def dump(g, full=True, maxn=400):
    if g.incomplete: print("INCOMPLETE", g.incomplete)
    print(len(g.nodes),"nodes; unknown:", g.unknown_calls)
    for n in g.nodes[:maxn]:
        if n.term: continue
        for l,m in n.succ:
            t=g.nodes[m]
            print(n.id,'->',m if not t.term else 'END', str(l)[:600])
            if l.kind=='ret' and l.mem: print('      mem', {str(k):str(v)[:200] for k,v in l.mem.items()})
if __name__=='__main__':
    p=Prog(sys.argv[1])
    pat=sys.argv[2]
    for r in p.roots:
        if pat in r['canon'] or pat in r['path']:
            if r.get('derived'): continue
            t=time.time()
            i=Interp(p,Handlers(), sticky='all' if '-s' in sys.argv else False)
            g=i.run(r['inst'])
            print('==',r['path'],r.get('traitref',''),r['span'], '%.2fs'%(time.time()-t), i.notes)
            if '-q' in sys.argv: print('  ',len(g.nodes),g.incomplete, list(g.unknown_calls))
            else: dump(g)
