import sys,time
sys.path.insert(0,'/verif/engine')
import prog, contract, contracts
t=time.time()
p=prog.Prog(__import__('os').environ.get('VERIF_REPO','/repo'), '/tmp/w/ir2' if 'VERIF_REPO' not in __import__('os').environ else '/tmp/w/ir3')
print('compiled',time.time()-t, p.errors)
p.contracts=contracts.C
import re, sx
sx.Exec.tb='-v' in sys.argv
pat=sys.argv[1] if len(sys.argv)>1 else '.'
for c in contracts.tasks():
    if not re.search(pat,c.sig): continue
    r=c.run(p,300)
    print('%-60s %3d/%3d %.1fs solver %.1fs calls %d %s'%(c.name[:60],r.ndis,r.nobl,r.time,r.stime,r.solvercalls,r.error or ''))
    for f in r.fails[:6]: print('   FAIL',str(f)[:400])
    if '-v' in sys.argv:
        for q in r.cuts: print('   cut',q)
        print('   used',r.used,'inl',r.inlined)
