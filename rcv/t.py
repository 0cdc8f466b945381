import sys,time
sys.path.insert(0,'/verif/rcv'); sys.path.insert(0,'/verif/contracts')
sys.setrecursionlimit(20000)
import importlib, oblig, harn
m=importlib.import_module(sys.argv[1].lower())
tier='thorough' if '-t' in sys.argv else 'quick'
pat=[a for a in sys.argv[2:] if not a.startswith('-')]
obs=[o for o in {o.id: o for o in m.obligations(tier)}.values() if not pat or any(p in o.id for p in pat)]
harn.get_prog()
t0=time.time()
r=oblig.run_all(obs)
for o in obs:
    x=r[o.id]; print('%-8s %6.1fs %s %s'%(x.status,x.secs,o.id,(x.detail[-300:].replace(chr(10),' ') if x.status=='unknown' else x.detail[:400]) if x.status!='proved' or x.detail else ''))
print(len(obs),'obligations',sum(x.status=='proved' for x in r.values()),'proved %.1fs'%(time.time()-t0))
