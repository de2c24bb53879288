import sys,json,os
sys.path.insert(0,'/verif/analyzer')
import core,contracts,time
f=core.extract('vec')
mods=sys.argv[1].split(',')
ops=sys.argv[2].split(',') if len(sys.argv)>2 else None
t=time.time()
res=core.analyse(f,contracts.check_root,lambda n:n.split('::')[0] in mods and (not ops or n.split('::')[1] in ops),{'max_steps':1000000})
tot={}
for n,(o,ab,dt) in sorted(res.items()):
    if ab: print('ABORT',n,ab[:150]); continue
    for k in ('paths','samples','obl','undecided','unsampled'): tot[k]=tot.get(k,0)+o[k]
    if o['nospec']: print('NOSPEC',n)
    for a,k,m in o['viol']: print(a,k,'|',m[:int(os.environ.get('W','150'))])
print(tot,time.time()-t)
if os.environ.get('DT'):
    for n,(o,ab,dt) in sorted(res.items(),key=lambda x:-x[1][2])[:12]: print(n,round(dt,1),o and o['paths'],o and o['unsampled'])
    print([ (n,o['unsampled']) for n,(o,ab,dt) in res.items() if o and o['unsampled']])
