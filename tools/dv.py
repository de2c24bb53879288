"""dv.py mode mod [op…]: variant check summary"""
import sys,collections,time
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../analyzer')
import core,datacheck
f=core.extract('vec')
mode,m=sys.argv[1:3]; ops=sys.argv[3:]
def fn(e,name,r): return datacheck.variants(e,name,r,4,1,mode)
t=time.time()
res=core.analyse(f,fn,lambda n:n.split('::')[0]==m and (not ops or n.split('::')[1] in ops),{'max_steps':1000000})
for n,(o,a,dt) in sorted(res.items()):
    if a: print(n,'ABORT',a[:100]); continue
    if not o['paths']: continue
    vs=collections.Counter((x[1],x[2][:150]) for x in o['viol'])
    print('%-34s paths %3d vals %3d cmp %5d %s'%(n,o['paths'],o['valuations'],o['compared'],dict(o['undecided']) or ''))
    for k,c in list(vs.items())[:3]: print('      VIOL x%d'%c,k)
print(time.time()-t)
