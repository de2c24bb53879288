import sys
sys.path.insert(0,'/verif/analyzer')
import core,engine,effects
from exits import *
from terms import s
f=core.extract('vec'); e=engine.Engine(f,{'max_steps':1000000})
nm=sys.argv[1]
bid=[i for i in f['roots'] if f['insts'][i]['path'].endswith('::'.join(nm.split('::')))][0]
r=e.run_root(bid)
inits=inits_of(r); pre=pre_for(inits)
for v,st in r.outs:
    ex=Exit(r,v,st)
    print('=====',ex.tag())
    if ex.kind=='err': continue
    for env in effects.valuations(e,ex,pre,int(sys.argv[2]) if len(sys.argv)>2 else 2,1):
        try:
            rp=effects.replay(e,ex,env)
        except effects.Undecided as x: print('undecided',x); continue
        except effects.Bad as x: print('bad'); continue
        inv={}
        for n,i0 in inits.items():
            b=s(vec_fields(i0)[0])
            for i in range(40): inv[effects.hf(env.salt,'cell',b,i)]='%s%d'%(n,i)
        bad=[x for x in env.holds(env.flat)]
        print(' in', {n:Final(i,env).len()[0] for n,i in inits.items()}, 'nacc',len(rp.accesses), 'FACTS BAD' if bad else '', bad[:2])
        for n,fv in ex.vecs.items():
            F=Final(fv,env); d=F.data; b=s(d.a[0]) if d.op=='rvec' else s(d)
            l=F.len()[0]
            print('  ',n,b,l,[ (lambda x: inv.get(x, '?' if isinstance(x,effects.Opq) else str(x)[:14]))(env.at(b,i)) for i in range(l or 0)])
