import sys
sys.path.insert(0,'/verif/analyzer')
import core,engine
from exits import *
from terms import s
f=core.extract('vec'); e=engine.Engine(f,{'max_steps':1000000})
nm=sys.argv[1]
bid=[i for i in f['roots'] if f['insts'][i]['path'].endswith('::'.join(nm.split('::')))][0]
r=e.run_root(bid)
for v,st in r.outs:
    ex=Exit(r,v,st)
    if len(sys.argv)>2 and not (ex.tag().startswith(sys.argv[2])): continue
    print(ex.tag(), s(ex.value)[:600]); 
    print('B',[(s(b)[:200],v) for b,v in st.facts.b.items()])
    for x in st.facts.render(): print('    ',x[:int(sys.argv[3]) if len(sys.argv)>3 else 300])
    for n,v in ex.vecs.items(): print('  ',n,':',s(v)[:400])
print(len(r.outs),len(r.panics))
