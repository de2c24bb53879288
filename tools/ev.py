"""ev.py mod::op [tagprefix] [width]: event trees of the exit paths"""
import sys
sys.path.insert(0,'/verif/analyzer')
import core,engine
from exits import *
from terms import s
f=core.extract('vec'); e=engine.Engine(f,{'max_steps':1000000})
nm=sys.argv[1]; W=int(sys.argv[3]) if len(sys.argv)>3 else 200
bid=[i for i in f['roots'] if f['insts'][i]['path'].endswith('::'.join(nm.split('::')))][0]
r=e.run_root(bid)
def show(t,ind):
    if isinstance(t,(list,tuple)):
        for x in t: show(x,ind+1)
    else:
        print('  '*ind+s(t)[:W])
for v,st in r.outs:
    ex=Exit(r,v,st)
    if len(sys.argv)>2 and not (ex.tag().startswith(sys.argv[2])): continue
    print('=====',ex.tag());
    for x in st.facts.render(): print('    F',x[:W])
    show(engine.log_tree(st.log),0)
