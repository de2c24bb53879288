"""panics reachable: pn.py MOD [ops]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analyzer"))
import core, main, panics
mod = sys.argv[1]; ops = sys.argv[2:]
facts = core.extract("vec")
def fn(e, n, r): return panics.check_root(e, n, r, 6, 1)
res = core.analyse(facts, fn, lambda n: n.split("::")[0] == mod and (not ops or n.split("::")[-1] in ops), dict(main.opts(), panics=True))
t = {}
for n, (o, a, dt) in sorted(res.items()):
    if a: print(n, a); continue
    for k in ("panics", "reach", "opaque", "infeasible"): t[k] = t.get(k, 0) + o[k]
    for x in o["viol"]: print(n, x)
print(t)
for n, (o, a, dt) in sorted(res.items(), key=lambda x: -x[1][2])[:12]: print(n, round(dt, 1), o and (o["panics"], o["sites"], o["skipped"]))
