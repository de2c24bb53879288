"""Panicking paths: every panic the abstract interpreter meets (failed index, slice and length checks, assertions, unwraps,
explicit panics) has path facts; a valuation of the inputs which satisfies all of them is an input for which the operation panics.
Inside of a chunked execution the chunk is the whole array (one chunk)."""
from terms import T, s, sym, K, mk
import datacheck
import effects
from effects import REnv
from engine import ulen
from evalr import Skip, sample
from exits import inits_of, pre_for


def chunk_events(lg, out):
    """begin events of chunked executions, in order, with those still open at the end"""
    for ev in effects.chain(lg):
        if ev.op in ("loop", "alt"):
            for x in ev.a[1 if ev.op == "loop" else 0:]:
                chunk_events(x, out)
        elif ev.a[0] == "chunkbegin":
            out[ev.a[1]] = ev
        elif ev.a[0] == "chunkend":
            e = out.get(ev.a[1])
            if e is not None:
                out[ev.a[1]] = None


BIG = 1 << 31
ABSTRACT = {"lv", "acc", "fold", "chunkres", "itlen", "uninit", "any", "hv", "phi", "var", "reduce", "veq", "item", "default", "opq",
            "alt", "d_opq", "filtpos", "call", "upd", "cast", "idx", "el", "deref", "cst"}


def abstract(facts, memo):
    """does a fact mention something which the analysis abstracted?"""
    for g in (facts.iv, facts.ne, facts.b):
        for t in g:
            m = memo.get(t)
            if m is None:
                m = memo[t] = datacheck.effects_has(t, ABSTRACT)
            if m:
                return True
    return False


def tighten(f):
    """a counter is left, and a check fails, in the first iteration for which it is possible"""
    iv = None
    for lp, (lo, hi) in f.iv.items():
        if lp.op != "lin" or lo is not None or hi is None:
            continue
        c = [k for x, k in lp.a[1] if x.op == "kvar"]
        if len(c) != 1 or c[0] > 0:
            continue
        if iv is None:
            iv = dict(f.iv)
        iv[lp] = (hi + c[0] + 1, hi)
    return f if iv is None else type(f)(iv, f.ne, f.b, f.alts)


def check_root(e, name, r, nsamp=2, seed=1, per_site=8, total=40000):
    op = name.split("::")[-1]
    out = {"panics": len(r.panics), "reach": 0, "opaque": 0, "infeasible": 0, "skipped": 0, "sites": 0, "viol": []}
    inits = inits_of(r)
    pre0 = pre_for(inits)
    R = 4 if name.split("::")[0].endswith("32") else 2
    seen = set()
    memo = {}
    groups = {}
    for p in r.panics:
        groups.setdefault((p[0], p[1]), {}).setdefault(p[2].key(), p)
    todo = []
    for key, g in groups.items():
        g = list(g.values())
        n = min(len(g), per_site)
        share = max(150, total // len(groups) // n)
        for i in range(n):
            todo.append((key, g[i * len(g) // n], share))
        out["skipped"] += len(g) - n
    out["sites"] = len(groups)
    for key, (what, cur, facts, mem, log), share in todo:
        if key in seen:
            continue
        opened = {}
        chunk_events(log, opened)
        cs = effects.log_chunks(log)
        sl = {}
        for k, v in e.chslices.items():
            w = [x for x in sorted(v, key=lambda z: z.id) if x in cs]
            if w:
                sl[k] = w
        pairs = [(k[0], w[0]) for k, w in sl.items() if k[1] == "p1"]

        def setup(env):
            env.slices = sl
            env.R = R
            env.ints["REG"] = R

        def pre(env):
            pre0(env)
            for site, sli in pairs:
                env.memo.clear()
                ev = [x for x in [opened.get(site)] if x is not None]
                st = env.i(ev[0].a[3]) if ev and isinstance(ev[0].a[3], T) else 1
                n = env.i(ulen(sli))
                c = -(-n // 2)
                c = min(c + (-c) % max(st, 1), n)
                for tag, v in (("p1", (0, c)), ("p2", (c, n - c))):
                    env.chunk[mk("cstart", site, tag)] = v
                    env.chunk[mk("clen", site, tag)] = v
                env.memo.clear()
            for site, ev in opened.items():
                if ev is not None and ev.a[2] in ("get_zipped", "get_chunked_results"):
                    for tag in ("a",):
                        for sli in sl.get((site, tag), ())[:1]:
                            if env.i(ulen(sli)) == 0:
                                raise Skip
        vals = sample(facts, nsamp, pre, seed, big=10, tries=8 * nsamp, steps=30, fixed={"REG": R}, cls=REnv, setup=setup, tighten=tighten, budget=[share])
        if not vals:
            out["infeasible"] += 1
            continue
        hit = False
        for env in vals:
            env.memo.clear()
            env.opaque = False
            try:
                if env.holds(env.flat):
                    continue
            except Skip:
                continue
            if env.opaque or abstract(env.flat, memo) or any(v >= BIG for v in env.ints.values()):
                continue
            hit = True
            szs = " ".join("%s=%d" % (k, v) for k, v in sorted(env.ints.items()) if k in env.used)[:200]
            if key not in seen:
                seen.add(key)
                out["viol"].append((what, s(cur), szs))
            break
        out["reach" if hit else "opaque"] += 1
    return out
