"""Construction of vectors from storage and conversions back to it.

The result of every constructor and conversion is a term over its arguments, its effects on the storage are summarised.  Both are
evaluated for fixed lengths, capacities and kinds, and compared with what the constructor is documented to make of its storage:
the samples in their order, the length (nothing for an odd number of floats which should be complex), kind and sample distance.
Raw parts have to describe the allocation they're made from, and there is no input for which a conversion panics."""
import funrule
import effects
from datacheck import consistent
from effects import REnv
from evalr import Skip, flatten, hf
from exits import Exit
from terms import T, s, mk, sym
from funrule import new, und

KINDS = ("vec", "boxed", "slice", "slicemut", "array", "inline")
SIZE = {"f": 1, "c": 2}
SPACE = {"r": "Real", "c": "Complex"}
META = {"clone_gen": ("v.delta", "TimeOrFreq#0{v.domain.domain_current}", "RealOrComplex#0{v.number_space.is_complex_current}", "v.valid_len", "v.multicore_settings"),
        "clone_cf": ("v.delta", "Freq#0{}", "Complex#0{}", "v.valid_len", "v.multicore_settings")}
DOM = {"t": "Time", "f": "Freq"}


def want(name):
    m = name.split("::")[0]
    return m[:-2] in KINDS


def cases(kind, op, deep):
    """-> ints of a valuation, and what it stands for"""
    ls = [0, 1, 2, 3, 6, 7] + ([4, 5, 9, 12, 15, 16] if deep else [16])
    r = []
    for n in ls:
        for extra in (0, 1, 2, 5) if kind == "vec" else (0,):
            c = 16 if kind == "array" else n + extra
            if op in ("gen", "dsp_gen"):
                for x in (0, 1):
                    for dom in (0, 1):
                        r.append(dict(n=n, c=c, cx=x, dom=dom))
            elif op.startswith(("get", "into", "clone")):
                for v in sorted({0, n // 2 // 2 * 2, n // 2 * 2, n}):
                    if not (op.endswith("ct") or op.endswith("cf")) or v % 2 == 0:
                        r.append(dict(n=n, c=c, v=v))
            elif op.startswith("interleave"):
                r.append(dict(n=n, c=c, o=n))
                r.append(dict(n=n, c=c, o=n + 1))
                r.append(dict(n=n + 2, c=c + 2, o=n))
            else:
                r.append(dict(n=n, c=c))
    return r


def ints(case):
    d = {"len(d)": case["n"], "cap(d)": case["c"], "len(v.data)": case["n"], "cap(v.data)": case["c"], "len(o)": case.get("o", 0),
         "v.valid_len": case.get("v", 0)}
    if "cx" in case:
        d.update({"is_complex": case["cx"], "domain": case["dom"], "m.number_space.is_complex_current": case["cx"], "m.domain.domain_current": case["dom"]})
    return d


def envs(e, facts, case, seed, R, log):
    import random
    rnd = random.Random("%s %s" % (seed, sorted(case.items())))
    for _ in range(16 if facts.alts else 1):
        f = flatten(facts, rnd)
        if f is None:
            continue
        m = funrule.mentions
        g = type(f)({k: v for k, v in f.iv.items() if not m(k)}, {k: v for k, v in f.ne.items() if not m(k)}, {k: v for k, v in f.b.items() if not m(k)})
        env = REnv(rnd, dict(ints(case), REG=R), 8)
        env.salt = "%s %s" % (seed, sorted(case.items()))
        env.slices, env.R = {}, R
        if env.holds(g):
            continue
        env.memo.clear()
        env.flat = f
        yield env


class Odd(Exception):
    pass


def num(env, t):
    env.opaque = False
    v = env.i(t)
    if env.opaque:
        raise effects.Undecided("abstracted value")
    return v


def storage(env, t):
    """-> (base, first float, number of elements, unit of them or None)"""
    if t.op == "ref" and t.a[0][0] == "X" and not t.a[1]:
        t = t.a[0][1]
    if t.op == "rvec":
        return env.bkey(t.a[0]), 0, num(env, t.a[1]), None
    if t.op == "slice":
        b, s0, en, u = t.a
        return env.bkey(b), num(env, s0), (num(env, en) - num(env, s0)) // SIZE.get(u, 1), u
    if t.op in ("sym", "fld"):
        return s(t), 0, num(env, mk("len", t)), None
    raise effects.Undecided("storage %s" % t.op)


def kind_of(t):
    return t.a[0].split("::")[-1] if t.op == "agg" else None


def raw_parts(env, log, out, name):
    """the parts a vector is made of have to be the allocation they come from"""
    box = {}
    for ev in effects.chain(log):
        if ev.op in ("loop", "alt"):
            continue
        a = ev.a
        if a[0] == "box":
            box[env.bkey(a[1])] = num(env, a[2]) * SIZE.get(a[3], 1)
        elif a[0] == "raw":
            b = env.bkey(a[1])
            if b not in box:
                und(out, "raw parts")
                continue
            n, c, k = num(env, a[3]), num(env, a[4]), SIZE.get(a[5], 1)
            out["compared"] += 1
            if num(env, a[2]) != 0 or c * k != box[b] or n > c:
                out["viol"].append(("raw", "%s makes a vector of %d elements and a capacity of %d from an allocation of %d floats" % (name, n, c, box[b])))


def content(env, out, name, what, got, exp):
    for i, (g, w) in enumerate(zip(got, exp)):
        out["compared"] += 1
        if isinstance(g, effects.Opq) or isinstance(g, tuple):
            und(out, "abstracted value")
            return
        if g != w:
            out["viol"].append(("content", "%s: float %d of the %s isn't the one of the input" % (name, i, what)))
            return


def expect(out, name, key, what, got, wanted, at):
    out["compared"] += 1
    if got != wanted:
        out["viol"].append((key, "%s%s: %s is %s instead of %s" % (name, at, what, got, wanted)))


def judge(env, out, name, kind, op, case, ret, ex):
    n, c = case["n"], case["c"]
    at = " with %d elements" % n
    cells = lambda b, k: [hf(env.salt, "cell", b, i) for i in range(k)]
    if op.startswith("get"):
        if not (ret.op == "agg" and ret.a[0] == "tuple"):
            raise effects.Undecided("value")
        b, f, k, u = storage(env, ret.a[2][0])
        z = 2 if op in ("get_ct", "get_cf") else 1
        v = case["v"]
        at += " of which %d are valid" % v
        expect(out, name, "length", "the number of valid elements", num(env, ret.a[2][1]), v // z, at)
        if f or k * z < v:
            out["viol"].append(("content", "%s%s returns storage of %d elements" % (name, at, k)))
            return
        content(env, out, name, "storage", [env.at(b, i) for i in range(v)], cells("v.data", v))
        return
    if op.startswith("clone"):
        if kind_of(ret) != "DspVec":
            raise effects.Undecided("value")
        for t, w in zip(ret.a[2][1:], META[op]):
            expect(out, name, "meta", "a property", s(t), w, at)
        b, f, k, u = storage(env, ret.a[2][0])
        expect(out, name, "length", "the length of the storage", k, n, at)
        content(env, out, name, "vector", [env.at(b, i) for i in range(min(k, n))], cells("v.data", n))
        return
    if op.startswith("into"):
        b, f, k, u = storage(env, ret)
        z = 2 if op in ("into_ct", "into_cf") else 1
        v = case["v"]
        at += " of which %d are valid" % v
        expect(out, name, "length", "the number of elements", k, v // z, at)
        content(env, out, name, "result", [env.at(b, i) for i in range(min(v, k * z))], cells("v.data", v))
        return
    if op.startswith("interleave"):
        bad = case["o"] != n
        at = " of %d and %d elements" % (n, case["o"])
        if kind_of(ret) != "Result":
            raise effects.Undecided("value")
        expect(out, name, "result", "the result", "Err" if ret.a[1] else "Ok", "Err" if bad else "Ok", at)
        if ret.a[1] or bad:
            return
        ret = ret.a[2][0]
        x = cells("d", n), cells("o", n)
        exp = [x[i % 2][i // 2] for i in range(2 * n)]
    elif op.startswith("complex"):
        exp = cells("d", 2 * n)
    else:
        exp = cells("d", n)
    if kind_of(ret) != "DspVec":
        raise effects.Undecided("value")
    d, delta, dom, space, valid, mc = ret.a[2]
    if op in ("gen", "dsp_gen"):
        cx = case["cx"]
        for t, k, w in ((dom, "domain", case["dom"]), (space, "number space", cx)):
            expect(out, name, "kind", "the " + k, num(env, t.a[2][0]), w, at)
    else:
        o = op[-2:]
        cx = o[0] == "c"
        for t, k, w in ((dom, "domain", DOM[o[1]]), (space, "number space", SPACE[o[0]])):
            expect(out, name, "kind", "the " + k, kind_of(t), w, at)
    n = len(exp)
    length = n if not cx or n % 2 == 0 else 0
    expect(out, name, "length", "the length", num(env, valid), length, at)
    if op.startswith("dsp_"):
        for t, w in ((delta, "m.delta"), (mc, "m.multicore_settings")):
            expect(out, name, "meta", "a property", s(t), w, at)
    else:
        env.opaque = False
        expect(out, name, "delta", "the sample distance", env.f(delta), 1, at)
    b, f, k, u = storage(env, d)
    if f or k < length or k * SIZE.get(u, 1) < length:
        out["viol"].append(("content", "%s%s stores only %d elements" % (name, at, k)))
        return
    content(env, out, name, "vector", [env.at(b, i) for i in range(length)], exp)


def check(e, name, r, deep=False, seed=1):
    out = new()
    mod, op = name.split("::")
    kind, R = mod[:-2], 4 if mod.endswith("32") else 2
    exits = [Exit(r, v, st) for v, st in r.outs]
    out["paths"] = len(exits)
    for case in cases(kind, op, deep):
        found = panics(e, out, name, r, case, seed, R)
        for ex in exits if not found else ():
            for env in envs(e, ex.facts, case, seed, R, ex.st.log):
                try:
                    env.memo.clear()
                    effects.replay(e, ex, env, 1, False, budget=60000, maxiter=400)
                    if not consistent(env):
                        continue
                    env.memo.clear()
                    found = True
                    raw_parts(env, ex.st.log, out, name)
                    judge(env, out, name, kind, op, case, ex.v if hasattr(ex, "v") else ex.ret, ex)
                    break
                except effects.Undecided as x:
                    und(out, str(x)[:60])
                    found = True
                    break
                except (effects.Bad, Skip):
                    continue
            if found:
                break
        if not found:
            und(out, "no path for %s" % sorted(case.items()))
    return out


def panics(e, out, name, r, case, seed, R):
    """is there a panicking path for this input?"""
    import panics as pn
    for p in r.panics:
        f = p[2]
        if pn.abstract(f, {}):
            continue
        for env in envs(e, f, case, seed, R, p[4]):
            class X:
                pass
            try:
                bad = env.holds(env.flat) if not any(funrule.mentions(k) for g in (f.iv, f.ne, f.b) for k in g) else None
            except Skip:
                continue
            if bad is None:
                # counters: a loop which isn't left before the panic has no more than the possible iterations
                bad = counters(env)
            if not bad:
                out["compared"] += 1
                out["viol"].append(("panic", "%s panics (%s) for %s" % (name, p[0], ", ".join("%s=%s" % z for z in sorted(case.items())))))
                return True
    return False


def counters(env):
    """is there a number of iterations for which the facts hold?"""
    f = env.flat
    ks = sorted({k for g in (f.iv, f.ne, f.b) for t in g for k in kvars(t)}, key=s)
    if len(ks) > 1:
        return True
    for v in range(0, 40):
        env.memo.clear()
        env.ints[s(ks[0])] = v
        try:
            if not env.holds(f):
                return False
        except Skip:
            pass
    return True


def kvars(t):
    if isinstance(t, T):
        if t.op == "kvar":
            return {t}
        return set().union(*[kvars(x) for x in t.a if isinstance(x, (T, tuple))] or [set()])
    return set().union(*[kvars(x) for x in t if isinstance(x, (T, tuple))] or [set()])


if __name__ == "__main__":
    import sys
    import core
    f = core.extract("aux")
    res = core.analyse(f, lambda e, n, r: check(e, n, r), lambda n: want(n) and any(a in n for a in sys.argv[1:]), {"max_steps": 1000000, "panics": 1})
    for k, (o, a, dt) in sorted(res.items()):
        print(k, a or {x: o[x] for x in ("paths", "compared", "undecided")}, round(dt, 1))
        for v in (o or {}).get("viol", [])[:3]:
            print("   ", v)
