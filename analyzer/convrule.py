"""Convolutions: the effect summaries of `convolve_signal` and of `convolve` with a function are compared with the definition of the
circular convolution, under valuations which fix the number of points (the number of points selects the algorithm: direct sum, or
registers with shifted copies of the impulse response)."""
import random
from fractions import Fraction as Fr

import data
import effects
from datacheck import RUN, base_of, drawn, compare_runs, consistent, content, names, diff, outputs
from effects import REnv
from evalr import Skip, hf, sample
from exits import Exit, Final, inits_of, pre_for, vec_fields
from terms import T, s, mk, sym

BIG = dict(budget=400000, maxiter=3000)


def circular(c, x, h, zero):
    """out[i] = sum over k of h[k] * x[i + ceil(M / 2) - 1 - k], positions wrap around"""
    n, m = len(x), len(h)
    off = m - m // 2 - 1
    out = []
    for i in range(n):
        t = zero
        for k in range(m):
            t = c.op("+", t, c.op("*", x[(i + off - k) % n], h[k]))
        out.append(t)
    return out


def atoms(i0):
    """names of the quantities of a vector: length, storage length, number space, domain"""
    fs = vec_fields(i0)
    d = fs[0].a[0] if fs[0].op == "rvec" else fs[0]
    return s(fs[4]), s(mk("len", d)), fs[3], fs[2]


def op_signal(c, env, case):
    return circular(c, c.v.p(), c.o.p(), zero(c.v.cx))


def op_function(c, env, case):
    """out[i] = sum over m = -L..L of x[(i + m) mod n] * f(-m * ratio)"""
    x = c.v.p()
    n, cx = len(x), c.v.cx
    L = min(env.i(sym("len")), n)
    r = env.f(sym("ratio"))
    h = {}
    for m in range(-L, L + 1):
        z = env.call(mk("call", FUN + "calc", sym("f"), KF(-m * r)))
        if case.get("fcx"):
            z = ("C", hf(env.salt, "fld", z, 0), hf(env.salt, "fld", z, 1))
        h[m] = z
    out = []
    for i in range(n):
        t = zero(cx)
        for m in range(-L, L + 1):
            t = c.op("+", t, c.op("*", x[(i + m) % n], h[m]))
        out.append(t)
    return out


FUN = "basic_dsp_vector::conv_types::RealImpulseResponse::"


def KF(x):
    return mk("kf", str(float(x)))


def zero(cx):
    return ("C", Fr(0), Fr(0)) if cx else Fr(0)


def sig(n, m, cx, extra):
    return {"v": n, "o": m, "cx": cx, "extra": extra}


def fun(n, L, cx, extra, ratio=Fr(1), fcx=False):
    return {"v": n, "cx": cx, "extra": extra, "ints": {"len": L}, "floats": {"ratio": ratio}, "fcx": fcx}


SIGNAL = [sig(4, 3, False, 0), sig(7, 4, True, 2), sig(5, 5, False, 1), sig(1, 1, True, 0), sig(1003, 13, False, 3), sig(502, 7, True, 0)]
SMALL = [fun(5, 2, False, 0), fun(6, 1, True, 2), fun(4, 4, False, 1), fun(3, 6, False, 0), fun(5, 2, False, 0, Fr(1, 2)),
         fun(4, 0, True, 0, Fr(3, 2)), fun(4, 1, True, 0, Fr(2))]
OPS = {"convolve_signal": (op_signal, SIGNAL),
       "convolve_real": (op_function, SMALL + [fun(2001, 6, False, 3), fun(1001, 3, True, 0)]),
       "convolve_complex": (op_function, [dict(x, fcx=True) for x in SMALL + [fun(1001, 3, True, 0)] if x["cx"]])}
MORE = {"convolve_signal": [sig(1002, 12, False, 0), sig(1001, 202, False, 1), sig(501, 6, True, 2), sig(504, 9, True, 2), sig(30, 29, True, 0)],
        "convolve_real": [fun(2003, 40, False, 0), fun(1002, 8, True, 2), fun(9, 9, True, 2, Fr(3, 4))],
        "convolve_complex": [fun(1002, 8, True, 2, fcx=True), fun(9, 9, True, 2, Fr(3, 4), fcx=True)]}


def fixed_for(inits, case):
    fx = dict(case.get("ints", {}))
    cx = case["cx"]
    for vn in ("v", "o"):
        if vn not in case:
            continue
        if vn not in inits:
            return None
        ln, st, c, d = atoms(inits[vn])
        k = case[vn] * (2 if cx else 1)
        fx[ln] = k
        fx[st] = k + case["extra"]
        if isinstance(c, int):
            if bool(c) != cx:
                return None
        else:
            fx[s(c)] = int(cx)
    return fx


class AnyOf:
    """a sample which may hold one of some values"""

    def __init__(self, vals):
        self.vals = vals

    def __eq__(self, y):
        return y in self.vals

    def __hash__(self):
        return 0

    def __str__(self):
        return str(self.vals[0])


class Alts(list):
    """contents of which one has to be met as a whole; known: contents which violate the property in a way which has a name"""

    def __init__(self, xs=()):
        list.__init__(self, xs)
        self.known = {}


def label(case):
    if "label" in case:
        return case["label"]
    return "%s%s%s" % (case["v"], "*%d" % case["o"] if "o" in case else "*%d@%s" % (case["ints"]["len"], case["floats"]["ratio"]),
                       "c" if case["cx"] else "")


def flat(ps):
    out = []
    for p in ps:
        if isinstance(p, AnyOf) and isinstance(p.vals[0], tuple):
            out += [AnyOf([x[1] for x in p.vals]), AnyOf([x[2] for x in p.vals])]
        elif isinstance(p, tuple):
            out += p[1:]
        else:
            out.append(p)
    return out


def check(e, name, r, seed, mode="spec", deep=False, ops=None, more=None):
    """mode spec: against the definition; parts, stale, bounds: see datacheck.variants"""
    out = {"paths": 0, "valuations": 0, "compared": 0, "undecided": {}, "viol": [], "cases": {}}
    op = name.split("::")[-1]
    inits = inits_of(r)
    ops, more = (OPS, MORE) if ops is None else (ops, more)
    if op not in ops or "v" not in inits:
        return out
    R = 4 if name.split("::")[0].endswith("32") else 2
    expected, cases = ops[op]
    if deep:
        cases = cases + more.get(op, [])

    def und(k):
        out["undecided"][k] = out["undecided"].get(k, 0) + 1
    exits = [Exit(r, v, st) for v, st in r.outs]
    out["paths"] = len(exits)
    pre0 = pre_for(inits)
    for case in cases:
        fx = fixed_for(inits, case)
        if fx is None:
            continue
        big = case["v"] > 500
        if mode != "spec" and case["v"] > 1200:
            continue

        def pre(env, case=case):
            for k, v in case.get("floats", {}).items():
                env.floats[k] = v
            return pre0(env)
        done = False
        for ex in exits:
            if ex.kind != "ok":
                continue
            for env in valuations(e, ex, pre, fx, 1, seed, R):
                ints = dict(env.ints)
                env.circle = case.get("circle", False)
                c = data.Ctx(env, inits)
                sz = "%s: %s" % ("complex" if case["cx"] else "real", label(case))
                try:
                    env.memo.clear()
                    env.opaque = False
                    if mode == "reject":
                        out["valuations"] += 1
                        effects.replay(e, ex, env, 1, False, **BIG)
                        if not consistent(env):
                            continue
                        if not decided(env):
                            und("abstracted condition")
                            continue
                        out["viol"].append(("accepted", "%s of %s: accepted, although it is documented to fail" % (op, sz)))
                        done = True
                        continue
                    if mode == "spec":
                        exp = expected(c, env, case)
                        known = {k: [flat(x) for x in v] for k, v in getattr(exp, "known", {}).items()}
                        exp = [flat(x) for x in exp] if isinstance(exp, Alts) else [flat(exp)]
                    rp = effects.replay(e, ex, env, 1, mode == "bounds", **BIG)
                    if not consistent(env):
                        continue
                except effects.Undecided as x:
                    und(str(x)[:60])
                    continue
                except (effects.Bad, Skip, data.Free):
                    continue
                done = True
                out["valuations"] += 1
                if mode == "bounds":
                    out["compared"] += rp.inb
                    for ev, b, i, n, lo, hi in rp.oob[:1]:
                        out["viol"].append(("access", "%s: positions %s..%s of %s accessed through a slice of the positions %s..%s" % (
                            s(ev.a[-1])[:160], i, i + n, b, lo, hi)))
                    continue
                n, _ = Final(ex.vecs["v"], env).len()
                if mode == "spec":
                    if n != len(exp[0]):
                        und("length")
                        continue
                    got = case["got"](env, n) if "got" in case else content(env, ex.vecs["v"], n)
                    for x in exp:
                        m, u, k = diff(x, got, env, names(env, inits))
                        if not m:
                            break
                    out["compared"] += k
                    if u:
                        und("abstracted value")
                    if m:
                        kind = "complex" if case["cx"] else "real"
                        for q, v in known.items():
                            if not all(diff(x, got, env, names(env, inits))[0] for x in v):
                                kind += ", " + q
                                break
                        out["viol"].append((kind, "%s of %s points: %s" % (op, sz, m)))
                    continue
                res = {"v": content(env, ex.vecs["v"], n)}
                ints = drawn(env, ints)
                if mode == "parts":
                    todo = [(2, None)] if big else [(2, None), (-3, None), (4, None)]
                else:
                    todo = [(1, {base_of(i0): env.i(vec_fields(i0)[4]) for i0 in inits.values()})]
                for parts, alt in todo:
                    env.again(ints, alt)
                    for k, v in case.get("floats", {}).items():
                        env.floats[k] = v
                    try:
                        effects.replay(e, ex, env, parts, **BIG)
                        if not consistent(env):
                            und("other path")
                            continue
                    except effects.Undecided as x:
                        und(str(x)[:60])
                        continue
                    except (effects.Bad, Skip):
                        und("other path")
                        continue
                    d, k, u = compare_runs(res, {"v": content(env, ex.vecs["v"], n)})
                    out["compared"] += k
                    if u:
                        und("abstracted value")
                    if d:
                        out["viol"].append((d[0], "%s of %s points: %s, position %s" % (
                            op, sz, "divided into %d chunks the result differs" % abs(parts) if mode == "parts" else
                            "the result depends on storage outside of the valid samples", d[1])))
        out["cases"][label(case)] = done or out["cases"].get(label(case), False)
    return out


def decided(env):
    """are all the conditions of the path followed by the analysis?"""
    f = env.flat
    for k in [*f.iv, *f.ne, *f.b]:
        env.memo.clear()
        env.opaque = False
        try:
            env.i(k)
        except Skip:
            return False
        if env.opaque:
            return False
    return True


def valuations(e, ex, pre, fx, n, seed, R):
    cs = effects.log_chunks(ex.st.log)
    sl = {}
    for k, v in e.chslices.items():
        w = [x for x in sorted(v, key=lambda z: z.id) if x in cs]
        if w:
            sl[k] = w

    def setup(env):
        env.slices = sl
        env.R = R
        env.ints["REG"] = R
    last = {}

    def inputs(f):
        """the facts which only depend on the inputs; the replay decides on the others"""
        last["f"] = f
        def keep(x):
            return not mentions(x)
        return type(f)({k: v for k, v in f.iv.items() if keep(k)}, {k: v for k, v in f.ne.items() if keep(k)}, {k: v for k, v in f.b.items() if keep(k)})
    out = []
    for k in range(n):
        for env in sample(ex.facts, 1, pre, seed="%s %d" % (seed, k), big=8, tries=200, fixed=dict(fx, REG=R), cls=REnv, setup=setup, steps=60, tighten=inputs,
                          refuted=refutes(pre, dict(fx, REG=R), setup)):
            env.flat = last["f"]
            out.append(env)
    return out


PURE = ("lin", "prod", "div", "rem", "max", "min", "ite", "fcmp", "and", "or", "not", "beq", "f+", "f-", "f*", "f/", "fneg", "fabs", "i2f", "f2i", "fround", "ffloor", "fceil")


def refutes(pre, fx, setup):
    """does a set of facts contradict the fixed inputs?"""
    env = REnv(random.Random(1), dict(fx), 8)
    setup(env)
    memo, known = {}, {}
    try:
        pre(env)
    except Skip:
        return None

    def fixed(t):
        if not isinstance(t, T):
            return not isinstance(t, tuple) or all(fixed(x) for x in t)
        r = known.get(t)
        if r is None:
            r = known[t] = s(t) in fx or s(t) in env.floats or t.op in PURE and all(fixed(x) for x in t.a)
        return r

    def go(f):
        r = memo.get(id(f))
        if r is None:
            g = type(f)({k: v for k, v in f.iv.items() if fixed(k)}, {k: v for k, v in f.ne.items() if fixed(k)}, {k: v for k, v in f.b.items() if fixed(k)})
            env.memo.clear()
            r = memo[id(f)] = (bool(env.holds(g)), f)
        return r[0]
    return go




def mentions(t, memo={}):
    if not isinstance(t, T):
        return isinstance(t, tuple) and any(mentions(x) for x in t)
    r = memo.get(t)
    if r is None:
        r = memo[t] = t.op in RUN or any(mentions(x) for x in t.a if isinstance(x, (T, tuple)))
    return r


def cli(ops, more):
    import sys
    import time
    import core
    f = core.extract("vec")
    mode = sys.argv[1]
    t = time.time()
    res = core.analyse(f, lambda e, n, r: check(e, n, r, 1, mode, False, ops, more),
                       lambda n: n.split("::")[-1] in ops and (len(sys.argv) < 3 or n in sys.argv[2:]), {"max_steps": 1000000})
    for k, (o, a, dt) in res.items():
        print(k, a or {x: o[x] for x in ("paths", "valuations", "compared", "undecided")}, [c for c, d in (o or {}).get("cases", {}).items() if not d], dt)
        for v in (o or {}).get("viol", [])[:4]:
            print("   ", v)
    print(time.time() - t)


if __name__ == "__main__":
    cli(OPS, MORE)
