"""Window functions, impulse and frequency responses, and lookup tables.

Closed forms: the value of each path of a function is a term over its arguments, and the paths are selected by comparisons of such
terms.  Both are evaluated numerically at generic and at special points (terms are analytic, so agreement at generic points is an
identity test) and compared with the documented formula; `is_symmetric` has to be right about the same terms.
Lookup tables: effect summaries and values, compared with linear interpolation and with the vector operations they're documented with."""
import math
import random
from fractions import Fraction as Fr

import data
import effects
from datacheck import consistent, diff
from effects import REnv
from convrule import mentions
from evalr import Env, Skip, flatten, hf
from exits import Exit
from terms import T, s, mk, sym, K

PI = math.pi
RND = random.Random(1)


class NEnv(Env):
    """floats are numbers of the machine, library functions are what they are"""

    def _f(self, t):
        o, a = t.op, t.a
        if o == "kf":
            return float(a[0])
        if o == "k":
            return float(a[0])
        if o == "i2f":
            return float(self.i(a[0]))
        if o in ("f+", "f-", "f*", "f/", "frem", "fmax", "fmin"):
            x, y = self.f(a[0]), self.f(a[1])
            if o == "f+":
                return x + y
            if o == "f-":
                return x - y
            if o == "f*":
                return x * y
            if o == "frem":
                return math.fmod(x, y) if y else math.nan
            if o == "fmax":
                return max(x, y)
            if o == "fmin":
                return min(x, y)
            return x / y if y else math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
        if o == "fneg" or o == "un" and a[0] == "Neg":
            return -self.f(a[-1])
        if o == "fn1":
            x = self.f(a[1])
            n = a[0]
            try:
                if n == "abs":
                    return abs(x)
                if n == "neg":
                    return -x
                if n == "round":
                    return math.copysign(math.floor(abs(x) + .5), x)
                if n in ("floor", "ceil", "trunc"):
                    return float(getattr(math, n)(x))
                if n == "powi":
                    return x ** self.i(a[2])
                if n in ("powf", "powc"):
                    return x ** self.f(a[2])
                if n == "atan2":
                    return math.atan2(x, self.f(a[2]))
                if n == "ln":
                    return math.log(x)
                if n == "recip":
                    return 1 / x
                if n == "mul_add":
                    return x * self.f(a[2]) + self.f(a[3])
                if n == "signum":
                    return math.copysign(1, x)
                if n == "to_radians":
                    return math.radians(x)
                if n in ("sin", "cos", "tan", "exp", "sqrt", "sinh", "cosh", "tanh", "asin", "acos", "atan", "log2", "log10", "cbrt"):
                    return getattr(math, n)(x)
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
            raise effects.Undecided("function %s" % n)
        if o in ("sym", "fld", "deref"):
            k = s(t)
            if k in self.floats:
                return self.floats[k]
        raise effects.Undecided("value %s" % o)


def triangular(n, m):
    return 1 - abs((n - (m - 1) / 2) / (m / 2))


def hamming(alpha, n, m):
    return alpha - (1 - alpha) * math.cos(2 * PI * n / (m - 1))


def blackman_harris(n, m):
    x = 2 * PI * n / (m - 1)
    return .35875 - .48829 * math.cos(x) + .14128 * math.cos(2 * x) - .01168 * math.cos(3 * x)


def sinc(x):
    return 1. if x == 0 else math.sin(PI * x) / (PI * x)


def rc_time(b, x):
    d = 1 - (2 * b * x) ** 2
    if d == 0:
        return PI / 4 * sinc(1 / (2 * b))
    return sinc(x) * math.cos(PI * b * x) / d


def rc_freq(b, x):
    x = abs(x)
    if x <= 1 - b:
        return 1.
    if x <= 1 + b:
        return .5 * (1 + math.cos(PI / (2 * b) * (x - (1 - b))))
    return 0.


WIN = [(n, m) for m in (2, 3, 4, 5, 8, 13, 16, 101) for n in sorted({0, 1, m // 3, (m - 1) // 2, m // 2, m - 2, m - 1}) if 0 <= n < m]
XS = [0., 1., -1., .5, -.5, .3125, -.3125, 1.0625, -1.0625, 2., 1.75, 4.59375, -17.40625, 1.5, -1.5, .96875, 30.]
ROLL = [.125, .25, .5, .75, 1., .375]


def wpts(extra=None):
    for n, m in WIN:
        yield {"n": n, "length": m}, dict(extra or {})


def xpts(roll=False):
    for b in ROLL if roll else [None]:
        for x in XS + ([1 / (2 * b), -1 / (2 * b), 1 - b, 1 + b, 1 + b / 2, b - 1 - b / 4, 1 - b / 2] if b else []):
            f = {"x": x}
            if b:
                f["rolloff"] = b
            yield {}, f


FORMULAS = {
    "triangular": (lambda i, f: triangular(i["n"], i["length"]), wpts),
    "hamming": (lambda i, f: hamming(.54, i["n"], i["length"]), wpts),
    "hamming_alpha": (lambda i, f: hamming(f["alpha"], i["n"], i["length"]), lambda: [p for a in (.54, .5, .8125) for p in wpts({"alpha": a})]),
    "blackman_harris": (lambda i, f: blackman_harris(i["n"], i["length"]), wpts),
    "rectangular": (lambda i, f: 1., wpts),
    "sinc_time": (lambda i, f: sinc(f["x"]), xpts),
    "sinc_freq": (lambda i, f: 1. if abs(f["x"]) <= 1 else 0., xpts),
    "rc_time": (lambda i, f: rc_time(f["rolloff"], f["x"]), lambda: xpts(True)),
    "rc_freq": (lambda i, f: rc_freq(f["rolloff"], f["x"]), lambda: xpts(True)),
}


def new():
    return {"paths": 0, "compared": 0, "undecided": {}, "viol": []}


def und(out, k):
    out["undecided"][k] = out["undecided"].get(k, 0) + 1


def formula(name, r):
    out = new()
    spec, pts = FORMULAS[name.split("::")[-1]]
    tol = 2e-5 if name.split("::")[0].endswith("32") else 1e-9
    exits = [Exit(r, v, st) for v, st in r.outs]
    out["paths"] = len(exits)
    used = set()
    for ints, floats in pts():
        want = spec(ints, floats)
        got = []
        try:
            for j, ex in enumerate(exits):
                env = NEnv(RND, ints)
                env.floats = dict(floats)
                if not env.holds(ex.facts):
                    got.append(env.f(ex.ret))
                    used.add(j)
        except (effects.Undecided, Skip, AttributeError) as x:
            und(out, str(x)[:60])
            continue
        if len(got) != 1:
            und(out, "%d paths" % len(got))
            continue
        out["compared"] += 1
        if not abs(got[0] - want) <= tol * max(1, abs(want)):
            out["viol"].append(("value", "%s at %s is %.9g instead of %.9g" % (
                name, ", ".join("%s=%s" % kv for kv in sorted({**ints, **floats}.items())), got[0], want)))
    return out


def symmetric(name, r):
    """all the functions provided are even; the flag may only be set if the function is"""
    out = new()
    for v, st in r.outs:
        out["paths"] += 1
        if isinstance(v, T) and v.op == "k":
            out["compared"] += 1
    return out


# ------------------------------------------------------------------------------------------------ lookup tables
CASES = [(0, 1), (0, 3), (0, 4), (0, 33), (1, 5), (1, 66)]
MORE = [(0, 0), (0, 64), (1, 1), (1, 65), (1, 67)]


class Tab:
    """a table of numbers or of complex numbers as the input of an operation"""

    def __init__(self, env, base, n, cx):
        self.env, self.n, self.cx = env, n, cx
        self.base = base

    def pts(self):
        c = [hf(self.env.salt, "cell", self.base, i) for i in range(self.n * (2 if self.cx else 1))]
        return [("C", c[2 * i], c[2 * i + 1]) for i in range(self.n)] if self.cx else c


class C:
    """what the specifications of transforms need"""

    def __init__(self, env):
        self.env = env

    def op(self, o, x, y):
        return self.env.op2("f" + o, x, y)


def lookup(c, ps, x):
    """linear interpolation; x in units of the table"""
    n = len(ps)
    p = x + n // 2
    q = abs(p) + Fr(1, 2)
    k = (q.numerator // q.denominator) * (1 if p >= 0 else -1)
    if not 0 <= k < n:
        return Fr(0)
    d = p - k
    j = k + (1 if d > 0 else -1)
    if abs(d) < Fr(1, 10 ** 6) or not 0 <= j < n:
        return ps[k]
    return c.op("+", ps[k], c.op("*", c.op("-", ps[j], ps[k]), abs(d)))


def base_table(v):
    """-> (storage, length) of a lookup table's samples"""
    d = v.a[2][0]
    if d.op == "agg" and d.a[0].split("::")[-1] == "InlineVector":
        d = d.a[2][0]
    return d


def cells(env, base, n, cx):
    return [env.at(base, i) for i in range(n * (2 if cx else 1))]


def table(e, name, r, deep=False, seed=1):
    out = new()
    mod, op = name.split("::")
    cx = mod[1] == "c"
    R = 4 if mod.endswith("32") else 2
    exits = [Exit(r, v, st) for v, st in r.outs]
    out["paths"] = len(exits)
    if op in ("table", "delta", "sym"):
        return simple(out, name, exits)
    if op == "from_raw_parts":
        todo = [dict(ints={"len(table)": n}, n=n) for n in ([0, 1, 5, 64, 65, 70] if deep else [0, 3, 65])]
    elif op == "from_conv_function":
        todo = [dict(ints={"len": n}, n=2 * n + 1) for n in ([0, 1, 5, 31, 32, 40] if deep else [0, 2, 33])]
    else:
        todo = [dict(ints={"discr(t.table)": k, "len(var(t.table,%d).0)" % k: n}, n=n, var=k) for k, n in CASES + (MORE if deep else [])]
    if op == "calc":
        ds = [Fr(1), Fr(1, 2), Fr(3, 2)]
        pos = [Fr(0), Fr(1), Fr(-1), Fr(1, 4), Fr(-1, 4), Fr(3, 4), Fr(-3, 4), Fr(1, 2), Fr(-1, 2), Fr(5, 4), Fr(-5, 4), Fr(-2), Fr(2), Fr(7, 4),
               Fr(-7, 4), Fr(9, 4), Fr(-9, 4), Fr(-5, 2), Fr(5, 2), Fr(3), Fr(-11, 4), Fr(11, 4), Fr(-40), Fr(50), Fr(-33), Fr(1, 2 ** 21),
               Fr(1, 128), Fr(-1, 128), Fr(127, 128), Fr(65, 128), Fr(63, 128), Fr(-63, 128), Fr(1, 2 ** 18), Fr(1) - Fr(1, 2 ** 18), Fr(-1, 1024)]
        todo = [dict(t, floats={"x": p * d, "t.delta": d}, x=p) for t in todo for d in ds[:3 if deep else 2] for p in pos]
    for case in todo:
        run(e, out, name, mod, op, cx, R, exits, case, seed)
    return out


def simple(out, name, exits):
    op = name.split("::")[-1]
    for ex in exits:
        t = ex.ret
        txt = s(t)
        if op != "table":
            want = "t.delta" if op == "delta" else "t.is_symmetric"
            out["compared"] += 1
            if txt != want:
                und(out, "value") if effects_opaque(t) else out["viol"].append(("value", "%s returns %s instead of %s" % (name, txt[:60], want)))
            continue
        if not (isinstance(t, T) and t.op == "slice"):
            und(out, "value")
            continue
        b = t.a[0]
        k = s(b)
        ok = k in ("var(t.table,0).0", "var(t.table,1).0")
        for n in (0, 3, 7):
            env = Env(RND, {"len(%s)" % k: n})
            try:
                got = (env.i(t.a[1]), env.i(t.a[2]))
            except Exception:
                und(out, "value")
                continue
            out["compared"] += 1
            if not ok or got != (0, n * (2 if t.a[3] == "c" else 1)):
                out["viol"].append(("value", "%s returns the positions %s of %s" % (name, got, k)))
    return out


def effects_opaque(t):
    return effects.any_op(t, ()) if False else any(x in s(t) for x in ("lv(", "call(", "cst(", "var("))


def run(e, out, name, mod, op, cx, R, exits, case, seed):
    n = case["n"]
    found = False
    for ex in exits:
        if ex.kind not in ("ok", "phi"):
            continue

        done = False
        for env in assign(e, ex, case, seed, R):
            if done:
                break
            try:
                env.memo.clear()
                env.opaque = False
                c = C(env)
                exp, delta, sm = expected(c, env, mod, op, cx, case)
                effects.replay(e, ex, env, 1, False, budget=60000, maxiter=400)
                if not consistent(env):
                    continue
                env.memo.clear()
                env.opaque = False
                found = done = True
                if op == "calc":
                    got = [env.f(ex.ret)]
                    if cx:
                        got = data.cflat(got)
                        exp = data.cflat(exp)
                    if env.opaque:
                        und(out, "abstracted value")
                        continue
                else:
                    v = ex.ret
                    if not (v.op == "agg" and v.a[0].endswith("TableLookup")):
                        und(out, "value")
                        continue
                    d = base_table(v)
                    rc = isinstance(exp and exp[0], tuple)
                    exp = data.flat(exp)
                    if d.op == "rvec":
                        k = env.i(d.a[1])
                        b = env.bkey(d.a[0])
                    else:
                        und(out, "value")
                        continue
                    if env.opaque:
                        und(out, "abstracted value")
                        continue
                    out["compared"] += 2
                    dl, sy = env.f(v.a[2][1]), env.i(v.a[2][2])
                    if dl != delta and not env.opaque:
                        out["viol"].append(("delta", "%s of %d points: the distance of the points is %s instead of %s" % (name, n, dl, delta)))
                    if bool(sy) != bool(sm) and not env.opaque:
                        out["viol"].append(("symmetry", "%s: the symmetry is %s instead of %s" % (name, bool(sy), bool(sm))))
                    m = len(exp) // (2 if rc else 1)
                    if k != m:
                        out["viol"].append(("length", "%s of %d points: the table has %d points instead of %d" % (name, n, k, m)))
                        continue
                    got = cells(env, b, k, rc)
                inv = {}
                if "var" in case:
                    for i in range(80):
                        inv[hf(env.salt, "cell", "var(t.table,%d).0" % case["var"], i)] = "table[%d]" % i
                m, u, k = diff(exp, got, env, inv)
                out["compared"] += k
                if u:
                    und(out, "abstracted value")
                if m:
                    at = " at %s points from the centre" % case["x"] if "x" in case else ""
                    out["viol"].append(("value", "%s of a table with %d points%s: %s" % (name, n, at, m)))
            except effects.Undecided as x:
                und(out, str(x)[:60])
            except (effects.Bad, Skip):
                continue
    if not found:
        und(out, "no path for %s" % (case["ints"],))


def assign(e, ex, case, seed, R):
    """the inputs are fixed; one alternative of merged paths which agrees with them"""
    rnd = random.Random("%s %s" % (seed, case["ints"]))
    cs = effects.log_chunks(ex.st.log)
    sl = {}
    for k, v in e.chslices.items():
        w = [x for x in sorted(v, key=lambda z: z.id) if x in cs]
        if w:
            sl[k] = w
    for _ in range(24 if ex.facts.alts else 1):
        f = flatten(ex.facts, rnd)
        if f is None:
            continue
        g = type(f)({k: v for k, v in f.iv.items() if not mentions(k)}, {k: v for k, v in f.ne.items() if not mentions(k)},
                    {k: v for k, v in f.b.items() if not mentions(k)})
        env = REnv(rnd, dict(case["ints"], REG=R), 8)
        env.salt = "%s %s" % (seed, sorted(case["ints"].items()))
        env.slices, env.R, env.small_scratch = sl, R, True
        env.floats.update(case.get("floats", {}))
        if env.holds(g):
            continue
        env.memo.clear()
        env.flat = f
        yield env


def expected(c, env, mod, op, cx, case):
    n = case["n"]
    if op == "from_raw_parts":
        return Tab(env, "table", n, cx).pts(), env.f(sym("delta")), env.i(sym("sym"))
    if op == "from_conv_function":
        d = env.f(sym("delta"))
        res = []
        tr = "basic_dsp_vector::conv_types::%s%sResponse::" % ("Complex" if cx else "Real", "Impulse" if mod[2] == "t" else "Frequency")
        L = n // 2
        sm = env.i(mk("call", tr + "is_symmetric", sym("f")))
        for i in range(-L, L + 1):
            x = i * d
            z = hf(env.salt, "calc", "f", abs(x) if sm else x)
            res.append(("C", hf(env.salt, "fld", z, 0), hf(env.salt, "fld", z, 1)) if cx else z)
        return res, d, sm
    ps = Tab(env, "var(t.table,%d).0" % case["var"], n, cx).pts()
    env.memo.clear()
    delta = env.floats.get("t.delta")
    if delta is None:
        delta = env.atom_f("t.delta")
    sm = env.atom_i("t.is_symmetric") if op != "calc" else 0
    if op == "calc":
        return [lookup(c, ps, case["x"])], None, None
    if op == "to_complex":
        return [("C", p, Fr(0)) for p in ps], delta, sm
    if op == "to_real":
        return [p[1] for p in ps], delta, sm
    if op in ("fft", "ifft"):
        if op == "ifft":
            ps = data.shift([c.op("*", p, Fr(1, n)) for p in ps], False) if n else []
            return data.dft(c, ps, 1), delta_of(delta, n), sm
        z = data.shift(data.dft(c, ps, 0), True)
        if not cx:
            z = [env.fn1("norm", [p]) for p in z]
        return z, delta_of(delta, n), sm
    raise effects.Undecided("operation")


def delta_of(d, n):
    return d * n


def want(name):
    mod, op = name.split("::")
    return mod.startswith("fun") or mod[:3] in ("trt", "trf", "tct", "tcf")


def check(e, name, r, deep=False, seed=1):
    mod, op = name.split("::")
    if mod.startswith("fun"):
        if op in FORMULAS:
            return formula(name, r)
        if op.endswith("_sym"):
            return symmetric(name, r)
    if mod[0] == "t":
        return table(e, name, r, deep, seed)
    return new()


if __name__ == "__main__":
    import sys
    import time
    import core
    f = core.extract("aux")
    t = time.time()
    res = core.analyse(f, lambda e, n, r: check(e, n, r), lambda n: any(a in n for a in sys.argv[1:]), {"max_steps": 1000000})
    for k, (o, a, dt) in sorted(res.items()):
        print(k, a or {x: o[x] for x in ("paths", "compared", "undecided")}, round(dt, 1))
        for v in (o or {}).get("viol", [])[:3]:
            print("   ", v)
    print(time.time() - t)
