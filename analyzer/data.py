"""Expected samples of the vector operations.  `SPECS[op](c)` maps the initial contents of the vectors of a call (under
one valuation of the inputs) to the contents required afterwards: {vector: [values]} and, under `value`, a scalar.
Values are numbers or values of uninterpreted functions; an operation which has no entry is not decided here."""
from fractions import Fraction as Fr

from terms import T, s, mk, sym, K
from evalr import h, hf, Skip, NAN
from exits import vec_fields, known_b


CONV = "basic_dsp_vector::conv_types::"


class Free(Exception):
    """nothing is required for these inputs"""


class V:
    def __init__(self, c, init):
        self.c = c
        self.fs = vec_fields(init)
        self.base = s(self.fs[0])
        e = c.env
        self.n = e.i(self.fs[4])
        self.cx = bool(known_b(self.fs[3], e))
        self.pts = self.n // 2 if self.cx else self.n

    def __getitem__(self, i):
        return hf(self.c.env.salt, "cell", self.base, i)

    @property
    def delta(self):
        return self.c.env.f(self.fs[1])

    def fl(self):
        return [self[i] for i in range(self.n)]

    def p(self):
        """points"""
        if self.cx:
            return [("C", self[2 * i], self[2 * i + 1]) for i in range(self.pts)]
        return self.fl()


class Ctx:
    def __init__(self, env, inits):
        self.env, self.inits = env, inits
        self.vs = {}

    def __getattr__(self, k):
        w = self.__dict__
        if k in w["vs"]:
            return w["vs"][k]
        if k in w["inits"]:
            w["vs"][k] = V(self, w["inits"][k])
            return w["vs"][k]
        raise AttributeError(k)

    def i(self, nm):
        return self.env.i(sym(nm))

    def f(self, nm):
        return self.env.f(sym(nm))

    def c(self, nm):
        return ("C", self.env.f(sym(nm + ".re")), self.env.f(sym(nm + ".im")))

    def fn(self, n, *x):
        return self.env.fn1(n, list(x))

    def op(self, o, x, y):
        return self.env.op2("f" + o, x, y)


def flat(ps):
    out = []
    for x in ps:
        if isinstance(x, tuple) and x and x[0] == "C":
            out += [x[1], x[2]]
        else:
            out.append(x)
    return out


def cflat(ps):
    """points as complex numbers"""
    out = []
    for x in ps:
        if isinstance(x, tuple) and x and x[0] == "C":
            out += [x[1], x[2]]
        else:
            out += [x, Fr(0)]
    return out


SPECS = {}
GROUP = {}


REAL = {"abs", "wrap", "unwrap", "ln_approx", "exp_approx", "sin_approx", "cos_approx", "log_approx", "expf_approx",
        "powf_approx", "map_inplace", "interpolate_lin", "interpolate_hermite"}
CPLX = {"scale_c", "offset_c", "conj", "multiply_complex_exponential", "map_inplace_c", "fft_shift", "ifft_shift"}


def spec(group, *names):
    def d(fn):
        for n in names:
            def w(c, n=n):
                if n in REAL and c.v.cx or n in CPLX and not c.v.cx:
                    raise Free
                return fn(c, n) if fn.__code__.co_argcount == 2 else fn(c)
            SPECS[n] = w
            GROUP[n] = group
        return fn
    return d


# ------------------------------------------------------------------------------------------------ elementwise
@spec("elem", "add", "sub", "mul", "div")
def _(c, n):
    if c.v.n != c.o.n or c.v.cx != c.o.cx:
        raise Free
    o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[n]
    return {"v": flat(c.op(o, x, y) for x, y in zip(c.v.p(), c.o.p()))}


@spec("elem", "add_smaller", "sub_smaller", "mul_smaller", "div_smaller")
def _(c, n):
    if c.v.cx != c.o.cx or c.o.n == 0 or c.v.n % c.o.n:
        raise Free
    o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[n[:3]]
    q = c.o.p()
    return {"v": flat(c.op(o, x, q[i % len(q)]) for i, x in enumerate(c.v.p()))}


@spec("elem", "scale", "offset")
def _(c, n):
    x = c.f("x")
    return {"v": flat(c.op("*" if n == "scale" else "+", p, x) for p in c.v.p())}


@spec("elem", "scale_c", "offset_c")
def _(c, n):
    x = c.c("x")
    return {"v": flat(c.op("*" if n == "scale_c" else "+", p, x) for p in c.v.p())}


@spec("elem", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sqrt", "ln", "exp")
def _(c, n):
    return {"v": flat(c.fn(n, p) for p in c.v.p())}


@spec("elem", "ln_approx", "exp_approx", "sin_approx", "cos_approx")
def _(c, n):
    return {"v": flat(c.fn(n[:-7], p) for p in c.v.p())}


@spec("elem", "square")
def _(c):
    return {"v": flat(c.op("*", p, p) for p in c.v.p())}


@spec("elem", "root")
def _(c):
    return {"v": flat(c.fn("powf", p, c.op("/", Fr(1), c.f("degree"))) for p in c.v.p())}


@spec("elem", "powf")
def _(c):
    return {"v": flat(c.fn("powf", p, c.f("exponent")) for p in c.v.p())}


@spec("elem", "log")
def _(c):
    return {"v": flat(c.fn("log", p, c.f("base")) for p in c.v.p())}


@spec("elem", "expf")
def _(c):
    return {"v": flat(c.fn("expf", p, c.f("base")) for p in c.v.p())}


@spec("elem", "powf_approx")
def _(c):
    return {"v": [c.fn("powf", p, c.f("x")) for p in c.v.p()]}


@spec("elem", "log_approx")
def _(c):
    return {"v": [c.fn("log", p, c.f("x")) for p in c.v.p()]}


@spec("elem", "expf_approx")
def _(c):
    return {"v": [c.fn("expf", p, c.f("x")) for p in c.v.p()]}


@spec("elem", "abs")
def _(c):
    return {"v": [abs(p) for p in c.v.p()]}


@spec("elem", "wrap")
def _(c):
    x = c.f("x")
    return {"v": [c.op("rem", p, x) for p in c.v.p()]}


@spec("elem", "conj")
def _(c):
    return {"v": flat(("C", p[1], -p[2]) for p in c.v.p())}


@spec("elem", "multiply_complex_exponential")
def _(c):
    # x[j] * exp(i (a j + b)) with a and b multiplied by the sample step
    d = c.v.delta
    a, b = c.op("*", c.f("a"), d), c.op("*", c.f("b"), d)
    e = c.env.unit(b)
    q = c.env.unit(a)
    out = []
    for p in c.v.p():
        out.append(c.op("*", p, e))
        e = c.op("*", e, q)
    return {"v": flat(out)}


@spec("elem", "map_inplace", "map_inplace_c")
def _(c, n):
    return {"v": flat(c.env.user("f", p, i, c.f("arg"), n.endswith("_c")) for i, p in enumerate(c.v.p()))}


def part(c, n):
    def mag(p):
        return c.fn("hypot", p[1], p[2])

    def ph(p):
        return c.fn("atan2", p[2], p[1])
    return {"magnitude": mag, "magnitude_squared": lambda p: p[1] * p[1] + p[2] * p[2], "to_real": lambda p: p[1],
            "to_imag": lambda p: p[2], "phase": ph}[n]


@spec("elem", "magnitude", "magnitude_squared", "to_real", "to_imag", "phase", "magnitude_b", "magnitude_squared_b",
      "to_real_b", "to_imag_b", "phase_b")
def _(c, n):
    f = part(c, n[:-2] if n.endswith("_b") else n)
    if not c.v.cx:
        raise Free
    return {"ret": [f(p) for p in c.v.p()]}


@spec("elem", "get_real", "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase")
def _(c, n):
    f = part(c, {"real": "to_real", "imag": "to_imag"}.get(n[4:], n[4:]))
    if not c.v.cx or c.d.cx:
        raise Free
    return {"d": [f(p) for p in c.v.p()], "v": c.v.fl()}


@spec("elem", "get_real_imag", "get_mag_phase")
def _(c, n):
    if not c.v.cx or c.a.cx or c.b.cx:
        raise Free
    f, g = (part(c, x) for x in (("to_real", "to_imag") if n == "get_real_imag" else ("magnitude", "phase")))
    return {"a": [f(p) for p in c.v.p()], "b": [g(p) for p in c.v.p()], "v": c.v.fl()}


@spec("elem", "set_real_imag", "set_mag_phase")
def _(c, n):
    if c.a.n != c.b.n:
        raise Free
    out = []
    for x, y in zip(c.a.fl(), c.b.fl()):
        if n == "set_real_imag":
            out += [x, y]
        else:
            out += [c.op("*", x, c.fn("cos", y)), c.op("*", x, c.fn("sin", y))]
    return {"v": out}


@spec("elem", "to_complex", "to_complex_b")
def _(c, n):
    if c.v.cx:
        raise Free
    return {"ret": cflat(c.v.fl())}


# ------------------------------------------------------------------------------------------------ reorganisation
def shift(ps, fwd):
    k = (len(ps) + 1) // 2 if fwd else len(ps) // 2
    return ps[k:] + ps[:k]


@spec("reorg", "reverse")
def _(c):
    return {"v": flat(c.v.p()[::-1])}


@spec("reorg", "swap_halves", "fft_shift")
def _(c):
    return {"v": flat(shift(c.v.p(), True))}


@spec("reorg", "ifft_shift")
def _(c):
    return {"v": flat(shift(c.v.p(), False))}


def padded(ps, m, o, cx):
    z = Fr(0)
    z = ("C", z, z) if cx else z
    d = m - len(ps)
    if o == 0:
        ps = ps + [z] * d
    elif o == 1:
        ps = [z] * (d - d // 2) + ps + [z] * (d // 2)
    else:
        k = len(ps) - len(ps) // 2
        ps = ps[:k] + [z] * d + ps[k:]
    return ps


@spec("reorg", "zero_pad", "zero_pad_b")
def _(c, n):
    ps, m = c.v.p(), c.i("points")
    if m <= len(ps):
        raise Free
    return {"v": flat(padded(ps, m, c.env.i(mk("discr", sym("option"))), c.v.cx))}


@spec("reorg", "zero_interleave", "zero_interleave_b")
def _(c):
    f = c.i("factor")
    if f == 0:
        return {"v": c.v.fl()}
    z = Fr(0)
    z = ("C", z, z) if c.v.cx else z
    out = []
    for p in c.v.p():
        out += [p] + [z] * (f - 1)
    return {"v": flat(out)}


@spec("reorg", "mirror")
def _(c):
    ps = c.v.p()
    if not ps or not c.v.cx:
        raise Free
    return {"v": flat(ps + [("C", p[1], -p[2]) for p in ps[:0:-1]])}


@spec("reorg", "decimatei")
def _(c):
    f = c.i("factor")
    if f == 0:
        raise Free
    return {"v": flat(c.v.p()[c.i("delay")::f])}


def _keep(c):
    return {"v": c.v.fl()}


@spec("reorg", "resize", "resize_b")
def _(c, n):
    m = c.i("len")
    old = c.v.fl()
    return {"v": (old[:m] + [None] * m)[:m]}


@spec("reorg", "split_into")
def _(c):
    return {"v": c.v.fl()}


@spec("reorg", "getf", "clone")
def _(c, n):
    if n == "clone":
        return {"ret": c.v.fl(), "v": c.v.fl()}
    return {}


@spec("reorg", "diff", "diff_with_start")
def _(c, n):
    ps = c.v.p()
    d = [c.op("-", y, x) for x, y in zip(ps, ps[1:])]
    if n == "diff_with_start":
        d = ps[:1] + d
    return {"v": flat(d)}


@spec("reorg", "cum_sum")
def _(c):
    out = []
    for p in c.v.p():
        out.append(c.op("+", out[-1], p) if out else p)
    return {"v": flat(out)}


@spec("reorg", "unwrap")
def _(c):
    x = c.f("x")
    if x <= 0:
        raise Free
    ps = c.v.p()
    out = ps[:1]
    for p in ps[1:]:
        d = p - out[-1]
        if d > x / 2:
            p = out[-1] + (c.op("rem", d, x) - x)
        elif d < -x / 2:
            p = out[-1] + (c.op("rem", d, x) + x)
        out.append(p)
    return {"v": out}


# ------------------------------------------------------------------------------------------------ windows and transforms
def windowed(c, v, div=False):
    n = v.pts
    out = []
    for i, p in enumerate(v.p()):
        w = c.env.window("w", i, n)
        out.append(c.op("*", p, c.op("/", Fr(1), w) if div else w))
    return out


@spec("trans", "apply_window", "unapply_window")
def _(c, n):
    if c.env.domain(c.inits["v"]) != 0:
        raise Free
    return {"v": flat(windowed(c, c.v, n[0] == "u"))}


def dft(c, ps, d):
    x = tuple(cflat(ps))
    n = len(ps)
    c.env.memo.clear()
    hv = h(c.env.salt, "fft", c.env.g(mk("fftplan", K(d), K(n))), x)
    return [("C", hf(hv, 2 * i), hf(hv, 2 * i + 1)) for i in range(n)]


def need(c, dom):
    if c.env.domain(c.inits["v"]) != dom:
        raise Free


@spec("trans", "plain_fft", "fft", "windowed_fft", "plain_sfft", "sfft", "windowed_sfft")
def _(c, n):
    need(c, 0)
    ps = windowed(c, c.v) if n.startswith("windowed") else c.v.p()
    if n.endswith("sfft"):
        if c.v.cx or c.v.pts % 2 == 0:
            raise Free
        r = dft(c, ps, 0)[:len(ps) // 2 + 1]
    else:
        r = dft(c, ps, 0)
        if n != "plain_fft":
            r = shift(r, True)
    return {"ret": flat(r)}


@spec("trans", "plain_ifft", "ifft", "windowed_ifft")
def _(c, n):
    need(c, 1)
    if not c.v.cx:
        raise Free
    ps = c.v.p()
    if n != "plain_ifft" and ps:
        ps = shift([c.op("*", p, Fr(1, len(ps))) for p in ps], False)
    r = dft(c, ps, 1)
    if n.startswith("w"):
        r = [c.op("*", p, c.op("/", Fr(1), c.env.window("w", i, len(r)))) for i, p in enumerate(r)]
    return {"ret": flat(r)}


@spec("trans", "plain_sifft", "sifft", "windowed_sifft")
def _(c, n):
    need(c, 1)
    if not c.v.cx or not c.v.n:
        raise Free
    ps = c.v.p()
    m = 2 * len(ps) - 1
    if n != "plain_sifft":
        ps = [c.op("*", p, Fr(1, m)) for p in ps]
    ps = ps + [("C", p[1], -p[2]) for p in ps[:0:-1]]
    r = [p[1] for p in dft(c, ps, 1)]
    if n.startswith("w"):
        r = [c.op("*", p, c.op("/", Fr(1), c.env.window("w", i, len(r)))) for i, p in enumerate(r)]
    return {"ret": r}


@spec("trans", "multiply_frequency_response_real", "multiply_frequency_response_complex")
def _(c, n):
    """point j of a spectrum centred at 0 is multiplied with ratio * f(ratio * (j - h) / h), h = floor(n / 2)"""
    need(c, 1)
    cxf = n.endswith("complex")
    ps = c.v.p()
    h = len(ps) // 2
    if cxf and not c.v.cx or not h:
        raise Free
    r = c.env.f(sym("ratio"))
    out = []
    for j, p in enumerate(ps):
        z = c.env.response(CONV + ("Complex" if cxf else "Real") + "FrequencyResponse", sym("f"), c.op("*", Fr(j - h, h), r))
        if cxf:
            z = ("C", hf(c.env.salt, "fld", z, 0), hf(c.env.salt, "fld", z, 1))
        out.append(c.op("*", p, c.op("*", r, z)))
    return {"v": flat(out)}


@spec("trans", "prepare_argument", "prepare_argument_padded")
def _(c, n):
    """the conjugated spectrum; padded: of the vector with zeros on both sides, 2 n - 1 points in total"""
    need(c, 0)
    if not c.v.cx:
        raise Free
    ps = c.v.p()
    if n.endswith("padded") and len(ps) > 1:
        ps = padded(ps, 2 * len(ps) - 1, 1, True)
    return {"ret": flat(("C", p[1], -p[2]) for p in dft(c, ps, 0))}


@spec("trans", "correlate")
def _(c, n):
    """zeros on both sides up to the points of the argument, product of the spectra, inverse transform, halves swapped"""
    need(c, 0)
    if not c.v.cx or not c.o.cx or c.o.pts < c.v.pts:
        raise Free
    ps = padded(c.v.p(), c.o.pts, 1, True)
    if not ps:
        raise Free
    r = dft(c, [c.op("*", x, y) for x, y in zip(dft(c, ps, 0), c.o.p())], 1)
    return {"v": flat(shift([c.op("*", p, Fr(1, len(r))) for p in r], True)), "o": c.o.fl()}


# ------------------------------------------------------------------------------------------------ reductions
def tot(c, xs, z):
    for x in xs:
        z = c.op("+", z, x)
    return z


@spec("red", "sum", "sum_prec", "sum_sq", "sum_sq_prec", "sum_c", "sum_prec_c", "sum_sq_c", "sum_sq_prec_c")
def _(c, n):
    cx = n.endswith("_c")
    if cx != c.v.cx:
        raise Free
    ps = c.v.p()
    if "_sq" in n:
        ps = [c.op("*", p, p) for p in ps]
    return {"value": tot(c, ps, ("C", Fr(0), Fr(0)) if cx else Fr(0)), "v": c.v.fl()}


@spec("red", "map_aggregate", "map_aggregate_c")
def _(c, n):
    cx = n.endswith("_c")
    if cx != c.v.cx or not c.v.n:
        raise Free
    f, arg = s(sym("f")), c.f("arg")
    vs = [c.env.user(f, p, i, arg, cx) for i, p in enumerate(c.v.p())]
    return {"value": tot(c, vs[1:], vs[0]), "v": c.v.fl()}


@spec("red", "dot_product", "dot_product_prec", "dot_product_c", "dot_product_prec_c")
def _(c, n):
    cx = n.endswith("_c")
    if cx != c.v.cx or cx != c.o.cx or c.v.n != c.o.n:
        raise Free
    return {"value": tot(c, [c.op("*", x, y) for x, y in zip(c.v.p(), c.o.p())], ("C", Fr(0), Fr(0)) if cx else Fr(0)),
            "v": c.v.fl(), "o": c.o.fl()}


def stats(c, ps, cx):
    """sum, count, average, rms, min, min_index, max, max_index"""
    if not ps:
        return None
    n = Fr(len(ps))
    key = (lambda p: p[1] * p[1] + p[2] * p[2]) if cx else (lambda p: p)
    sm = tot(c, ps, ("C", Fr(0), Fr(0)) if cx else Fr(0))
    sq = tot(c, [c.op("*", p, p) for p in ps], ("C", Fr(0), Fr(0)) if cx else Fr(0))
    ks = [key(p) for p in ps]
    if len(set(ks)) != len(ks):
        raise Free
    lo, hi = ks.index(min(ks)), ks.index(max(ks))
    return [sm, len(ps), c.op("/", sm, n), c.fn("sqrt", c.op("/", sq, n)), ps[lo], lo, ps[hi], hi]


@spec("red", "statistics", "statistics_prec", "statistics_c", "statistics_prec_c")
def _(c, n):
    cx = n.endswith("_c")
    if cx != c.v.cx:
        raise Free
    st = stats(c, c.v.p(), cx)
    if st is None:
        raise Free
    return {"stats": st, "v": c.v.fl()}


@spec("red", "statistics_split", "statistics_split_prec", "statistics_split_c", "statistics_split_prec_c")
def _(c, n):
    """one statistic for each of the `n` interleaved columns, index within the column"""
    cx = n.endswith("_c")
    m = c.i("n")
    ps = c.v.p()
    if cx != c.v.cx or not 0 < m <= 16 or not ps:
        raise Free
    return {"statslist": [stats(c, ps[j::m], cx) for j in range(m)], "v": c.v.fl()}
