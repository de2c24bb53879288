"""Effect summaries.  The abstract interpreter leaves, for every exit path, a summary of the accesses to the float
storages: reads, writes, copies and fills whose positions and values are terms over the inputs and over loop counters,
nested in loops whose iteration space is given by the facts of the loop body.  Here these summaries are evaluated as
maps from positions to values for valuations of the symbolic inputs which satisfy the path facts (random
interpretation): samples are arbitrary distinct rationals, functions the analysis does not interpret are arbitrary but
fixed functions.  Nothing of /repo is executed; values the analysis abstracted away make the result undecided."""
from fractions import Fraction as Fr

import math
from math import isqrt

from terms import T, s, mk, sym, K, Facts
from engine import ulen, usz, NOLOG
from evalr import Env, sample, Skip, h, hf, NAN, flatten

DEBUG = False
INF = float("inf")
NUM = (Fr, float)
WINDOW = "basic_dsp_vector::window_functions::WindowFunction::"


class Undecided(Exception):
    pass


class Bad(Exception):
    """the valuation does not belong to the path"""


def ref_of(t):
    """the element of a slice of references which `t` points to, if the element depends on the iteration"""
    if t.op == "deref" and isinstance(t.a[0], T):
        e = t.a[0]
    elif t.op == "lv" and len(t.a) == 2 and isinstance(t.a[1], tuple) and len(t.a[1]) == 1 and isinstance(t.a[1][0], tuple) and len(t.a[1][0]) == 2 and t.a[1][0][0] == "X":
        e = t.a[1][0][1]
    else:
        return None
    if isinstance(e, T) and e.op == "el" and e.a[1] == "x" and isinstance(e.a[0], T) and e.a[0].op == "sym" and not isinstance(e.a[2], int) and e.a[2].op != "k":
        return e
    return None


def structure(t):
    return t.op == "agg" and t.a[0].split("::")[-1] != "Complex"


FIELDS = {}


def fields(t):
    """fields of elements which a term reads"""
    if isinstance(t, tuple):
        return frozenset().union(*[fields(x) for x in t])
    if not isinstance(t, T):
        return frozenset()
    v = FIELDS.get(t)
    if v is None:
        v = fields(t.a) if t.op != "chunkres" else frozenset()
        if t.op == "fld" and isinstance(t.a[0], T) and t.a[0].op == "el" and t.a[0].a[1] == "x":
            v |= {t}
        FIELDS[t] = v
    return v


HAS_REF = {}


def has_ref(t):
    if isinstance(t, tuple):
        return any(has_ref(x) for x in t)
    if not isinstance(t, T):
        return False
    v = HAS_REF.get(t)
    if v is None:
        v = HAS_REF[t] = t.op != "chunkres" and (ref_of(t) is not None or any(has_ref(x) for x in t.a))
    return v


class REnv(Env):
    """an assignment of the inputs plus the storage contents at the current position of the summary"""
    R = 4

    def __init__(self, rnd, ints=None, big=12):
        Env.__init__(self, rnd, ints, big)
        self.live = False
        self.content = {}
        self.frozen = {}
        self.vlen = {}
        self.bind = {}
        self.lvv = {}
        self.chunk = {}
        self.slices = {}
        self.ints.setdefault("REG", self.R)
        self.lastopq = None
        self.bk = {}
        self.reslen = {}

    # ---- contents
    def at(self, b, i):
        k = (b, i)
        if k in self.content:
            return self.content[k]
        if self.alt and (i >= self.alt[b] if b in self.alt else b.startswith("buffer")):
            return hf(self.salt, "stale", b, i)
        return hf(self.salt, "cell", b, i)

    alt = None

    def again(self, ints, alt=None):
        """back to the inputs of the call"""
        self.ints = dict(ints)
        self.content, self.frozen, self.vlen, self.bind, self.lvv, self.chunk, self.reslen = {}, {}, {}, {}, {}, {}, {}
        self.live = False
        self.opaque = False
        self.memo.clear()
        self.alt = alt

    def bkey(self, b):
        """name of a storage; the collected results of a chunked execution have one name, whatever holds them"""
        if isinstance(b, str):
            return b
        k = self.bk.get(b)
        if k is None:
            if has_ref(b):
                return s(self.chosen(b))
            r = b
            while r.op in ("var", "fld"):
                r = r.a[0]
            if r.op == "el" and r.a[1] == "x":
                v = self.leaf(b)
                if v is not None and v[0] == "R":
                    return v[1]
                return s(b)
            k = self.bk[b] = "results of " + s(r.a[3]) if r.op == "chunkres" else s(b)
        return k

    def shifted(self, x):
        """numbers in a shifted copy -> (points per register, numbers per point, length of the vector, shift)"""
        b, m = x.a
        st = 2 if self.i(b.a[2]) else 1
        k = self.R // st
        return b.a[0], st, self.i(b.a[1]), (k - self.i(m)) % k * st

    def shifted_cell(self, x, i):
        base, st, n, sh = self.shifted(x)
        ln = -(-(n + sh) // self.R) * self.R
        q = ln - st * (i // st + 1)
        if q < sh or q >= n + sh:
            return Fr(0)
        return self.cell(base, q - sh + i % st)

    def behind(self, t):
        """the place behind an element of a slice of references, with the element this iteration is about"""
        return self.chosen(t) if has_ref(t) else t

    before = {}

    def chosen(self, t):
        if not isinstance(t, T):
            return tuple(self.chosen(x) for x in t) if isinstance(t, tuple) else t
        e = ref_of(t)
        if e is not None:
            return mk("deref", mk("el", self.chosen(e.a[0]), "x", self.i(e.a[2])))
        if not has_ref(t):
            return t
        return mk(t.op, *(self.chosen(x) for x in t.a))

    def atom_i(self, t):
        return Env.atom_i(self, t if isinstance(t, str) else self.behind(t))

    def atom_f(self, t):
        return Env.atom_f(self, t if isinstance(t, str) else self.behind(t))

    def cell(self, base, i):
        if not isinstance(base, str) and base.op == "shv":
            return self.shifted_cell(base, i)
        b = self.bkey(base)
        k = (b, i)
        if k in self.before:
            return self.before[k]
        if k in self.frozen:
            return self.frozen[k]
        if k not in self.content and self.lost(base):
            self.opaque = True
        return self.at(b, i)

    def lost(self, t):
        """part of a structure which a loop changes and whose value is not followed"""
        while isinstance(t, T) and t.op in ("var", "fld"):
            t = t.a[0]
        return isinstance(t, T) and t.op == "lv" and self.lvv.get(t, 0) == (None, None, None)

    # ---- integers
    def edge_n(self, l):
        """number of units of the slice which an edge length belongs to"""
        if l.op in ("pleft", "pright"):
            return self.i(ulen(l.a[0]))
        if l.op == "div" and l.a[0].op in ("pleft", "pright") and l.a[1].op == "k":
            return self.i(ulen(l.a[0].a[0])) // l.a[1].a[0]
        return None

    def part(self, sl):
        n = self.i(ulen(sl))
        l = (h(self.salt, "edge", s(sl.a[0])) % 2) * 2
        if n - l < self.R:
            return n, 0
        return l, (n - l) % self.R

    def _i(self, t):
        o, a = t.op, t.a
        if o == "pleft":
            return self.part(a[0])[0]
        if o == "pright":
            return self.part(a[0])[1]
        if o == "edge":
            l, r, p, n = (self.i(x) for x in a)
            return p if p < l or p < 0 else n - r + (p - l)
        if o == "cstart":
            return self.chunk[t][0] if t in self.chunk else 0
        if o == "clen":
            if t in self.chunk:
                return self.chunk[t][1]
            for sl in self.slices.get((a[0], a[1]), ()):
                return self.i(ulen(sl))
            return self.atom_i(t)
        if o == "hasnext":
            d, p = a
            if d.op == "d_edge":
                return int(self.i(p) < self.i(d.a[1]) + self.i(d.a[2]))
            self.opaque = True
            return self.atom_i(t)
        if o in ("lv", "acc", "fold"):
            v = self.lvv.get(t if o != "fold" else a[1])
            if v is not None and v[0] is not None:
                return v[0]
        if o == "len":
            if a[0].op == "shc":
                return self.R // (2 if self.i(a[0].a[2]) else 1)
            if a[0].op == "shv":
                _, _, n, sh = self.shifted(a[0])
                return -(-(n + sh) // self.R)
            if a[0].op in ("fld", "var", "el"):
                v = self.leaf(a[0])
                if v is not None and v[0] == "R":
                    return v[2]
            k = self.bkey(a[0])
            if k in self.reslen:
                return self.reslen[k]
            if self.lost(a[0]):
                self.opaque = True
                return self.atom_i(t)
        if o == "discr":
            v = self.leaf(a[0])
            if v is not None and v[0] == "A" and len(v) == 3:
                return v[2]
            if self.lost(a[0]):
                self.opaque = True
                return self.atom_i(t)
        if o == "fld" or o == "el" and a[1] == "x":
            v = self.struct(t)
            if v is not None:
                if v[0] is None:
                    self.opaque = True      # abstracted away when it was stored
                    return self.atom_i(t)
                return v[0]
        if o == "call" and a[0].endswith("::is_symmetric"):
            return self.atom_i(t) & 1
        if o == "nchunks":
            return self.chunk.get(("n", a[0]), 1)
        return Env._i(self, t)

    def leaf(self, t):
        """stored value of an element of a vector of structures, or of one of its fields; None: unknown"""
        p = []
        while t.op in ("fld", "var"):
            if t.op == "fld":
                p.append(t.a[1])
            t = t.a[0]
        if t.op != "el" or t.a[1] != "x":
            return None
        v = self.cell(t.a[0], self.i(t.a[2]))
        if not isinstance(v, tuple) or v[0] != "X":
            return None
        v = v[1]
        for i in p[::-1]:
            if not isinstance(v, tuple) or v[0] != "A" or len(v) != 3 or i >= len(v[1]):
                return None
            v = v[1][i]
        return v

    def struct(self, t):
        """value of a field of an element of the collected results"""
        p = []
        while t.op == "fld":
            p.append(t.a[1])
            t = t.a[0]
        if t.op != "el" or t.a[1] != "x":
            return None
        v = self.cell(t.a[0], self.i(t.a[2]))
        if not isinstance(v, tuple) or v[0] != "X":
            return None
        v = v[1]
        if isinstance(v, Opq):
            self.opaque = True
            return None
        if not isinstance(v, tuple) or v[0] not in ("A", "M"):
            return None
        for i in p[::-1]:
            if v[0] == "A" and i < len(v[1]):
                v = v[1][i]
            elif v[0] == "M" and isinstance(v[2], tuple) and v[2][0] == "C":
                v = ("M", None, v[2][1 + i], None)
            else:
                return None
        return v[1:] if v[0] == "M" else None

    # ---- floats
    def _f(self, t):
        o, a = t.op, t.a
        if o in ("lv", "acc", "fold"):
            v = self.lvv.get(t if o != "fold" else a[1])
            if v is not None and v[1] is not None:
                return v[1]
        if o == "el" and a[1] == "r":
            raise Undecided("register used as a number")
        if o == "repeat":
            return ("ARR", self.f(a[0]), ())
        if o == "idx":
            x = self.f(a[0])
            if isinstance(x, tuple) and x and x[0] == "ARR":
                return dict(x[2]).get(self.i(a[1]), x[1])
        if o == "upd" and all(isinstance(k, tuple) and k[0] == "i" for k, _ in a[1]):
            x = self.f(a[0])
            if isinstance(x, tuple) and x and x[0] == "ARR":
                new = [(self.i(k[1]), self.f(v)) for k, v in a[1]]
                if len(set(k for k, _ in new)) == len(new):
                    return ("ARR", x[1], tuple(sorted({**dict(x[2]), **dict(new)}.items(), key=lambda z: z[0])))
        if o == "fld":
            x = self.struct(t)
            if x is not None:
                if x[1] is None:
                    self.opaque = True
                    return self.atom_f(t)
                return x[1]
            b = a[0]
            while b.op == "fld":
                b = b.a[0]
            if b.op in ("sym", "deref"):
                return self.atom_f(t)
            x = self.f(a[0])
            if isinstance(x, tuple) and x and x[0] == "C" and a[1] in (0, 1):
                return x[1 + a[1]]
            if isinstance(x, tuple) and x and x[0] == "A" and a[1] < len(x[3]):
                return x[3][a[1]]
            return hf(self.salt, "fld", x, a[1])
        if o == "simd":
            return self.simd_scalar(t)
        if o == "call":
            return self.call(t)
        if o == "fn1":
            return self.fn1(a[0], [self.i(x) if a[0] == "powi" and j == 1 else self.f(x) for j, x in enumerate(a[1:])])
        if o == "un" and a[0] == "Neg":
            x = self.f(a[1])
            if isinstance(x, tuple) and x[0] == "C":
                return ("C", -x[1], -x[2])
        if o == "frem":
            x, y = self.f(a[0]), self.f(a[1])
            if isinstance(x, Fr) and isinstance(y, Fr) and y:
                q = x / y
                return x - y * int(q)
            return hf(self.salt, "frem", x, y)
        if o == "fneg":
            x = self.f(a[0])
            if isinstance(x, tuple) and x[0] == "C":
                return ("C", -x[1], -x[2])
            return ("neg", x) if isinstance(x, tuple) else -x
        if o == "kf" and self.circle and a[0][:1].isdigit():
            q = float(a[0]) / math.pi * 2
            if round(q) and abs(q - round(q)) < 1e-7:
                return Fr(round(q), 4096)
        if o == "kf" and a[0] in ("infinity", "inf"):
            return INF
        if o == "kf" and a[0] in ("neg_infinity", "-inf"):
            return -INF
        if o in ("fmax", "fmin"):
            x, y = self.f(a[0]), self.f(a[1])
            if isinstance(x, NUM) and isinstance(y, NUM):
                return (max if o == "fmax" else min)(x, y)
        return Env._f(self, t)

    def g(self, x):
        if isinstance(x, T) and x.op == "fftplan":
            return ("fftplan", self.i(x.a[0]), self.i(x.a[1]))
        return Env.g(self, x)

    # ---- uninterpreted functions
    def call(self, t):
        a = t.a
        nm = a[0].split("::")[-1]
        if a[0] == "dyn":
            f = s(a[1])
            xs = a[2:]
            if len(xs) == 2:
                # a user defined aggregation is assumed to be associative and commutative, like the docs require
                return self.op2("f+", self.f(xs[0]), self.f(xs[1]))
            if len(xs) == 3:
                return self.user_v(f, self.f(xs[0]), self.i(xs[1]), self.f(xs[2]))
            raise Undecided("user function")
        if nm == "window" and len(a) == 4:
            return self.window(a[1], self.i(a[2]), self.i(a[3]))
        if nm == "calc" and len(a) == 3:
            return self.response(a[0].rsplit("::", 1)[0], a[1], self.f(a[2]))
        self.opaque = True
        return self.atom_f(t)

    def response(self, trait, f, x):
        """value of a user defined function of one argument; symmetric functions keep their promise"""
        if isinstance(x, Fr) and self.i(mk("call", trait + "::is_symmetric", f)):
            x = abs(x)
        return hf(self.salt, "calc", s(f), x)

    def user_v(self, f, x, i, arg):
        return hf(self.salt, "user", f, x, i, arg)

    def user(self, f, x, i, arg, cx=False):
        v = self.user_v(f, x, i, arg)
        return ("C", hf(self.salt, "fld", v, 0), hf(self.salt, "fld", v, 1)) if cx else v

    def window(self, w, i, n):
        w = sym(w) if isinstance(w, str) else w
        if self.i(mk("call", WINDOW + "is_symmetric", w)):
            i = min(i, n - 1 - i)
        return hf(self.salt, "win", s(w), i, n) or Fr(1, 16)

    def domain(self, v):
        from exits import vec_fields
        d = vec_fields(v)[2]
        return d if isinstance(d, int) else self.i(mk("discr", d))

    def unit(self, x):
        return ("C", self.fn1("cos", [x]), self.fn1("sin", [x]))

    def fn1(self, n, xs):
        if n.endswith("_approx"):
            n = n[:-7]
        x = xs[0]
        if n == "norm_sqr" and isinstance(x, tuple) and x[0] == "C":
            return x[1] * x[1] + x[2] * x[2]
        if n in ("norm", "complex_abs") and isinstance(x, tuple) and x[0] == "C":
            return self.fn1("hypot", [x[1], x[2]])
        if isinstance(x, tuple) and x and x[0] == "C":
            return self.cfn(n, x, xs[1:])
        if n == "hypot" and (x in (INF, -INF) or xs[1] in (INF, -INF)):
            return INF
        if n == "hypot" and isinstance(x, Fr) and isinstance(xs[1], Fr):
            return self.fn1("sqrt", [x * x + xs[1] * xs[1]])
        if n == "log":
            return self.op2("f/", self.fn1("ln", [x]), self.fn1("ln", [xs[1]]))
        if n == "expf":
            return self.fn1("exp", [self.op2("f*", x, self.fn1("ln", [xs[1]]))])
        if n == "powf":
            y = xs[1]
            if isinstance(y, Fr) and isinstance(x, Fr) and y in (1, 2, 3):
                return x ** int(y)
            return self.fn1("exp", [self.op2("f*", y, self.fn1("ln", [x]))])
        if isinstance(x, Fr):
            if n == "sqrt" and x >= 0:
                p, q = isqrt(x.numerator), isqrt(x.denominator)
                if p * p == x.numerator and q * q == x.denominator:
                    return Fr(p, q)
                # monotonous, like the root
                return Fr(isqrt((x.numerator << 160) // x.denominator), 1 << 80)
            if n in ("sin", "cos") and self.circle:
                k = x * 4096
                if k.denominator != 1:
                    raise Undecided("angle")
                return Fr((1, 0, -1, 0)[int(k + (3 if n == "sin" else 0)) % 4])
            if x == 0 and n in ("sin", "tan", "sinh", "tanh", "asin", "atan"):
                return Fr(0)
            if x == 0 and n in ("cos", "cosh", "exp") or n == "exp" and x == 0:
                return Fr(1)
            if n == "ln" and x == 1:
                return Fr(0)
            r = self.plain_fn(n, x, xs)
            if r is not None:
                return r
        return hf(self.salt, "fn1", n, xs)

    circle = False

    def plain_fn(self, n, x, xs):
        if n == "abs":
            return abs(x)
        if n == "neg":
            return -x
        if n == "floor":
            return Fr(x.numerator // x.denominator)
        if n == "ceil":
            return Fr(-((-x.numerator) // x.denominator))
        if n == "trunc":
            return Fr(int(x))
        if n == "round":
            q = abs(x) + Fr(1, 2)
            q = q.numerator // q.denominator
            return Fr(q if x >= 0 else -q)
        if n == "powi" and isinstance(xs[1], int) and 0 <= xs[1] < 5:
            return x ** xs[1]
        return None

    def cfn(self, n, x, r):
        a, b = x[1], x[2]
        f = lambda k, v: self.fn1(k, [v])
        m = lambda p, q: self.op2("f*", p, q)
        if n == "sin":
            return ("C", m(f("sin", a), f("cosh", b)), m(f("cos", a), f("sinh", b)))
        if n == "cos":
            return ("C", m(f("cos", a), f("cosh", b)), -m(f("sin", a), f("sinh", b)))
        if n == "sinh":
            return ("C", m(f("sinh", a), f("cos", b)), m(f("cosh", a), f("sin", b)))
        if n == "cosh":
            return ("C", m(f("cosh", a), f("cos", b)), m(f("sinh", a), f("sin", b)))
        if n == "exp":
            e = f("exp", a)
            return ("C", m(e, f("cos", b)), m(e, f("sin", b)))
        if n == "ln":
            return ("C", f("ln", self.fn1("hypot", [a, b])), self.fn1("atan2", [b, a]))
        if n == "log":
            d = self.fn1("ln", r)
            v = self.cfn("ln", x, [])
            return ("C", self.op2("f/", v[1], d), self.op2("f/", v[2], d))
        k = (self.salt, "cfn", n, x) + tuple(r)
        return ("C", hf(*k, 0), hf(*k, 1))

    def simd_scalar(self, t):
        m = t.a[0]
        if m == "lane":
            if t in self.bind:
                return self.bind[t]
            raise Undecided("lane")
        if m == "extract":
            v = self.lanes(t.a[1])
            i = self.i(t.a[2])
            return v[i] if i < len(v) else hf("oob")
        if m == "sum_real":
            return sum(self.lanes(t.a[1]), Fr(0))
        if m == "sum_complex":
            v = self.lanes(t.a[1])
            return ("C", sum(v[0::2], Fr(0)), sum(v[1::2], Fr(0)))
        raise Undecided("simd " + m)

    def pairs(self, t):
        v = self.lanes(t)
        return [("C", v[i], v[i + 1]) for i in range(0, len(v), 2)]

    def unpair(self, c):
        r = []
        for x in c:
            if isinstance(x, tuple) and x[0] == "C":
                r += [x[1], x[2]]
            else:
                r += [hf(self.salt, "fld", x, 0), hf(self.salt, "fld", x, 1)]
        return r

    def op2(self, o, x, y):
        k = (o, x, y)
        e = self
        a, b = mk("lane#", 0), mk("lane#", 1)
        old = e.memo
        e.memo = {("f", a): (x, False), ("f", b): (y, False)}
        try:
            return e._f(mk(o, a, b))
        finally:
            e.memo = old

    def lanes(self, t):
        o, a = t.op, t.a
        R = self.R
        if o in ("lv", "acc", "fold"):
            v = self.lvv.get(t if o != "fold" else a[1])
            if v is not None and v[2] is not None:
                return list(v[2])
        if o == "el" and a[1] == "r":
            p = self.i(a[2])
            return [self.cell(a[0], p + l) for l in range(R)]
        if o == "agg" and len(a[2]) == R and not (a[0].split("::")[-1] == "Complex"):
            return [self.f(x) for x in a[2]]
        if o != "simd":
            raise Undecided("register " + o)
        m = a[0]
        if m == "splat":
            return [self.f(a[1])] * R
        if m == "from_complex":
            return self.unpair([self.f(a[1])] * (R // 2))
        if m in ("add", "sub", "mul", "div"):
            return [self.op2({"add": "f+", "sub": "f-", "mul": "f*", "div": "f/"}[m], x, y) for x, y in zip(self.lanes(a[1]), self.lanes(a[2]))]
        if m in ("add_real", "scale_real"):
            y = self.f(a[2])
            return [self.op2("f+" if m == "add_real" else "f*", x, y) for x in self.lanes(a[1])]
        if m in ("add_complex", "scale_complex"):
            y = self.f(a[2])
            return self.unpair([self.cop("f+" if m == "add_complex" else "f*", x, y) for x in self.pairs(a[1])])
        if m in ("mul_complex", "div_complex"):
            return self.unpair([self.cop("f*" if m == "mul_complex" else "f/", x, y) for x, y in zip(self.pairs(a[1]), self.pairs(a[2]))])
        if m == "complex_abs":
            v = [self.fn1("norm", [x]) for x in self.pairs(a[1])]
            return v + v
        if m == "complex_abs_squared":
            v = [x[1] * x[1] + x[2] * x[2] for x in self.pairs(a[1])]
            return v + v
        if m == "half":
            return self.lanes(a[1])[:R // 2]
        if m == "sqrt":
            return [self.fn1("sqrt", [x]) for x in self.lanes(a[1])]
        if m in ("max", "min"):
            return [(max if m == "max" else min)(x, y) if isinstance(x, NUM) and isinstance(y, NUM) else (m, x, y) for x, y in zip(self.lanes(a[1]), self.lanes(a[2]))]
        if m == "swap_iq":
            v = self.lanes(a[1])
            return [v[i ^ 1] for i in range(R)]
        if m.endswith("_approx") and len(a) == 2:
            return [self.fn1(m[:-7], [x]) for x in self.lanes(a[1])]
        if m == "lanes":
            x, r = a[1], a[2]
            if x.a[2] == "f":
                src = self.lanes(x.a[1])
            else:
                src = self.pairs(x.a[1])
            out = []
            for v in src:
                self.bind[x] = v
                self.memo.clear()
                out.append(self.f(r))
            del self.bind[x]
            self.memo.clear()
            return out if x.a[2] == "f" else self.unpair(out)
        raise Undecided("register operation " + m)


def chain(l):
    c = []
    while l.a:
        c.append(l.a[1])
        l = l.a[0]
    return c[::-1]


class Replay:
    def __init__(self, e, env, parts=1):
        self.e, self.env, self.parts = e, env, parts
        self.accesses = []
        self.pre = {}
        self.budget = 6000

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise Undecided("budget")

    # ---- states
    def snap(self):
        v = self.env
        return dict(v.content), dict(v.frozen), dict(v.ints), dict(v.vlen), len(self.accesses), dict(v.lvv), len(self.oob or ())

    def restore(self, z):
        v = self.env
        v.content, v.frozen, v.ints, v.vlen = dict(z[0]), dict(z[1]), dict(z[2]), dict(z[3])
        del self.accesses[z[4]:]
        if self.oob:
            del self.oob[z[6]:]
        v.lvv = dict(z[5])
        v.memo.clear()

    def delta(self, f, base):
        """facts of f which are not facts of base"""
        iv = {k: v for k, v in f.iv.items() if base is None or base.iv.get(k) != v}
        ne = {k: v for k, v in f.ne.items() if base is None or base.ne.get(k) != v}
        b = {k: v for k, v in f.b.items() if base is None or base.b.get(k) != v}
        al = tuple(g for g in f.alts if base is None or g not in base.alts)
        return iv, ne, b, al

    def check(self, d):
        """do the facts hold at the current position? -> True / False"""
        env = self.env
        iv, ne, b, al = d
        for lp, (lo, hi) in iv.items():
            v = self.ival(lp)
            if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ne.get(lp, ()):
                return False
        for lp, ex in ne.items():
            if lp not in iv and self.ival(lp) in ex:
                return False
        for x, v in b.items():
            if bool(self.ival(x)) != bool(v):
                return False
        for g in al:
            if not any(self.check((x.iv, x.ne, x.b, x.alts)) for x in g):
                return False
        return True

    def ival(self, t):
        env = self.env
        env.opaque = False
        try:
            v = env.i(t)
        except Skip:
            raise Undecided("undefined " + s(t)[:40])
        if env.opaque:
            raise Undecided("abstracted condition " + s(t)[:60])
        return v

    # ---- summary
    def run(self, log):
        evs = chain(log)
        self.seq(evs)

    def seq(self, evs):
        i = 0
        while i < len(evs):
            ev = evs[i]
            i += 1
            if ev.op == "alt":
                tab = self.e.af.get(ev)
                if not tab:
                    raise Undecided("alternatives")
                common = None
                self.choose([(lg, self.delta(f, None)) for lg, f in tab], True)
            elif ev.op == "loop":
                self.loop(ev)
            elif ev.op == "ev":
                if ev.a[0] == "chunk":
                    self.cslices = {x for x in ev.a if isinstance(x, T) and x.op == "slice"}
                    self.small = ev.a[2] in (0, K(0))
                if ev.a[0] == "chunkbegin":
                    j = i
                    site = ev.a[1]
                    while j < len(evs) and not (evs[j].op == "ev" and evs[j].a[0] == "chunkend" and evs[j].a[1] is site):
                        j += 1
                    if j >= len(evs):
                        self.chunks(ev, evs[i:])
                        return
                    self.chunks(ev, evs[i:j], evs[j])
                    i = j + 1
                    continue
                self.event(ev)

    small = False
    cslices = ()

    def csize(self, n, step, parts):
        c = -(-n // parts)
        return max(c + (-c) % step, 1)

    def ranges(self, n, step, parts):
        """chunks(calc_chunk_size(n, step, parts))"""
        if parts == 1 or n == 0:
            return [(0, n)]
        c = self.csize(n, step, parts)
        return [(p, min(c, n - p)) for p in range(0, n, c)]

    def ranges2(self, n, step, count):
        """partition_in_ranges"""
        if count == 1:
            return [(0, n)]
        c = self.csize(n, step, count)
        return [(i * c, (c if i < count - 1 else n - i * c)) for i in range(count)]

    def chunks(self, ev, body, end=None):
        env = self.env
        site, m = ev.a[1], ev.a[2]
        parts = 1 if self.small else abs(self.parts)
        ss = {tag: sl for (st, tag), sl in env.slices.items() if st is site}
        tags = sorted(ss)
        env.memo.clear()
        def slen(tag):
            v = set()
            for x in [x for x in ss[tag] if x in self.cslices] or ss[tag]:
                try:
                    v.add(env.i(ulen(x)))
                except Skip:
                    pass
            if len(v) != 1:
                raise Undecided("chunk")
            return v.pop()
        steps = [self.ival(x) for x in ev.a[3:5] if isinstance(x, T) and x.op in ("k", "sym", "lin", "prod")] + [1, 1]
        if m == "execute_sym_pairs_with_range":
            n = slen("p1")
            st = steps[0]
            lo, hi, R = 0, n, []
            while lo < hi or not R:
                k = hi - lo
                c = self.csize(n, st, 2 * parts)
                if parts > 1 and k > 2 * c:
                    a = b = c
                else:
                    a = min(self.csize(k, st, 2), k)
                    b = k - a
                R.append({"p1": (lo, a), "p2": (hi - b, b)})
                lo, hi = lo + a, hi - b
        elif m == "from_src_to_dest":
            rt = self.ranges(slen("t"), steps[1], parts)
            R = [{"a": x, "t": y} for x, y in zip(self.ranges2(slen("a"), steps[0], len(rt)), rt)]
        elif m == "get_zipped":
            rt = self.ranges(slen("b"), steps[1], parts)
            R = [{"a": x, "b": y} for x, y in zip(self.ranges2(slen("a"), steps[0], len(rt)), rt)]
        else:
            R = [{"a": x} for x in self.ranges(slen("a"), steps[0], parts)]
        if end is not None and len(end.a) > 4 and all(n == 0 for _, n in R[0].values()):
            R = []
        if self.parts < 0:
            # the order of the threads is arbitrary
            R.reverse()
        env.chunk[("n", site)] = len(R)
        vals = []
        for r in R:
            for tag, (c0, cn) in r.items():
                env.chunk[mk("cstart", site, tag)] = (c0, cn)
                env.chunk[mk("clen", site, tag)] = (c0, cn)
            env.memo.clear()
            self.seq(body)
            if end is not None and len(end.a) > 4:
                v = end.a[3]
                vals.append(self.stored(v, (s(site), len(vals))) if isinstance(v, T) and v.op == "rvec" else self.any_val(v))
            if len(R) > 1 and self.final is not None and self.strict:
                self.check_chunk(site)
        if end is not None and len(end.a) > 4:
            self.results(site, vals)
        env.memo.clear()

    def check_chunk(self, site):
        iv, ne, b, al = self.final.iv, self.final.ne, self.final.b, ()
        m = {}
        def has(t):
            if t not in m:
                m[t] = mentions(t, site)
            return m[t]
        if not self.check(({k: v for k, v in iv.items() if has(k)}, {k: v for k, v in ne.items() if has(k)}, {k: v for k, v in b.items() if has(k)}, al)):
            raise Undecided("chunk takes another path")

    final = None
    strict = True
    maxiter = 120

    wrote = {}

    def same_order(self, d, wrote):
        """facts about fields which this iteration writes have to be older than the write"""
        for part in d[:3]:
            for t in part:
                for x in fields(t):
                    k = (self.env.bkey(x.a[0].a[0]), self.ival(x.a[0].a[2]))
                    ev = wrote[k][1].get(x.a[1]) if k in wrote else None
                    if ev is None:
                        continue
                    f = self.e.evfacts.get(ev)
                    if f is None or not (t in f.iv or t in f.ne or t in f.b):
                        raise Undecided("order of reads and writes")

    def choose(self, opts, must):
        """run the alternative whose facts hold afterwards; -> its log or None"""
        z = self.snap()
        good = []
        for oi, (lg, d) in enumerate(opts):
            self.tick()
            if not self.precheck(lg, d):
                continue
            outer, self.wrote = self.wrote, {}
            self.run(lg)
            self.env.memo.clear()
            inner, self.wrote = self.wrote, outer
            if inner:
                self.same_order(d, inner)
                self.env.before = {k: v[0] for k, v in inner.items()}
            ok = self.check(d)
            if self.env.before:
                self.env.before = {}
                self.env.memo.clear()
            if ok:
                good.append((oi, self.snap_full()))
                for k, v in inner.items():
                    o = outer.setdefault(k, (v[0], {}))
                    for j, ev in v[1].items():
                        o[1].setdefault(j, ev)
            self.restore(z)
        if not good:
            if must:
                raise Bad()
            return None
        if len(good) > 1 and any(g[1][:2] != good[0][1][:2] for g in good[1:]):
            c0 = good[0][1][0]
            if any(g[1][0] != c0 for g in good[1:]):
                raise Undecided("ambiguous alternatives")
        self.restore_full(good[0][1])
        return good[0][0]

    def rec_val(self, t):
        """value of a loop carried quantity: (integer, float, register), each None where it is none or abstracted away"""
        env = self.env
        if t is None:
            return None, None, None
        out = []
        for fn in (env.i, env.f, lambda x: tuple(env.lanes(x))):
            env.opaque = False
            try:
                v = fn(t)
            except (Skip, Undecided):
                out.append(None)
                continue
            out.append(None if env.opaque else v)
            env.opaque = False
        return tuple(out)

    def any_val(self, t):
        if t.op == "agg" and not (t.a[0].split("::")[-1] == "Complex"):
            return ("A", [self.any_val(x) if isinstance(x, T) else ("M", None, None, None) for x in t.a[2]])
        self.env.memo.clear()
        return ("M",) + self.rec_val(t)

    def stored(self, t, nm):
        """a structure which holds vectors: the vectors get a storage of their own"""
        env = self.env
        if t.op == "agg":
            return ("A", [self.stored(x, nm + (i,)) for i, x in enumerate(t.a[2])], t.a[1])
        env.memo.clear()
        if t.op == "rvec":
            n = self.ival(t.a[1])
            b = env.bkey(t.a[0])
            for i in range(n):
                env.content[(nm, i)] = env.at(b, i)
            return ("R", nm, n)
        if t.op == "shv":
            n = self.ival(mk("len", t))
            for i in range(n * env.R):
                env.content[(nm, i)] = env.cell(t, i)
            return ("R", nm, n)
        if not isinstance(t, T):
            return ("M", None, None, None)
        return ("M",) + self.rec_val(t)

    def holds_structure(self, t):
        while t.op == "upd":
            t = t.a[0]
        if t.op != "el" or t.a[1] != "x":
            return False
        v = self.env.cell(t.a[0], self.ival(t.a[2]))
        return isinstance(v, tuple) and v[0] == "X" and isinstance(v[1], tuple) and v[1] and v[1][0] == "A" and len(v[1]) == 3

    def sval(self, t, nm):
        """value of a structure: ("A", values of the fields, variant)"""
        env = self.env
        if not isinstance(t, T):
            return ("M", None, None, None)
        if t.op in ("rvec", "shv"):
            return self.stored(t, nm)
        if structure(t):
            return ("A", [self.sval(x, nm + (i,)) for i, x in enumerate(t.a[2])], t.a[1])
        if t.op == "upd":
            v = self.sval(t.a[0], nm)
            if v[0] != "A" or len(v) != 3:
                return ("M", None, None, None)
            fs = list(v[1])
            for key, x in t.a[1]:
                if not (isinstance(key, tuple) and len(key) == 2 and key[0] == "f" and isinstance(key[1], int) and key[1] < len(fs)):
                    return ("M", None, None, None)
                fs[key[1]] = self.sval(x, nm + (key[1],))
            return ("A", fs, v[2])
        if t.op == "el" and t.a[1] == "x":
            env.memo.clear()
            v = env.cell(t.a[0], self.ival(t.a[2]))
            if isinstance(v, tuple) and v[0] == "X" and isinstance(v[1], tuple) and v[1] and v[1][0] in ("A", "M", "R"):
                return v[1]
        env.memo.clear()
        return ("M",) + self.rec_val(t)

    def results(self, site, vs):
        """the collected results of a chunked execution"""
        env = self.env
        k = "results of " + s(site)
        for i, v in enumerate(vs):
            if v[0] == "M" and v[3] is not None:
                for l, x in enumerate(v[3]):
                    env.content[(k, i * env.R + l)] = x
            elif v[0] == "M" and isinstance(v[2], tuple) and v[2][0] == "C":
                env.content[(k, 2 * i)], env.content[(k, 2 * i + 1)] = v[2][1:]
            elif v[0] == "M" and v[2] is not None:
                env.content[(k, i)] = v[2]
            else:
                env.content[(k, i)] = ("X", v)
        env.reslen[k] = len(vs)
        env.memo.clear()

    def precheck(self, lg, d):
        """False if a fact which can be decided before running the alternative does not hold"""
        ck = (lg, id(d))
        key = self.pre.get(ck)
        if key is None:
            us = loop_uids(lg)

            def early(t):
                return not any_op(t, us)
            iv, ne, b, al = d
            key = self.pre[ck] = ({k: v for k, v in iv.items() if early(k)}, {k: v for k, v in ne.items() if early(k)},
                                  {k: v for k, v in b.items() if early(k)}, ()), d
        return self.check(key[0])

    def snap_full(self):
        z = self.snap()
        return z[:4] + (list(self.accesses), z[5], list(self.oob or ()))

    def restore_full(self, z):
        v = self.env
        v.content, v.frozen, v.ints, v.vlen = dict(z[0]), dict(z[1]), dict(z[2]), dict(z[3])
        self.accesses[:] = z[4]
        if self.oob is not None:
            self.oob[:] = z[6]
        v.lvv = dict(z[5])
        v.memo.clear()

    def loop(self, ev):
        env = self.env
        kv = s(mk("kvar", ev.a[0]))
        tab = self.e.lf.get(ev)
        if not tab:
            raise Undecided("loop")
        tab = self.entered(tab, ev.a[0])
        opts = [(lg, self.delta(f, en)) for lg, f, en, _ in tab]
        if not any(d[0] or d[1] or d[2] for _, d in opts):
            raise Undecided("unbounded loop")
        recs = {}
        for (lg, f, en, rec), (_, d) in zip(tab, opts):
            for lv, ini, bk in rec:
                recs[lv] = ini
        env.memo.clear()
        init = {lv: self.rec_val(ini) for lv, ini in recs.items()}
        env.lvv.update(init)
        k = 0
        while True:
            if k > self.maxiter:
                raise Undecided("iterations")
            env.ints[kv] = k
            env.memo.clear()
            i = self.choose(opts, False)
            if i is None:
                break
            if recs:
                env.memo.clear()
                new = {lv: self.rec_val(bk) for lv, ini, bk in tab[i][3]}
                env.lvv.update(new)
            k += 1
        env.ints[kv] = k
        env.memo.clear()

    def entered(self, tab, uid):
        """the alternatives of a loop which start from facts which hold; paths with different facts may share a loop"""
        ens = []
        for _, _, en, _ in tab:
            if not any(en is x for x in ens):
                ens.append(en)
        if len(ens) < 2:
            return tab
        us = {uid}
        ok = []
        for en in ens:
            iv = {k: v for k, v in en.iv.items() if any(x.iv.get(k) != v for x in ens) and not any_op(k, us)}
            ne = {k: v for k, v in en.ne.items() if any(x.ne.get(k) != v for x in ens) and not any_op(k, us)}
            b = {k: v for k, v in en.b.items() if any(x.b.get(k) != v for x in ens) and not any_op(k, us)}
            good = True
            for d in [({k: v}, {}, {}, ()) for k, v in iv.items()] + [({}, {k: v}, {}, ()) for k, v in ne.items()] + [({}, {}, {k: v}, ()) for k, v in b.items()]:
                try:
                    if not self.check(d):
                        good = False
                        break
                except Undecided:
                    pass
            if good:
                ok.append(en)
        r = [x for x in tab if any(x[2] is y for y in ok)]
        return r or tab

    # ---- events
    def val(self, fn, what=""):
        env = self.env
        env.opaque = False
        try:
            v = fn()
        except Skip:
            raise Undecided("undefined value")
        if env.opaque:
            return mk_opq(v)
        return v

    def rng(self, sl):
        b, s0, en, u = sl.a
        return self.env.bkey(b), self.ival(s0), self.ival(en), u

    def bounds(self, b, i, n, lim, ev):
        """is the access within the slice it goes through?"""
        if self.oob is None:
            return
        try:
            lo, hi = (self.ival(x) for x in lim)
        except Undecided:
            self.nobounds += 1
            return
        self.inb += 1
        if not lo <= i <= i + n <= hi:
            self.oob.append((ev, b, i, n, lo, hi))

    oob = None
    inb = nobounds = 0

    def put(self, b, i, v, ev):
        self.accesses.append(("w", b, i, ev))
        self.env.content[(b, i)] = v

    def acc(self, k, b, i, ev):
        self.accesses.append((k, b, i, ev))

    def event(self, ev):
        env = self.env
        a = ev.a
        k = a[0]
        self.tick()
        if k in ("chunk", "use", "ucall", "reint", "rawslice", "clone", "chunkend"):
            return
        env.memo.clear()
        if k == "r":
            b, u, i = env.bkey(a[1]), a[2], self.ival(a[3])
            n = {"f": 1, "c": 2, "r": env.R}.get(u, 1)
            self.bounds(b, i, n, a[4:6], ev)
            if a[1].op == "shv":
                return
            for l in range(n):
                env.frozen[(b, i + l)] = env.at(b, i + l)
                self.acc("r", b, i + l, ev)
        elif k == "w":
            b, u, i = env.bkey(a[1]), a[2], self.ival(a[3])
            self.bounds(b, i, {"f": 1, "c": 2, "r": env.R, "r/2": env.R // 2}.get(u, 1), a[5:7], ev)
            if u == "x":
                v = a[4]
                if isinstance(v, T) and v.op == "upd":
                    w = self.wrote.get((b, i))
                    if w is None:
                        w = self.wrote[(b, i)] = (env.at(b, i), {})
                    for key, x in v.a[1]:
                        if isinstance(x, T) and any(y.a[1] in w[1] and env.bkey(y.a[0].a[0]) == b and self.ival(y.a[0].a[2]) == i for y in fields(x)):
                            raise Undecided("order of reads and writes")
                    for key, x in v.a[1]:
                        if isinstance(key, tuple) and len(key) == 2:
                            w[1].setdefault(key[1], ev)
                self.put(b, i, ("X", self.sval(v, (b, i)) if isinstance(v, T) and (v.op in ("upd", "el") or structure(v)) else self.val(lambda: env.g(v))), ev)
            elif u == "f":
                self.put(b, i, self.val(lambda: env.f(a[4])), ev)
            elif u == "c":
                v = self.val(lambda: env.f(a[4]))
                o = isinstance(v, Opq)
                p = env.unpair([v.v if o else v])
                for l in (0, 1):
                    self.put(b, i + l, mk_opq(p[l]) if o else p[l], ev)
            else:
                v = self.val(lambda: tuple(env.lanes(a[4])))
                if isinstance(v, Opq):
                    v = tuple(mk_opq(x) for x in v.v)
                for l, x in enumerate(v):
                    self.put(b, i + l, x, ev)
        elif k == "copy":
            (db, d0, d1, du), (sb, s0, s1, su) = self.rng(a[1]), self.rng(a[2])
            n = s1 - s0
            if n != d1 - d0:
                raise Undecided("copy lengths %s %s" % (d1 - d0, n))
            v = []
            for l in range(n):
                v.append(env.at(sb, s0 + l))
                self.acc("r", sb, s0 + l, ev)
            for l in range(n):
                self.put(db, d0 + l, v[l], ev)
        elif k == "fill":
            b, s0, s1, u = self.rng(a[1])
            v = self.val(lambda: env.f(a[2]))
            if u == "c" and s1 > s0:
                o = isinstance(v, Opq)
                p = env.unpair([v.v if o else v])
                p = [mk_opq(x) for x in p] if o else p
                if a[2] in (K(0), mk("kf", "0.0")):
                    p = [Fr(0), Fr(0)]
            else:
                p = [v]
            for l in range(s1 - s0):
                self.put(b, s0 + l, p[l % len(p)], ev)
        elif k == "perm":
            self.perm(ev)
        elif k == "vresize":
            b = env.bkey(a[1])
            o, n = self.ival(a[2]), self.ival(a[3])
            env.vlen[b] = n if a[4].op != "trunc" else min(o, n)
            if a[4].op != "trunc":
                v = self.val(lambda: env.f(a[4]))
                for i in range(o, n):
                    self.put(b, i, v, ev)
        elif k in ("box", "raw"):
            pass
        elif k == "push":
            b = env.bkey(a[1])
            n = env.vlen.get(b)
            if len(a) > 4:
                if isinstance(a[3], T) and a[3].op == "k":
                    n = a[3].a[0]
                else:
                    try:
                        n = self.ival(a[3])
                    except Undecided:
                        pass
            if n is None:
                n = 0 if a[1].op == "nvec" else self.env.i(mk("len", a[1]))
            env.vlen[b] = n + 1
            if isinstance(a[2], T) and (structure(a[2]) and not nested(a[2]) or a[2].op in ("upd", "el") and self.holds_structure(a[2])):
                self.put(b, n, ("X", self.sval(a[2], (b, n))), ev)
                return
            if nested(a[2]):
                self.put(b, n, ("X", self.stored(a[2], (b, n))), ev)
                return
            x = self.val(lambda: env.g(a[2]))
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "f" and isinstance(x[1], tuple) and x[1] and x[1][0] == "C":
                self.put(b, 2 * n, x[1][1], ev)
                self.put(b, 2 * n + 1, x[1][2], ev)
                return
            self.put(b, n, x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "f" and isinstance(x[1], NUM) else ("X", x), ev)
        elif k == "fft":
            (ib, i0, i1, iu), (ob, o0, o1, ou) = self.rng(a[2]), self.rng(a[3])
            x = tuple(env.at(ib, i) for i in range(i0, i1))
            opq = any(isinstance(y, Opq) for y in x)
            for i in range(i0, i1):
                self.acc("r", ib, i, ev)
            pl = self.val(lambda: env.g(a[1]))
            if isinstance(pl, Opq):
                pl, opq = pl.v, True
            if DEBUG: print("FFT", pl, x)
            hv = h(env.salt, "fft", pl, x)
            for i in range(o1 - o0):
                v = hf(hv, i)
                self.put(ob, o0 + i, mk_opq(v) if opq else v, ev)
            if isinstance(a[4], T) and a[4].op == "slice":
                cb, c0, c1, cu = self.rng(a[4])
                for i in range(c0, c1):
                    self.put(cb, i, hf(hv, "scratch", i), ev)
            if ob != ib or o0 != i0:
                # rustfft uses the input as scratch space
                for i in range(i0, i1):
                    self.put(ib, i, hf(hv, "input", i), ev)
        elif k == "vcall":
            for x in a[2]:
                if isinstance(x, T) and x.op == "slice":
                    raise Undecided("virtual call on a slice")
        elif k == "rawcopy":
            d, q, n = self.eloc(a[1]), self.eloc(a[2]), self.ival(a[3])
            if d is None or q is None or d[2] != q[2]:
                raise Undecided("raw copy")
            w = usz(d[2]) or env.R
            v = []
            for l in range(n * w):
                v.append(env.at(q[0], q[1] + l))
                self.acc("r", q[0], q[1] + l, ev)
            for l in range(n * w):
                self.put(d[0], d[1] + l, v[l], ev)
        else:
            raise Undecided("event " + k)

    def eloc(self, t):
        """(base, position, unit) of a pointer to an element"""
        if t.op == "ref" and t.a[0][0] == "E" and not t.a[1]:
            b, u, i, _, _ = t.a[0][1].a
            return self.env.bkey(b), self.ival(i), u
        if t.op == "ptr":
            return self.env.bkey(t.a[0]), self.ival(t.a[2]), t.a[1]
        return None

    def perm(self, ev):
        env = self.env
        _, sl, name, args = ev.a[:4]
        b, s0, s1, u = self.rng(sl)
        w = usz(u) or env.R
        if u == "x":
            w = 1
        n = (s1 - s0) // w
        v = [[env.at(b, s0 + i * w + l) for l in range(w)] for i in range(n)]
        for i in range(n * w):
            self.acc("r", b, s0 + i, ev)
        if name == "reverse":
            v.reverse()
        elif name in ("rotate_left", "rotate_right"):
            m = self.ival(args[0])
            if m > n:
                raise Undecided("rotate")
            if name == "rotate_right":
                m = n - m
            v = v[m:] + v[:m]
        elif name == "swap":
            i, j = self.ival(args[0]), self.ival(args[1])
            if max(i, j) >= n:
                raise Undecided("swap")
            v[i], v[j] = v[j], v[i]
        else:
            raise Undecided("permutation " + name)
        for i in range(n):
            for l in range(w):
                self.put(b, s0 + i * w + l, v[i][l], ev)


class Opq:
    """a value which depends on something the analysis abstracted away"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "?"


def mk_opq(v):
    return Opq(v)


def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, T):
        return any(mentions(y, x) for y in t.a if isinstance(y, (T, tuple)))
    return any(mentions(y, x) for y in t if isinstance(y, (T, tuple)))


_lu = {}


def loop_uids(lg):
    r = _lu.get(lg)
    if r is None:
        r = set()
        todo = [lg]
        while todo:
            l = todo.pop()
            for e in chain(l):
                if e.op == "loop":
                    r.add(e.a[0])
                    todo.extend(e.a[1:])
                elif e.op == "alt":
                    todo.extend(e.a)
        _lu[lg] = r
    return r


def nested(t):
    """a structure which holds a vector of its own"""
    return isinstance(t, T) and t.op == "agg" and any(isinstance(x, T) and (x.op in ("rvec", "shv") or nested(x)) for x in t.a[2])


def any_op(t, us):
    """does the term depend on storage contents or on one of the loops?"""
    if not isinstance(t, T):
        return isinstance(t, tuple) and any(any_op(x, us) for x in t)
    if t.op in ("el", "fcmp", "fpred", "lv", "clen", "cstart"):
        return True
    if t.op == "kvar":
        return t.a[0] in us
    return any(any_op(x, us) for x in t.a if isinstance(x, (T, tuple)))


def log_chunks(lg, out=None):
    """slices handed to the chunked executions of a summary"""
    out = set() if out is None else out
    for e in chain(lg):
        if e.op in ("loop", "alt"):
            for x in e.a[1 if e.op == "loop" else 0:]:
                log_chunks(x, out)
        elif e.a[0] == "chunk":
            out.update(x for x in e.a if isinstance(x, T) and x.op == "slice")
    return out


def valuations(e, ex, pre, n, seed, big=24, R=4):
    """assignments of the inputs of an exit path -> [(env)]"""
    cs = log_chunks(ex.st.log)
    sl = {}
    for k, v in e.chslices.items():
        w = [x for x in sorted(v, key=lambda z: z.id) if x in cs]
        if w:
            sl[k] = w

    def setup(env):
        env.slices = sl
        env.R = R
        env.ints["REG"] = R
    return sample(ex.facts, n, pre, seed=seed, big=big, tries=60 * n, fixed={"REG": R}, cls=REnv, setup=setup)


def replay(e, ex, env, parts=1, bounds=False, budget=6000, maxiter=120):
    """evaluates the summary of an exit path; env.content holds the resulting storage contents"""
    rp = Replay(e, env, parts)
    rp.budget, rp.maxiter = budget, maxiter
    if bounds:
        rp.oob = []
    rp.final = env.flat
    env.memo.clear()
    env.live = True
    rp.run(ex.st.log)
    env.memo.clear()
    return rp
