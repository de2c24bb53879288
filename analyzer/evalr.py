"""Random interpretation of terms: two terms (or a term and a specification function) are compared by
evaluating both under several assignments of their atoms that satisfy the path facts.  Integer and float
arithmetic is exact (Fractions); functions the analysis does not interpret are evaluated as arbitrary but
fixed functions of their evaluated arguments.  Terms that depend on values the analysis abstracted away
(loop-widened values, unknown calls) are flagged `opaque`, so that a mismatch on them is never reported."""
import hashlib
import random
from fractions import Fraction as Fr

from terms import T, s

OPAQUE = {"lv", "acc", "fold", "chunkres", "itlen", "uninit", "any", "hv", "phi", "var", "reduce", "veq", "item",
          "default", "opq", "alt", "d_opq", "filtpos", "call", "upd", "cast", "idx"}


class Nan:
    def __eq__(self, o):
        return isinstance(o, Nan)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "NaN"


NAN = Nan()


def h(*a):
    return int(hashlib.md5(repr(a).encode()).hexdigest()[:12], 16)


def hf(*a):
    return Fr(h(*a) % 4001 - 2000, 16)


class Skip(Exception):
    pass


class Env:
    def __init__(self, rnd, ints=None, big=12):
        self.rnd = rnd
        self.big = big
        self.ints = dict(ints or {})       # rendering -> int
        self.floats = {}
        self.opaque = False
        self.used = set()
        self.cells = None                  # optional override: (base, fidx) -> Fraction
        self.memo = {}
        self.salt = rnd.random()

    # ---- atoms
    def atom_i(self, t):
        k = t if isinstance(t, str) else s(t)
        self.used.add(k)
        v = self.ints.get(k)
        if v is None:
            if isinstance(t, T) and t.op == "discr":
                v = self.rnd.randrange(0, 2)
            else:
                v = self.rnd.randrange(0, self.big)
            self.ints[k] = v
        return v

    def atom_f(self, t):
        k = t if isinstance(t, str) else s(t)
        v = self.floats.get(k)
        if v is None:
            v = self.floats[k] = hf(self.salt, k) or Fr(3, 16)
        return v

    def cell(self, base, fidx):
        b = base if isinstance(base, str) else s(base)
        if self.cells is not None:
            r = self.cells(b, fidx)
            if r is not None:
                return r
        return hf(self.salt, "cell", b, fidx)

    # ---- evaluation
    def i(self, t):
        m = self.memo.get(("i", t))
        if m is None:
            o = self.opaque
            self.opaque = False
            m = self._i(t)
            self.memo[("i", t)] = (m, self.opaque)
            self.opaque |= o
            return m
        self.opaque |= m[1]
        return m[0]

    def f(self, t):
        m = self.memo.get(("f", t))
        if m is None:
            o = self.opaque
            self.opaque = False
            m = self._f(t)
            self.memo[("f", t)] = (m, self.opaque)
            self.opaque |= o
            return m
        self.opaque |= m[1]
        return m[0]

    def _i(self, t):
        o, a = t.op, t.a
        if o == "k":
            return a[0]
        if o == "lin":
            r = a[0]
            for x, c in a[1]:
                r += c * self.i(x)
            return r
        if o == "prod":
            r = 1
            for x in a:
                r *= self.i(x)
            return r
        if o == "div":
            x, y = self.i(a[0]), self.i(a[1])
            if y == 0:
                raise Skip
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) or q == 0 else -q
        if o == "rem":
            x, y = self.i(a[0]), self.i(a[1])
            if y == 0:
                raise Skip
            r = abs(x) % abs(y)
            return r if x >= 0 else -r
        if o == "emod":
            y = self.i(a[1])
            if y <= 0:
                raise Skip
            return self.i(a[0]) % y
        if o in ("min", "max"):
            return (min if o == "min" else max)(self.i(x) for x in a)
        if o == "gt":
            return int(self.i(a[0]) > a[1])
        if o == "eq":
            return int(self.i(a[0]) == a[1])
        if o == "not":
            return 1 - self.i(a[0])
        if o == "and":
            return int(all(self.i(x) for x in a))
        if o == "or":
            return int(any(self.i(x) for x in a))
        if o == "beq":
            return int(self.i(a[0]) == self.i(a[1]))
        if o == "b2i":
            return self.i(a[0])
        if o == "fcmp":
            x, y = self.f(a[1]), self.f(a[2])
            if x is NAN or y is NAN or isinstance(x, tuple) or isinstance(y, tuple):
                return int(a[0] == "eq" and x == y and x is not NAN)
            return int(x < y if a[0] == "lt" else x <= y if a[0] == "le" else x == y)
        if o in ("f2i", "f2s"):
            x = self.f(a[0])
            if isinstance(x, tuple) or x is NAN:
                return h(self.salt, "f2i", x) % 50
            v = int(x)
            return max(0, v) if o == "f2i" and v < 0 else v
        if o == "bin":
            x, y = self.i(a[1]), self.i(a[2])
            if a[0] == "Shl":
                return x << min(max(y, 0), 12)
            if a[0] == "Shr":
                return x >> min(max(y, 0), 60)
            if a[0] == "BitAnd":
                return x & y
            if a[0] == "BitOr":
                return x | y
            if a[0] == "BitXor":
                return x ^ y
        if o == "un" and a[0] == "Neg":
            return -self.i(a[1])
        if o == "trunc":
            return self.atom_i(t)
        if o == "kf":
            try:
                return int(float(a[0]))
            except (ValueError, OverflowError):
                raise Skip
        if o == "edge":
            l, r, p, n = (self.i(x) for x in a)
            return p if p < l else n - r + (p - l)
        if o == "simd":
            self.opaque = True
        if o in ("sym", "discr", "len", "fld", "kvar", "clen", "cstart", "pleft", "pright", "deref", "cst", "arrlen", "cap",
                 "sizeof", "nchunks"):
            if o == "cst":
                self.opaque = True
            return self.atom_i(t)
        if o in OPAQUE:
            self.opaque = True
            return self.atom_i(t)
        if o == "scratchlen":
            v = 1 + h(self.salt, "scr", self.g(t)) % 9
            return min(v, max(0, self.i(a[0].a[1]))) if getattr(self, "small_scratch", False) else v
        # uninterpreted function of its arguments
        return h(self.salt, o, self.gargs(a)) % 16

    def _f(self, t):
        o, a = t.op, t.a
        if o == "kf":
            try:
                return Fr(float(a[0]))
            except (ValueError, OverflowError):
                return NAN if a[0] in ("nan", "NaN") else ("kf", a[0])
        if o == "k":
            return Fr(a[0])
        if o == "i2f":
            return Fr(self.i(a[0]))
        if o in ("f+", "f-", "f*", "f/"):
            x, y = self.f(a[0]), self.f(a[1])
            if x is NAN or y is NAN:
                return NAN
            if isinstance(x, tuple) or isinstance(y, tuple):
                if isinstance(x, tuple) and x and x[0] == "C" or isinstance(y, tuple) and y and y[0] == "C":
                    return self.cop(o, x, y)
                return (o, x, y)
            if o == "f+":
                return x + y
            if o == "f-":
                return x - y
            if o == "f*":
                return x * y
            if y == 0:
                return ("div0", x)
            return x / y
        if o == "un" and a[0] == "Neg":
            x = self.f(a[1])
            if x is NAN:
                return x
            if isinstance(x, tuple):
                return ("neg", x)
            return -x
        if o in ("fmax", "fmin"):
            x, y = self.f(a[0]), self.f(a[1])
            if isinstance(x, Fr) and isinstance(y, Fr):
                return max(x, y) if o == "fmax" else min(x, y)
            return (o, x, y)
        if o == "fn1":
            xs = [self.f(x) if not (a[0] == "powi" and j == 1) else self.i(x) for j, x in enumerate(a[1:])]
            x = xs[0]
            if isinstance(x, Fr):
                if a[0] == "abs":
                    return abs(x)
                if a[0] == "neg":
                    return -x
                if a[0] == "floor":
                    return Fr(x.numerator // x.denominator)
                if a[0] == "ceil":
                    return Fr(-((-x.numerator) // x.denominator))
                if a[0] == "trunc":
                    return Fr(int(x))
                if a[0] == "round":
                    q = abs(x) + Fr(1, 2)
                    q = q.numerator // q.denominator
                    return Fr(q if x >= 0 else -q)
                if a[0] == "powi" and isinstance(xs[1], int) and 0 <= xs[1] < 5:
                    return x ** xs[1]
                if a[0] == "powf" and isinstance(xs[1], Fr) and xs[1] in (1, 2, 3):
                    return x ** int(xs[1])
            return hf(self.salt, "fn1", a[0], xs)
        if o == "el":
            base, unit, idx = a
            if unit in ("f",):
                return self.cell(base, self.i(idx))
            if unit == "c":
                p = self.i(idx)
                return ("C", self.cell(base, p), self.cell(base, p + 1))
            return hf(self.salt, "elx", s(base), unit, self.i(idx))
        if o == "agg":
            if (a[0].split("::")[-1] == "Complex"):
                return ("C", self.f(a[2][0]), self.f(a[2][1]))
            return ("A", a[0], a[1], tuple(self.f(x) for x in a[2]))
        if o == "fld":
            x = None
            if a[0].op in ("el", "agg") and a[1] in (0, 1):
                x = self.f(a[0])
            if isinstance(x, tuple) and x and x[0] == "C":
                return x[1 + a[1]]
            if s(t).startswith(("v.", "o.", "a.", "b.", "d.")) or True:
                self.i_atoms_touch(t)
                return self.atom_f(t)
        if o in ("sym", "deref", "tls"):
            return self.atom_f(t)
        if o == "simd":
            return hf(self.salt, "simd", self.gargs(a))
        if o in OPAQUE or o == "cst":
            self.opaque = True
            return self.atom_f(t)
        return hf(self.salt, o, self.gargs(a))

    def cop(self, o, x, y):
        def c(v):
            return (v[1], v[2]) if isinstance(v, tuple) and v[0] == "C" else (v, Fr(0))
        (a, b), (p, q) = c(x), c(y)
        if any(not isinstance(z, Fr) for z in (a, b, p, q)):
            return (o, x, y)
        if o == "f+":
            return ("C", a + p, b + q)
        if o == "f-":
            return ("C", a - p, b - q)
        if o == "f*":
            return ("C", a * p - b * q, a * q + b * p)
        d = p * p + q * q
        if d == 0:
            return ("div0", x)
        return ("C", (a * p + b * q) / d, (b * p - a * q) / d)

    def i_atoms_touch(self, t):
        if any(x in s(t) for x in ("lv(", "fold(", "uninit(")):
            self.opaque = True

    def gargs(self, a):
        return tuple(self.g(x) for x in a)

    def g(self, x):
        """generic: structural evaluation, numbers where recognisable"""
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(self.g(y) for y in x)
            return x
        o = x.op
        if o in ("k", "lin", "prod", "div", "rem", "emod", "min", "max", "f2i", "clen", "cstart", "kvar", "gt", "eq", "not", "b2i", "len"):
            return ("i", self.i(x))
        if o in ("kf", "i2f", "f+", "f-", "f*", "f/", "fn1", "el", "fmax", "fmin", "un"):
            return ("f", self.f(x))
        if o == "agg":
            if (x.a[0].split("::")[-1] == "Complex"):
                return ("f", self.f(x))
            return ("A", x.a[0], x.a[1], tuple(self.g(y) for y in x.a[2]))
        if o == "sym":
            return ("s", x.a[0])
        if o in OPAQUE or o == "cst":
            self.opaque = True
            return ("o", s(x))
        return (o,) + self.gargs(x.a)

    # ---- facts
    def holds(self, facts, ignore=()):
        """list of violated facts (evaluable ones)"""
        bad = []
        for lp, (lo, hi) in facts.iv.items():
            try:
                v = self.i(lp)
            except Skip:
                bad.append((lp, lo, hi, None))
                continue
            if (lo is not None and v < lo) or (hi is not None and v > hi) or v in facts.ne.get(lp, ()):
                bad.append((lp, lo, hi, v))
        for lp, ex in facts.ne.items():
            if lp not in facts.iv:
                try:
                    if self.i(lp) in ex:
                        bad.append((lp, None, None, None))
                except Skip:
                    bad.append((lp, None, None, None))
        for b, v in facts.b.items():
            if b.op in ("hasnext",) or "hasnext" in s(b):
                continue
            try:
                if bool(self.i(b)) != bool(v):
                    bad.append((b, v, v, None))
            except Skip:
                bad.append((b, v, v, None))
        return bad


def int_atoms(t, out):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for x in t:
                int_atoms(x, out)
        return
    if t.op in ("sym", "discr", "len", "kvar", "clen", "cstart", "pleft", "pright", "deref", "cst", "lv", "itlen", "arrlen"):
        out.add(s(t))
        if t.op in ("sym",):
            return
        if t.op in ("discr", "len", "kvar", "clen", "cstart", "pleft", "pright"):
            return
    for x in t.a:
        int_atoms(x, out)


def conj_facts(f, x):
    """conjunction of two fact sets, or None when contradictory on the spot"""
    iv, ne, b = dict(f[0]), dict(f[1]), dict(f[2])
    for k, (lo, hi) in x.iv.items():
        l0, h0 = iv.get(k, (None, None))
        lo = l0 if lo is None else lo if l0 is None else max(lo, l0)
        hi = h0 if hi is None else hi if h0 is None else min(hi, h0)
        ex = ne.get(k, frozenset()) | x.ne.get(k, frozenset())
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        iv[k] = (lo, hi)
    for k, v in x.ne.items():
        ne[k] = ne.get(k, frozenset()) | v
        lo, hi = iv.get(k, (None, None))
        if lo is not None and lo == hi and lo in ne[k]:
            return None
    for k, v in x.b.items():
        if b.get(k, v) != v:
            return None
        b[k] = v
    return iv, ne, b


def flatten(facts, rnd, refuted=None):
    """choose one alternative for every merged path (randomised search) -> conjunction of facts, or None"""
    if refuted is not None and refuted(facts):
        return None
    if not facts.alts:
        return facts
    budget = [400]

    def go(cur, groups):
        if not groups:
            return cur
        g, rest = groups[0], groups[1:]
        for x in rnd.sample(g, len(g)):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            if refuted is not None and refuted(x):
                continue
            c = conj_facts(cur, x)
            if c is None:
                continue
            r = go(c, rest + x.alts)
            if r is not None:
                return r
        return None
    r = go((facts.iv, facts.ne, facts.b), facts.alts)
    return None if r is None else type(facts)(*r)


def sample(facts, n, pre=None, seed=1, big=12, tries=400, fixed=None, cls=Env, setup=None, tighten=None, steps=60, budget=None, refuted=None):
    """up to n assignments satisfying `facts`; pre(env) imposes input assumptions (may raise Skip)"""
    out = []
    rnd = random.Random(seed)
    atoms = {}
    facts0 = facts
    for attempt in range(tries):
        facts = flatten(facts0, rnd, refuted)
        if facts is None:
            continue
        if tighten is not None:
            facts = tighten(facts)
        for lp in list(facts.iv) + list(facts.ne) + list(facts.b):
            if lp not in atoms:
                a = set()
                int_atoms(lp, a)
                atoms[lp] = sorted(a)
        ints = dict(fixed or {})
        # boolean / equality seeds
        for b, v in facts.b.items():
            if (b.op == "sym" or b.op == "call") and s(b) not in ints:
                ints[s(b)] = int(v)
        for lp, (lo, hi) in facts.iv.items():
            if lp.op in ("sym", "discr", "kvar", "clen", "cstart", "len", "pleft", "pright", "deref") and s(lp) not in ints:
                l = 0 if lo is None else lo
                u = max(l, hi if hi is not None else l + rnd.choice((2, 4, big)))
                ints[s(lp)] = rnd.randint(l, u)
        env = cls(random.Random(rnd.random()), ints, big)
        if setup is not None:
            setup(env)
        ok = False
        for step in range(steps):
            env.memo.clear()
            if budget is not None:
                budget[0] -= 1
                if budget[0] < 0:
                    return out
            try:
                if pre is not None:
                    pre(env)
                bad = env.holds(facts)
            except Skip:
                break
            if not bad:
                ok = True
                break
            lp, lo, hi, v = rnd.choice(bad)
            cand = [x for x in atoms.get(lp, ()) if not (fixed and x in fixed)]
            if not cand:
                if isinstance(v, int) or lp.op in ("fcmp", "and", "or", "not", "fpred"):
                    env.salt = rnd.random()
                    env.floats.clear()
                    continue
                break
            inner = [c for c in cand if c.startswith(("kvar(", "clen(", "cstart(", "pleft(", "pright(", "len(", "lv(", "itlen("))]
            x = rnd.choice(inner) if inner and rnd.random() < 0.75 else rnd.choice(cand)
            cur = env.ints.get(x, 0)
            if lp.op in ("beq", "sym"):
                env.ints[x] = 1 - (cur & 1)
            elif lp.op == "lin" and v is not None and rnd.random() < 0.6:
                cs = [c for y, c in lp.a[1] if s(y) == x]
                if cs:
                    if abs(cs[0]) == 1 or rnd.random() < .7:
                        pass
                    tgt = lo if lo is not None and v < lo else hi if hi is not None and v > hi else v + rnd.choice((-1, 1))
                    d = (tgt - v)
                    q = d // cs[0] if d % cs[0] == 0 else d // cs[0] + (1 if rnd.random() < 0.5 else 0)
                    env.ints[x] = max(0, cur + q)
                else:
                    env.ints[x] = rnd.randrange(0, 2 * big)
            elif lp.op == "discr":
                env.ints[x] = rnd.randint(lo or 0, hi if hi is not None else (lo or 0) + 2)
            else:
                env.ints[x] = rnd.randrange(0, 2 * big) if rnd.random() < 0.8 else rnd.randrange(0, 5 * big)
                if rnd.random() < 0.2:
                    env.salt = rnd.random()
                    env.floats.clear()
        if ok:
            env.memo.clear()
            env.flat = facts
            out.append(env)
            if len(out) >= n:
                break
    return out
