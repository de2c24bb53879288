"""Hash-consed terms, linear integer normal form and the path facts (integer intervals over
normalised linear forms, truth of opaque booleans) used by the abstract interpreter."""
from math import gcd


class T:
    __slots__ = ("op", "a", "id", "_s", "_tc")

    def __reduce__(self):
        return (mk, (self.op,) + self.a)

    def __repr__(self):
        return s(self)

    def __lt__(self, o):
        return s(self) < s(o)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._s = None
        t._tc = None
        _tab[k] = t
    return t


def s(t, depth=0):
    """Stable rendering."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(s(x) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    o, a = t.op, t.a
    if o == "k":
        r = str(a[0])
    elif o == "kf":
        r = a[0]
    elif o == "sym":
        r = a[0]
    elif o == "unit":
        r = "()"
    elif o == "lin":
        parts = sorted((s(x) if c == 1 else "%s*%s" % (c, s(x))) for x, c in a[1])
        if a[0]:
            parts.append(str(a[0]))
        r = "(" + "+".join(parts) + ")"
    elif o == "fld":
        r = "%s.%s" % (s(a[0]), a[1])
    elif o == "agg":
        r = "%s#%s{%s}" % (a[0].split("::")[-1], a[1], ",".join(s(x) for x in a[2]))
    elif o == "slice":
        r = "%s[%s..%s;%s]" % (s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    elif o == "el":
        r = "%s[%s;%s]" % (s(a[0]), s(a[2]), s(a[1]))
    elif o == "ref":
        r = "&" + s(a)
    elif o == "call":
        r = "%s(%s)" % (a[0].split("::")[-1], ",".join(s(x) for x in a[1:]))
    else:
        r = "%s(%s)" % (o, ",".join(s(x) for x in a))
    if len(r) > 4000:
        import hashlib
        r = r[:300] + "..#" + hashlib.md5(r.encode()).hexdigest()[:8]
    t._s = r
    return r


def size(t):
    return len(s(t))


def K(n):
    return mk("k", int(n))


TRUE = K(1)
FALSE = K(0)
UNIT = mk("unit")


def sym(n):
    return mk("sym", n)


# ---- integers -------------------------------------------------------------------------------
def lin_of(t):
    """-> (const, {atom: coef})"""
    if t.op == "k":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(x, y, m=1):
    c1, d1 = lin_of(x)
    c2, d2 = lin_of(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + m * v
    return mklin(c1 + m * c2, d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, n):
    c, d = lin_of(x)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def mul(x, y):
    if x.op == "k":
        return scale(y, x.a[0])
    if y.op == "k":
        return scale(x, y.a[0])
    # distribute over linear forms so that products have a normal form
    c1, d1 = lin_of(x)
    c2, d2 = lin_of(y)
    out = {}
    const = c1 * c2
    for k, v in d1.items():
        if c2:
            out[k] = out.get(k, 0) + v * c2
    for k, v in d2.items():
        if c1:
            out[k] = out.get(k, 0) + v * c1
    for k, v in d1.items():
        for k2, v2 in d2.items():
            fs = []
            for q in (k, k2):
                fs.extend(q.a if q.op == "prod" else (q,))
            p = mk("prod", *sorted(fs, key=lambda z: z.id))
            out[p] = out.get(p, 0) + v * v2
    return mklin(const, out)


def div(x, y):
    if y.op == "k" and y.a[0] != 0:
        n = y.a[0]
        if x.op == "k":
            return K(int(x.a[0] / n) if x.a[0] < 0 else x.a[0] // n)
        if n == 1:
            return x
        c, d = lin_of(x)
        if c % n == 0 and all(v % n == 0 for v in d.values()):
            return mklin(c // n, {k: v // n for k, v in d.items()})
        # (a*n + r)/n with r the non divisible rest: only when everything is non-negative
        q = {k: v // n for k, v in d.items() if v % n == 0}
        r = {k: v for k, v in d.items() if v % n != 0}
        cc = c % n
        if (q or c - cc) and all(v >= 0 for v in d.values()) and c >= 0:
            return add(mklin((c - cc) // n, q), mk("div", mklin(cc, r), y))
        if len(r) == 1 and cc == 0 and not q and c == 0:
            (k, v), = r.items()
            if k.op == "div" and v == 1 and k.a[1].op == "k":
                return mk("div", k.a[0], K(k.a[1].a[0] * n))
    if x.op == "k" and x.a[0] == 0:
        return x
    if x is y:
        return K(1)
    # (p*y)/y
    if y.op != "k":
        c, d = lin_of(x)
        if c == 0 and len(d) == 1:
            (k, v), = d.items()
            if k.op == "prod" and y in k.a:
                fs = list(k.a)
                fs.remove(y)
                return scale(fs[0] if len(fs) == 1 else mk("prod", *fs), v)
            if k is y:
                return K(v)
    return mk("div", x, y)


def rem(x, y):
    if y.op == "k" and y.a[0] != 0:
        n = y.a[0]
        if x.op == "k":
            return K(abs(x.a[0]) % n * (1 if x.a[0] >= 0 else -1))
        if n == 1:
            return K(0)
        c, d = lin_of(x)
        r = {k: v % n for k, v in d.items() if v % n != 0}
        c = c % n
        x = mklin(c, r)
        if x.op == "k":
            return K(x.a[0] % n)
    if x is y:
        return K(0)
    return mk("rem", x, y)


SIGNED = {"scast"}


def nonneg(t):
    o = t.op
    if o == "k":
        return t.a[0] >= 0
    if o == "lin":
        return t.a[0] >= 0 and all(c >= 0 and nonneg(x) for x, c in t.a[1])
    if o in ("div", "rem", "prod"):
        return all(nonneg(x) for x in t.a)
    if o in ("scast", "f2s"):
        return False
    return True


def norm(l):
    """lin term -> (linpart, const, sign): l == sign*linpart*g + const (g folded into linpart)."""
    c, d = lin_of(l)
    if not d:
        return None, c, 1
    first = min(d, key=lambda x: x.id)
    sign = 1
    if d[first] < 0:
        sign = -1
        d = {k: -v for k, v in d.items()}
    return mklin(0, d), c, sign


# ---- booleans -------------------------------------------------------------------------------
def bnot(b):
    if b.op == "k":
        return K(1 - b.a[0])
    if b.op == "not":
        return b.a[0]
    return mk("not", b)


def cmpop(op, x, y):
    """integer comparison -> boolean term"""
    if op == "Eq" or op == "Ne":
        d = sub(x, y)
        if d.op == "k":
            r = K(d.a[0] == 0)
        else:
            lp, c, sg = norm(d)
            # sg*lp + c == 0  <=> lp == -c*sg
            r = mk("eq", lp, -c * sg)
        return bnot(r) if op == "Ne" else r
    if op == "Gt":
        return gt0(sub(x, y))
    if op == "Lt":
        return gt0(sub(y, x))
    if op == "Ge":
        return bnot(gt0(sub(y, x)))
    if op == "Le":
        return bnot(gt0(sub(x, y)))
    raise KeyError(op)


def gt0(d):
    """d > 0 as lp > n or not(lp > n)"""
    if d.op == "k":
        return K(d.a[0] > 0)
    lp, c, sg = norm(d)
    if sg > 0:          # lp > -c
        return mk("gt", lp, -c)
    return bnot(mk("gt", lp, c - 1))   # -lp + c > 0 <=> lp < c <=> not(lp > c-1)


class Facts:
    """iv: lp -> (lo, hi); ne: lp -> frozenset; b: opaque bool -> 0/1"""
    __slots__ = ("iv", "ne", "b", "_h", "alts")

    def __init__(self, iv=None, ne=None, b=None, alts=()):
        self.alts = alts            # groups of Facts; at least one member of each group holds (merged paths)
        self.iv = iv or {}
        self.ne = ne or {}
        self.b = b or {}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.iv.items()), frozenset(self.ne.items()), frozenset(self.b.items()), tuple(tuple(id(x) for x in g) for g in self.alts))
        return self._h

    def rng(self, lp):
        lo, hi = self.iv.get(lp, (None, None))
        # structural bounds
        if lo is None and nonneg(lp):
            lo = 0
        if lp.op == "rem" and lp.a[1].op == "k" and hi is None:
            hi = lp.a[1].a[0] - 1
        return lo, hi

    def bound(self, t):
        """interval of a linear term from facts of its parts"""
        lp, c, sg = norm(t)
        if lp is None:
            return c, c
        lo, hi = self.rng(lp)
        if lp.op == "lin" and (lo is None or hi is None):
            slo, shi = 0, 0
            for x, k in lp.a[1]:
                l1, h1 = self.rng(x)
                if k < 0:
                    l1, h1 = h1, l1
                slo = None if slo is None or l1 is None else slo + k * l1
                shi = None if shi is None or h1 is None else shi + k * h1
            if lo is None:
                lo = slo
            if hi is None:
                hi = shi
        if sg < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def known(self, b):
        if b.op == "k":
            return b.a[0]
        if b.op == "not":
            r = self.known(b.a[0])
            return None if r is None else 1 - r
        if b.op == "gt":
            lo, hi = self.bound(b.a[0])
            if lo is not None and lo > b.a[1]:
                return 1
            if hi is not None and hi <= b.a[1]:
                return 0
            return None
        if b.op == "eq":
            lo, hi = self.bound(b.a[0])
            n = b.a[1]
            if lo is not None and (lo > n or (hi is not None and lo == hi and lo != n)):
                return 0
            if hi is not None and hi < n:
                return 0
            if lo is not None and lo == hi == n:
                return 1
            if n in self.ne.get(b.a[0], ()):
                return 0
            return None
        if b.op == "and":
            rs = [self.known(x) for x in b.a]
            if 0 in rs:
                return 0
            return 1 if all(r == 1 for r in rs) else None
        if b.op == "or":
            rs = [self.known(x) for x in b.a]
            if 1 in rs:
                return 1
            return 0 if all(r == 0 for r in rs) else None
        return self.b.get(b)

    def assume(self, b, v):
        """-> new Facts or None when contradictory"""
        k = self.known(b)
        if k is not None:
            return self if k == v else None
        if b.op == "not":
            return self.assume(b.a[0], 1 - v)
        if b.op == "and" and v == 1 or b.op == "or" and v == 0:
            f = self
            for x in b.a:
                f = f.assume(x, v)
                if f is None:
                    return None
            return f
        if b.op in ("gt", "eq"):
            lp, n = b.a
            lo, hi = self.rng(lp)
            ne = self.ne
            if b.op == "gt":
                if v:
                    lo = n + 1 if lo is None else max(lo, n + 1)
                else:
                    hi = n if hi is None else min(hi, n)
            elif v:
                lo = hi = n
            else:
                ex = ne.get(lp, frozenset()) | {n}
                ne = dict(ne)
                ne[lp] = ex
            ex = ne.get(lp, ())
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            iv = dict(self.iv)
            iv[lp] = (lo, hi)
            return Facts(iv, ne, self.b, self.alts)
        bb = dict(self.b)
        bb[b] = v
        return Facts(self.iv, self.ne, bb, self.alts)

    def meet(self, o):
        """facts true on both paths"""
        if o is self:
            return self
        iv = {}
        for k, (lo, hi) in self.iv.items():
            if k in o.iv:
                l2, h2 = o.iv[k]
                l = None if lo is None or l2 is None else min(lo, l2)
                h = None if hi is None or h2 is None else max(hi, h2)
                if l is not None or h is not None:
                    iv[k] = (l, h)
        ne = {}
        for k, v in self.ne.items():
            if k in o.ne and v & o.ne[k]:
                ne[k] = v & o.ne[k]
        b = {k: v for k, v in self.b.items() if o.b.get(k) == v}
        return Facts(iv, ne, b, tuple(g for g in self.alts if g in o.alts))

    def prove_le(self, x, y):
        """is x <= y on this path?"""
        lo, _ = self.bound(sub(y, x))
        if lo is not None and lo >= 0:
            return True
        d = sub(y, x)
        # add known nonneg combos: try each stored fact once
        for lp, (lo, hi) in self.iv.items():
            if lo is not None:
                r, _ = self.bound(sub(d, add(lp, K(-lo))))
                if r is not None and r >= 0:
                    return True
            if hi is not None:
                r, _ = self.bound(sub(d, sub(K(hi), lp)))
                if r is not None and r >= 0:
                    return True
        return False

    def render(self):
        out = []
        for k, (lo, hi) in self.iv.items():
            if lo is not None and lo == hi:
                out.append("%s==%s" % (s(k), lo))
            else:
                out.append("%s..%s" % (s(k), (lo, hi)))
        for k, v in self.ne.items():
            out.append("%s!=%s" % (s(k), sorted(v)))
        for k, v in self.b.items():
            out.append(("" if v else "!") + s(k))
        return sorted(out)


F0 = Facts()
