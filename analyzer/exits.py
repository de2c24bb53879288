"""Exits of an analysed operation: outcome class, final vector metadata, evaluation of both under sampled inputs."""
from terms import T, s, mk, sym, K, F0
import engine
from evalr import Env, sample, Skip, NAN, Fr

ERR = ["SameSize", "MetaData", "MustBeComplex", "MustBeReal", "MustBeTime", "MustBeFreq", "ArgLength", "ConjSym", "OddLength",
       "ArgSymmetric", "NumArgsCombined", "NotEmpty", "EvenLength", "NoResize"]
VEC = "basic_dsp_vector::vector_types::DspVec"


def is_vec(t):
    return isinstance(t, T) and t.op == "agg" and t.a[0].split("::")[-1] == "DspVec"


def kind_agg(t, name):
    return isinstance(t, T) and t.op == "agg" and t.a[0].split("::")[-1] == name


class Exit:
    """one way an operation returns"""

    def __init__(self, r, v, st):
        self.ret, self.st, self.facts = v, st, st.facts
        self.kind = "ok"
        self.reason = None
        self.value = v
        if kind_agg(v, "Result"):
            if v.a[1] == 0:
                self.value = v.a[2][0] if v.a[2] else None
            else:
                self.kind = "err"
                p = v.a[2][0]
                if kind_agg(p, "tuple") and kind_agg(p.a[2][0], "ErrorReason"):
                    self.reason, self.value = p.a[2][0].a[1], p.a[2][1]
                elif kind_agg(p, "ErrorReason"):
                    self.reason, self.value = p.a[1], None
                else:
                    self.kind = "errphi"
                    self.value = p
        elif isinstance(v, T) and v.op not in ("agg", "unit") and v.op in ("phi", "call"):
            self.kind = "phi"
        self.vecs = {}
        for k, x in r.init.items():
            if k[0] == "X" and is_vec(x) and k[1].op == "sym":
                self.vecs[s(k[1])] = st.mem.get(k, x)
        if is_vec(self.value):
            self.vecs["ret"] = self.value

    def tag(self):
        if self.kind == "err":
            return "err%s(%s)" % (self.reason, ERR[self.reason] if self.reason < len(ERR) else "?")
        return self.kind


def vec_fields(v):
    """-> data, delta, domain, complex, len, mcs"""
    f = v.a[2]
    dom = f[2]
    dom = dom.a[2][0] if kind_agg(dom, "TimeOrFreq") else {"Time": 0, "Freq": 1}.get(dom.a[0].split("::")[-1]) if dom.op == "agg" else dom
    cx = f[3]
    cx = cx.a[2][0] if kind_agg(cx, "RealOrComplex") else {"Real": 0, "Complex": 1}.get(cx.a[0].split("::")[-1]) if cx.op == "agg" else cx
    if isinstance(dom, T) and kind_agg(dom, "DataDomain"):
        dom = dom.a[1]
    return f[0], f[1], dom, cx, f[4], f[5]


class X:
    """inputs of one sampled call, as seen by a specification"""

    def __init__(self, env, name, inits):
        self.e = env
        self.op = name
        self.inits = inits

    def __getattr__(self, k):
        w = self.__dict__["inits"]
        if k in w:
            return VX(self.e, w[k])
        raise AttributeError(k)

    def i(self, nm):
        return self.e.i(sym(nm))

    def f(self, nm):
        return self.e.f(sym(nm))

    def it(self, t):
        return self.e.i(t)


class VX:
    def __init__(self, env, v):
        self.e = env
        self.fs = vec_fields(v)

    def b(self, x):
        return x if isinstance(x, int) else self.e.i(x)

    @property
    def n(self):
        return self.e.i(self.fs[4])

    @property
    def c(self):
        return bool(self.b(self.fs[3]))

    @property
    def d(self):
        x = self.fs[2]
        if isinstance(x, int):
            return x
        return self.e.i(mk("discr", x))

    @property
    def pts(self):
        return self.n // 2 if self.c else self.n

    @property
    def delta(self):
        return self.e.f(self.fs[1])

    @property
    def mcs(self):
        return self.fs[5]

    @property
    def cap(self):
        return self.e.i(mk("len", self.fs[0]))


def inits_of(r):
    """initial vectors by argument name (references and by-value)"""
    out = {}
    for k, x in r.init.items():
        if k[0] == "X" and is_vec(x) and k[1].op == "sym":
            out[s(k[1])] = x
    for a in r.args:
        if is_vec(a):
            nm = s(a.a[2][4]).split(".")[0]
            out[nm] = a
    return out


def pre_for(inits):
    """input assumptions: valid_len <= storage, complex data has an even number of floats, domain in {0,1}"""
    fs = []
    for v in inits.values():
        d, delta, dom, cx, n, m = vec_fields(v)
        fs.append((s(n), s(mk("len", d)), cx if isinstance(cx, int) else s(cx), None if isinstance(dom, int) else s(mk("discr", dom))))

    def pre(env):
        for n, cap, cx, dom in fs:
            if isinstance(cx, int):
                c = cx
            else:
                if cx not in env.ints:
                    env.ints[cx] = env.rnd.randrange(2)
                c = env.ints[cx]
                if c not in (0, 1):
                    c = env.ints[cx] = c & 1
            if dom is not None and env.ints.get(dom, 0) not in (0, 1):
                env.ints[dom] &= 1
            if n not in env.ints:
                env.ints[n] = env.rnd.randrange(env.big)
            if c and env.ints[n] % 2:
                env.ints[n] += 1 if env.rnd.random() < .5 else -1
            if env.ints.get(cap, -1) < env.ints[n]:
                env.ints[cap] = env.ints[n] + env.rnd.choice((0, 0, 1, 2, 5))
    return pre


def known_dom(dom, env):
    if isinstance(dom, int):
        return dom
    if dom.op == "agg":
        return dom.a[1]
    return env.i(mk("discr", dom))


def known_b(x, env):
    return x if isinstance(x, int) else env.i(x)


class Final:
    """final state of a vector under one sample"""

    def __init__(self, v, env):
        self.data, self.delta_t, self.dom_t, self.cx_t, self.len_t, self.mcs_t = vec_fields(v)
        self.env = env

    def _get(self, fn):
        self.env.opaque = False
        try:
            r = fn()
        except Skip:
            return None, True
        return r, self.env.opaque

    def len(self):
        return self._get(lambda: self.env.i(self.len_t))

    def delta(self):
        return self._get(lambda: self.env.f(self.delta_t))

    def cx(self):
        return self._get(lambda: bool(known_b(self.cx_t, self.env)))

    def dom(self):
        return self._get(lambda: known_dom(self.dom_t, self.env))

    def cap(self):
        """length of the backing storage"""
        d = self.data
        if d.op == "rvec":
            return self._get(lambda: self.env.i(d.a[1]))
        return self._get(lambda: self.env.i(mk("len", d)))
