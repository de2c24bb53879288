"""Abstract interpreter over the monomorphic MIR dumped by the driver.

Values are hash-consed terms (terms.py); integers have a linear normal form, memory is a map
from roots (locals, external pointees) to terms, floating point data lives in symbolic storages
whose element accesses become events.  Loops are widened to a fixpoint with induction-variable
recognition; iterators are immutable descriptors plus an offset; chunked (multi threaded)
execution invokes the closure once on an arbitrary chunk.  No path is executed on concrete data
and no solver is involved: the only decisions are normal forms and interval facts."""
import re
from terms import *

CAP = 24
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
RANGE = "std::ops::Range"
CPLX = "num_complex::Complex"
VECT = "basic_dsp_vector::DspVec"


class Abort(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "log")

    def __init__(self, mem, facts, log):
        self.mem = mem
        self.facts = facts
        self.log = log

    def copy(self):
        return State(dict(self.mem), self.facts, self.log)

    def key(self):
        return (frozenset(self.mem.items()), self.facts.key(), self.log)


NOLOG = mk("log")


def log_list(l):
    """flatten a log into a list of events (alternatives of merged paths are concatenated)"""
    out = []
    seen = set()

    def go(l):
        chain = []
        while l.a:
            chain.append(l.a[1])
            l = l.a[0]
        for e in reversed(chain):
            if e.op == "alt":
                for x in e.a:
                    go(x)
            elif e.op == "loop":
                for x in e.a[1:]:
                    go(x)
            elif e not in seen:
                seen.add(e)
                out.append(e)
    go(l)
    return out


def log_tree(l):
    """log as nested list: events, ('loop', [..]) and ('alt', [[..],..])"""
    chain = []
    while l.a:
        chain.append(l.a[1])
        l = l.a[0]
    out = []
    for e in reversed(chain):
        if e.op == "alt":
            out.append(("alt", [log_tree(x) for x in e.a]))
        elif e.op == "loop":
            out.append(("loop", [log_tree(x) for x in e.a[1:]]))
        else:
            out.append(e)
    return out


def mkagg(kind, variant, fields):
    # eta: S{t.0, t.1, ..} == t
    if fields and variant == 0:
        f0 = fields[0]
        if f0.op == "fld" and f0.a[1] == 0 and len(fields) == f0.a[2]:
            b = f0.a[0]
            if all(f.op == "fld" and f.a[0] is b and f.a[1] == i for i, f in enumerate(fields)):
                return b
        if kind == CPLX and f0.op == "el" and fields[1].op == "el" and f0.a[0] is fields[1].a[0] \
                and f0.a[1] == fields[1].a[1] == "f" and sub(fields[1].a[2], f0.a[2]) is K(1):
            return mk("el", f0.a[0], "c", f0.a[2])
    return mk("agg", kind, variant, tuple(fields))


def some(v):
    return mkagg(OPT, 1, (v,))


NONE = mk("agg", OPT, 0, ())
REG = sym("REG")


def usz(unit):
    return {"f": 1, "c": 2, "x": 1}.get(unit)


def upos(i, unit):
    n = usz(unit)
    return scale(i, n) if n else mul(i, REG)


def ulen(sl):
    b, st, en, u = sl.a
    d = sub(en, st)
    n = usz(u)
    return div(d, K(n)) if n else div(d, REG)


def fop(o, *a):
    a = list(a)
    if o in ("f+", "f*"):
        a.sort(key=lambda x: x.id)
    if all(x.op == "kf" for x in a):
        try:
            v = [float(x.a[0]) for x in a]
            r = {"f+": lambda: v[0] + v[1], "f-": lambda: v[0] - v[1], "f*": lambda: v[0] * v[1],
                 "f/": lambda: v[0] / v[1], "fneg": lambda: -v[0]}[o]()
            return KF(r)
        except Exception:
            pass
    if o == "fneg" and a[0].op == "fneg":
        return a[0].a[0]
    if o == "f*":
        for i in (0, 1):
            if a[i].op == "kf" and float(a[i].a[0]) == 1.0:
                return a[1 - i]
    if o == "f/" and a[1].op == "kf" and float(a[1].a[0]) == 1.0:
        return a[0]
    return mk(o, *a)


def KF(x):
    return mk("kf", repr(float(x)))


class Body:
    pass


class Engine:
    def __init__(self, facts, opts=None):
        self.f = facts
        self.T = facts["types"]
        self.I = facts["insts"]
        self.bodies = {}
        for b in facts["bodies"]:
            self.bodies[b["id"]] = b
        self.prep_cache = {}
        self.opts = opts or {}
        self.evfacts = {}
        self.unknown = {}
        self.reset()
        self.handlers = {}
        self.rx = []
        import models
        models.install(self)

    def reset(self):
        self.panics = []
        self.frames = {}
        self.evfacts = {}
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.lf = {}
        self.af = {}
        self.chslices = {}
        self.uids = {}
        self.typ = {}
        self.notes = set()
        self.visited = set()

    # ---------------------------------------------------------------- types
    def tpath(self, i):
        t = self.T[i]
        return t.get("path") if t["k"] == "adt" else None

    def unit_of(self, i):
        """element type id -> unit"""
        t = self.T[i]
        if t["k"] == "prim" and t["name"] in ("f32", "f64"):
            return "f"
        if t["k"] == "adt":
            if t["path"] == CPLX:
                return "c"
            if "simd_extensions" in t["path"]:
                return "r"
        return "x"

    def is_float(self, i):
        t = self.T[i]
        return t["k"] == "prim" and t["name"] in ("f32", "f64")

    # ---------------------------------------------------------------- body preparation
    def prep(self, bid):
        p = self.prep_cache.get(bid)
        if p is None:
            p = self.prep_cache[bid] = self._prep(self.bodies[bid])
        return p

    def _prep(self, b):
        B = Body()
        B.b = b
        B.blocks = b["blocks"]
        B.argc = b["argc"]
        n = len(B.blocks)
        succ = []
        for bb in B.blocks:
            if bb is None:
                succ.append([])
                continue
            t = bb["t"]
            k = t[0]
            if k == "goto":
                x = [t[1]]
            elif k == "switch":
                x = [v[1] for v in t[2]] + [t[3]]
            elif k == "drop":
                x = [t[2]]
            elif k == "call":
                x = [t[4]] if t[4] >= 0 else []
            elif k == "assert":
                x = [t[3]]
            else:
                x = []
            succ.append([y for y in x if y is not None and y >= 0 and B.blocks[y] is not None])
        B.succ = succ
        # rpo
        seen = [False] * n
        order = []
        stack = [(0, iter(succ[0]))]
        seen[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    stack.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        rpo = {u: i for i, u in enumerate(order)}
        B.rpo = rpo
        # dominators
        preds = {u: [] for u in order}
        for u in order:
            for v in succ[u]:
                preds[v].append(u)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                ps = [p for p in preds[u] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while rpo[x] > rpo[y]:
                            x = idom[x]
                        while rpo[y] > rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(u) != new:
                    idom[u] = new
                    ch = True

        def dom(a, c):
            while True:
                if a == c:
                    return True
                if c == 0:
                    return False
                c = idom[c]
        loops = {}
        for u in order:
            for v in succ[u]:
                if dom(v, u):
                    body = loops.setdefault(v, {v})
                    w = [u]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        B.loops = loops
        # liveness + address taken
        taken = set()
        use = {}
        deff = {}

        def ops(o, us):
            if o[0] in ("p", "m"):
                us_place(o[1], us)

        def us_place(p, us):
            us.add(p[0])
            for q in p[1:]:
                if isinstance(q, list) and q[0] == "i":
                    us.add(q[1])
        for u in order:
            us, df = set(), set()

            def rd(x):
                for z in x:
                    if z not in df:
                        us.add(z)
            for s_ in B.blocks[u]["s"]:
                if s_[0] == "=":
                    r = s_[2]
                    x = set()
                    if r[0] in ("ref", "reborrow"):
                        pl = r[2] if r[0] == "ref" else r[-1]
                        if isinstance(pl, list):
                            us_place(pl, x)
                            if not (len(pl) > 1 and "*" in pl[1:]):
                                taken.add(pl[0])
                    else:
                        def walk(z):
                            if isinstance(z, list):
                                if z and z[0] in ("p", "m") and len(z) == 2 and isinstance(z[1], list):
                                    us_place(z[1], x)
                                elif z and z[0] == "c" and len(z) == 2 and isinstance(z[1], dict):
                                    pass
                                else:
                                    for y in z:
                                        walk(y)
                        if r[0] == "discr":
                            us_place(r[1], x)
                        else:
                            walk(r[1:])
                            if r[0] in ("len",):
                                us_place(r[1], x)
                    rd(x)
                    p = s_[1]
                    if len(p) == 1:
                        df.add(p[0])
                    else:
                        y = set()
                        us_place(p, y)
                        rd(y)
                elif s_[0] == "sd":
                    y = set()
                    us_place(s_[1], y)
                    rd(y)
                elif s_[0] == "copyno":
                    y = set()
                    for o in s_[1:]:
                        if isinstance(o, list):
                            ops(o, y)
                    rd(y)
            t = B.blocks[u]["t"]
            y = set()
            if t[0] == "switch":
                ops(t[1], y)
            elif t[0] == "call":
                ops(t[1], y)
                for o in t[2]:
                    ops(o, y)
                if len(t[3]) > 1:
                    us_place(t[3], y)
            elif t[0] == "assert":
                ops(t[1], y)
                for o in t[6:]:
                    if isinstance(o, list):
                        ops(o, y)
            elif t[0] == "return":
                y.add(0)
            rd(y)
            if t[0] == "call" and len(t[3]) == 1:
                df.add(t[3][0])
            use[u] = us
            deff[u] = df
        live = {u: set() for u in order}
        ch = True
        while ch:
            ch = False
            for u in reversed(order):
                o = set()
                for v in succ[u]:
                    o |= live[v]
                i = use[u] | (o - deff[u])
                if i != live[u]:
                    live[u] = i
                    ch = True
        B.live = {u: live[u] | taken for u in order}
        return B

    # ---------------------------------------------------------------- memory
    def frame(self, key):
        n = self.frames.get(key)
        if n is None:
            n = self.frames[key] = len(self.frames) + 1
        return n

    def ev(self, st, kind, *a):
        e = mk("ev", kind, *a)
        old = self.evfacts.get(e)
        self.evfacts[e] = st.facts if old is None else old.meet(st.facts)
        if st.log.a and st.log.a[1] is e:
            return
        st.log = mk("log", st.log, e)

    def where(self):
        return self.cur

    def project(self, v, p):
        """value projection"""
        if p[0] == "f":
            i = p[1]
            if v.op == "agg":
                if i < len(v.a[2]):
                    return v.a[2][i]
                return mk("fld", v, i, 0)
            if v.op == "upd":
                for (q, x) in v.a[1]:
                    if q == p[:2]:
                        return x
                return self.project(v.a[0], p)
            if v.op == "el" and v.a[1] == "c":
                return mk("el", v.a[0], "f", add(v.a[2], K(i)))
            if v.op in ("ref", "slice") and i == 0:
                return v
            if v.op == "it":
                return mk("fld", v, i, 0)
            return mk("fld", v, i, p[2] if len(p) > 2 else 0)
        if p[0] == "v":
            if v.op == "agg":
                return v
            return mk("var", v, p[1])
        if p[0] == "i":
            if v.op == "agg" and p[1].op == "k" and 0 <= p[1].a[0] < len(v.a[2]):
                return v.a[2][p[1].a[0]]
            if v.op == "upd":
                for (q, x) in v.a[1]:
                    if q == p:
                        return x
                if any(q[0] == "i" and (q[1].op != "k" or p[1].op != "k") for q, x in v.a[1]):
                    return mk("idx", v, p[1])
                return self.project(v.a[0], p)
            if v.op == "repeat":
                return v.a[0]
            return mk("idx", v, p[1])
        raise Abort("project %r" % (p,))

    def inject(self, v, p, x):
        if p[0] == "f":
            i = p[1]
            if v.op == "agg" and i < len(v.a[2]):
                fs = list(v.a[2])
                fs[i] = x
                return mkagg(v.a[0], v.a[1], fs)
            key = p[:2]
        elif p[0] == "v":
            return x
        else:
            if v.op == "agg" and p[1].op == "k" and 0 <= p[1].a[0] < len(v.a[2]):
                fs = list(v.a[2])
                fs[p[1].a[0]] = x
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            key = p
        if v.op == "upd":
            ov = [(q, y) for q, y in v.a[1] if q != key]
            ov.append((key, x))
            return mk("upd", v.a[0], tuple(ov))
        return mk("upd", v, ((key, x),))

    def read_loc(self, st, loc):
        root, path = loc
        if root[0] == "S":
            v = root[1]
            for p in path:
                v = self.project(v, p)
            return v
        if root[0] == "E":
            e = root[1]
            base, unit, idx, bs, be = e.a
            if base.op == "loc":
                r2, p2 = base.a
                v = self.read_loc(st, (r2, p2))
                v = self.project(v, ("i", idx))
            else:
                if unit != "x":
                    self.ev(st, "r", base, unit, idx, bs, be, self.cur)
                if base.op == "shc":
                    v = mk("agg", "basic_dsp_vector::inline_vector::InlineVector", 1, (mk("shv", base, idx),))
                else:
                    v = st.mem.get(("EW", base, unit, idx)) or mk("el", base, unit, idx)
        elif root[0] == "X":
            v = st.mem.get(root)
            if v is None:
                v = self.deref_default(root[1])
        else:
            v = st.mem.get(root)
            if v is None:
                v = mk("uninit", root[1], root[2])
        for p in path:
            v = self.project(v, p)
        return v

    def deref_default(self, t):
        return mk("deref", t)

    def write_loc(self, st, loc, x):
        root, path = loc
        if root[0] == "E":
            e = root[1]
            base, unit, idx, bs, be = e.a
            if base.op == "loc":
                self.write_loc(st, (base.a[0], base.a[1] + (("i", idx),) + path), x)
                return
            if path:
                old = mk("el", base, unit, idx)
                if unit == "c" and path[0][0] == "f" and len(path) == 1:
                    self.ev(st, "w", base, "f", add(idx, K(path[0][1])), x, bs, be, self.cur)
                    return
                x = self.set_path(old, path, x)
            if unit == "x" or True:
                self.ev(st, "w", base, unit, idx, x, bs, be, self.cur)
            return
        if root[0] == "S":
            return
        if not path:
            st.mem[root] = x
            return
        v = st.mem.get(root)
        if v is None:
            v = self.deref_default(root[1]) if root[0] == "X" else mk("uninit", root[1], root[2])
        st.mem[root] = self.set_path(v, path, x)

    def set_path(self, v, path, x):
        if not path:
            return x
        return self.inject(v, path[0], self.set_path(self.project(v, path[0]), path[1:], x))

    def deref(self, st, v):
        """value of a pointer -> location"""
        o = v.op
        if o == "ref":
            return (v.a[0], v.a[1])
        if o == "slice":
            return (("S", v), ())
        if o == "ptr":
            base, unit, idx = v.a
            return (("E", mk("E", base, unit, idx, K(0), mk("inf"))), ())
        if o == "fld" and v.a[1] == 0 and v.a[2] == 0 and v.a[0].op in ("ref", "slice"):
            return self.deref(st, v.a[0])
        return (("X", v), ())

    def place(self, st, fr, pl):
        """MIR place -> location"""
        loc = (("L", fr, pl[0]), ())
        for q in pl[1:]:
            if q == "*":
                loc = self.deref(st, self.read_loc(st, loc))
            elif q[0] == "f":
                nf = q[3] if len(q) > 3 else 0
                loc = (loc[0], loc[1] + (("f", q[1], nf),)) if nf else (loc[0], loc[1] + (("f", q[1]),))
            elif q[0] == "d":
                loc = (loc[0], loc[1] + (("v", q[1]),))
            elif q[0] == "i":
                i = st.mem.get(("L", fr, q[1]))
                loc = self.index_loc(st, loc, i)
            elif q[0] == "c":
                if q[3]:
                    sl = loc[0][1] if loc[0][0] == "S" else None
                    if sl is None:
                        raise Abort("fromend")
                    i = sub(ulen(sl), K(q[1]))
                else:
                    i = K(q[1])
                loc = self.index_loc(st, loc, i)
            else:
                raise Abort("place %r" % (q,))
        return loc

    def index_loc(self, st, loc, i):
        if i is None:
            raise Abort("index unset")
        if loc[0][0] == "S":
            return self.elem(loc[0][1], i)
        return (loc[0], loc[1] + (("i", i),))

    def elem(self, sl, i):
        base, s0, en, u = sl.a
        return (("E", mk("E", base, u, add(s0, upos(i, u)), s0, en)), ())

    def as_slice(self, st, v, hint=None):
        """pointer-ish value -> slice term"""
        if v.op == "slice":
            return v
        if v.op == "ref":
            x = self.read_loc(st, (v.a[0], v.a[1]))
            if x.op in ("slice",):
                return x
            if x.op == "agg" and x.a[0] == "array":
                return mk("slice", mk("loc", v.a[0], v.a[1]), K(0), K(len(x.a[2])), "x")
            if x.op == "repeat":
                return mk("slice", mk("loc", v.a[0], v.a[1]), K(0), x.a[1], "x")
            if x.op == "upd" or x.op == "uninit":
                y = x
                while y.op == "upd":
                    y = y.a[0]
                n = K(len(y.a[2])) if y.op == "agg" and y.a[0] == "array" else y.a[1] if y.op == "repeat" else mk("arrlen", x)
                return mk("slice", mk("loc", v.a[0], v.a[1]), K(0), n, "x")
            return self.vec_slice(x, hint)
        return mk("slice", v, K(0), mk("len", v), hint or self.typ.get(v, "x"))

    def vec_slice(self, x, unit=None):
        if x.op == "slice":
            return x
        if x.op == "rvec":
            return mk("slice", x.a[0], K(0), upos(x.a[1], unit or "f"), unit or "f")
        if x.op == "ref" and x.a[0][0] in ("X",):
            x = mk("deref", x.a[0][1]) if not x.a[1] else x
        n = mk("len", x)
        return mk("slice", x, K(0), upos(n, unit or "f"), unit or "f")

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, st, fr, o):
        if o[0] in ("p", "m"):
            return self.read_loc(st, self.place(st, fr, o[1]))
        if o[0] == "c":
            return self.const(o[1])
        return mk("rtcheck")

    def const(self, c):
        if c["k"] == "fn":
            if "inst" in c and c["inst"] is not None:
                return mk("fn", c["inst"])
            return mk("fnpath", c["fn"])
        v = c["v"]
        if v is None:
            t = self.T[c["ty"]]
            if t["k"] == "fndef" and t.get("inst") is not None:
                return mk("fn", t["inst"])
            if t["k"] == "adt" and t["kind"] == "struct" and not t["vs"][0]["f"]:
                return mkagg(t["path"], 0, ())
            return mk("cst", c["t"])
        r = self.constval(v, c["ty"], c["t"])
        return r if r is not None else mk("cst", c["t"])

    def constval(self, v, ty, txt):
        if v is None:
            return None
        if "i" in v:
            return K(v["i"])
        if "b" in v:
            return K(v["b"])
        if "f" in v:
            return KF(float(v["f"])) if v["f"] not in ("NaN", "inf", "-inf") else mk("kf", v["f"])
        if "z" in v:
            t = self.T[ty]
            if t["k"] == "fndef" and t.get("inst") is not None:
                return mk("fn", t["inst"])
            if t["k"] == "closure":
                return mk("agg", "closure#%s" % t.get("inst"), 0, ())
            return None
        if "ref" in v:
            t = self.T[ty]
            x = self.constval(v["ref"], t["t"], txt + ".*") if "t" in t else None
            return mk("ref", ("S", x), ()) if x is not None else None
        if "agg" in v:
            tid, var, fs = v["agg"]
            t = self.T[tid]
            if t["k"] == "tuple":
                if not fs:
                    return UNIT
                name, ftys = "tuple", t.get("args") or [None] * len(fs)
            elif t["k"] == "adt":
                name = t["path"]
                ftys = [f[1] for f in t["vs"][var]["f"]]
            else:
                name, ftys = "array", [t.get("t")] * len(fs)
            return mkagg(name, var, tuple(self.constval(f, ft, "%s.%d" % (txt, i)) or mk("cst", "%s.%d" % (txt, i))
                                          for i, (f, ft) in enumerate(zip(fs, ftys))))
        return None

    def opty(self, fr, o):
        """type id of an operand when cheaply known"""
        if o[0] == "c":
            return o[1].get("ty")
        p = o[1]
        b = self.stack[-1]
        if len(p) == 1:
            return b.b["locals"][p[0]][0]
        q = p[-1]
        if isinstance(q, list) and q[0] == "f":
            return q[2]
        ty = b.b["locals"][p[0]][0]
        for q in p[1:]:
            t = self.T[ty]
            if q == "*":
                if "t" in t:
                    ty = t["t"]
                elif t["k"] == "adt" and t.get("args"):
                    ty = t["args"][0]
                else:
                    return None
            elif q[0] == "f":
                ty = q[2]
            elif q[0] in ("i", "c"):
                ty = t.get("t")
            if ty is None:
                return None
        return ty

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow"):
            loc = self.place(st, fr, r[2] if k == "ref" else r[-1])
            return self.mkref(loc)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(r[1], a, b, self.opty(fr, r[2]))
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return bnot(a) if a.op in ("k", "eq", "gt", "not", "and", "or", "sym", "fld", "fcmp", "call", "el", "var") else mk("un", "Not", a)
            if r[1] == "Neg":
                t = self.opty(fr, r[2])
                return fop("fneg", a) if t is not None and self.is_float(t) else scale(a, -1)
            if r[1] == "PtrMetadata":
                if a.op == "slice":
                    return ulen(a)
                t = self.opty(fr, r[2])
                if t is not None and self.T[t].get("t") is not None:
                    pt = self.T[self.T[t]["t"]]
                    if pt["k"] == "slice":
                        return ulen(self.as_slice(st, a, self.unit_of(pt["t"])))
                return mk("len", a)
            return mk("un", r[1], a)
        if k == "cast":
            if r[1] == "BoxDerefTransmute" and r[2][0] in ("p", "m") and len(r[2][1]) > 1:
                # a box is represented by a reference, or by the value it holds
                loc = self.place(st, fr, r[2][1][:-1])
                v = self.read_loc(st, loc)
                return v if v.op in ("ref", "slice", "ptr", "el") else self.mkref(loc)
            a = self.operand(st, fr, r[2])
            return self.cast(st, r[1], a, r[3], self.opty(fr, r[2]))
        if k == "agg":
            kind, ty, var, os = r[1], r[2], r[3], r[4]
            vs = tuple(self.operand(st, fr, o) for o in os)
            if kind == "tuple":
                return mk("agg", "tuple", 0, vs) if vs else UNIT
            if kind == "array":
                return mk("agg", "array", 0, vs)
            if kind == "closure":
                return mk("agg", "closure#%s" % self.T[ty].get("inst"), 0, vs)
            if kind == "adt":
                t = self.T[ty]
                # driver encodes [kind, ty, variant, ops]; accept swapped order
                return mkagg(t["path"], var if t["kind"] == "enum" else 0, vs)
            return mk("agg", kind, 0, vs)
        if k == "discr":
            v = self.read_loc(st, self.place(st, fr, r[1]))
            return self.discr(v)
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r[1]), K(r[2]) if isinstance(r[2], int) else mk("cst", str(r[2])))
        if k == "tls":
            return mk("tls", str(r[1:]))
        raise Abort("rvalue " + k)

    def mkref(self, loc):
        root, path = loc
        if root[0] == "S" and not path and root[1].op == "slice":
            return root[1]
        if root[0] == "X" and not path:
            t = root[1]
            return mk("ref", root, ()) if root in self.known_roots else t
        return mk("ref", root, path)

    known_roots = ()

    def discr(self, v):
        if v.op == "agg":
            return K(v.a[1])
        if v.op == "ite":
            return v
        return mk("discr", v)

    def binop(self, o, a, b, ty):
        t = self.T[ty] if ty is not None else None
        fl = t is not None and t["k"] == "prim" and t["name"] in ("f32", "f64")
        if fl:
            if o in ("Add", "Sub", "Mul", "Div", "Rem"):
                return fop({"Add": "f+", "Sub": "f-", "Mul": "f*", "Div": "f/", "Rem": "frem"}[o], a, b)
            return self.fcmp(o, a, b)
        if t is not None and t["k"] == "ptr":
            if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0]:
                return cmpop(o, a.a[2], b.a[2])
            return mk("ptrcmp", o, a, b)
        if o in ("Add", "AddUnchecked"):
            return add(a, b)
        if o in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if o in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if o in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": add, "S": sub, "M": mul}[o[0]](a, b)
            return mk("agg", "tuple", 0, (r, FALSE))
        if o == "Div":
            return div(a, b)
        if o == "Rem":
            return rem(a, b)
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if t is not None and t["k"] == "prim" and t["name"] == "bool" and o in ("Eq", "Ne"):
                if b.op == "k":
                    r = a if b.a[0] else bnot(a)
                elif a.op == "k":
                    r = b if a.a[0] else bnot(b)
                elif a is b:
                    r = TRUE
                else:
                    sg = 0
                    if a.op == "not":
                        a, sg = a.a[0], 1 - sg
                    if b.op == "not":
                        b, sg = b.a[0], 1 - sg
                    x, y = sorted((a, b), key=lambda z: z.id)
                    r = mk("beq", x, y) if x is not y else TRUE
                    if sg:
                        r = bnot(r)
                return bnot(r) if o == "Ne" else r
            return cmpop(o, a, b)
        if o in ("BitAnd", "BitOr", "BitXor"):
            if a.op == "k" and b.op == "k":
                x, y = a.a[0], b.a[0]
                return K(x & y if o == "BitAnd" else x | y if o == "BitOr" else x ^ y)
            if t is not None and t["k"] == "prim" and t["name"] == "bool" and o != "BitXor":
                n = "and" if o == "BitAnd" else "or"
                for x, y in ((a, b), (b, a)):
                    if x.op == "k":
                        if n == "and":
                            return y if x.a[0] else FALSE
                        return TRUE if x.a[0] else y
                if a is b:
                    return a
                return mk(n, *sorted((a, b), key=lambda z: z.id))
            if o == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.op == "k" and (y.a[0] & (y.a[0] + 1)) == 0:   # x & (2^k-1)
                        return rem(x, K(y.a[0] + 1))
        if o == "Shr" and b.op == "k":
            return div(a, K(1 << b.a[0]))
        if o == "Shl" and b.op == "k":
            return mul(a, K(1 << b.a[0]))
        return mk("bin", o, a, b)

    def fcmp(self, o, a, b):
        if o == "Gt":
            return mk("fcmp", "lt", b, a)
        if o == "Ge":
            return mk("fcmp", "le", b, a)
        if o == "Lt":
            return mk("fcmp", "lt", a, b)
        if o == "Le":
            return mk("fcmp", "le", a, b)
        x, y = sorted((a, b), key=lambda z: z.id)
        r = mk("fcmp", "eq", x, y)
        return bnot(r) if o == "Ne" else r

    def cast(self, st, kind, a, ty, fromty):
        if kind.startswith("IntToInt"):
            t = self.T[ty]
            ft = self.T[fromty] if fromty is not None else None
            if ft is not None and ft["k"] == "prim" and ft["name"] == "bool" and a.op != "k":
                return mk("b2i", a)
            return a
        if kind.startswith("PointerCoercion(Unsize"):
            t = self.T[ty]
            ft = self.T[fromty] if fromty is not None else {}
            if "t" in t and self.T[t["t"]]["k"] == "slice" and "t" in ft and self.T[ft["t"]]["k"] == "array":
                arr = self.T[ft["t"]]
                u = self.unit_of(arr["t"])
                if a.op == "ref":
                    n = arr.get("n")
                    n = K(n) if isinstance(n, int) else mk("arrlen", a)
                    return mk("slice", mk("loc", a.a[0], a.a[1]), K(0), n, "x")
                n = arr.get("n")
                n = K(n) if isinstance(n, int) else mk("len", a)
                return mk("slice", a, K(0), scale(n, usz(u) or 1), u)
            return a
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "FnPtrToPtr"):
            return a
        if kind == "IntToFloat":
            if a.op == "k":
                return KF(a.a[0])
            return mk("i2f", a)
        if kind == "FloatToInt":
            if a.op == "i2f":
                return a.a[0]
            if a.op == "kf":
                try:
                    return K(int(float(a.a[0])))
                except Exception:
                    pass
            return mk("f2i", a)
        if kind == "FloatToFloat":
            return a
        return mk("cast", kind, a)

    # ---------------------------------------------------------------- execution
    def run_body(self, bid, args, st, ctx):
        """-> list of (retval, state)"""
        if self.depth > 60:
            raise Abort("depth")
        B = self.prep(bid)
        self.visited.add(bid)
        fr = self.frame(ctx + (bid,))
        savecur = getattr(self, "cur", None)
        self.depth += 1
        self.stack.append(B)
        saved_ctx = getattr(self, "ctx", None)
        self.ctx = ctx + (bid,) if len(ctx) < 40 else ctx
        self.ctx = (fr,)
        self.fr_inst = self.I[bid]
        st = st.copy()
        for i, v in enumerate(args):
            st.mem[("L", fr, i + 1)] = v
        rets, exits = self.region(B, fr, set(B.rpo), 0, {0: [st]}, None)
        self.ctx = saved_ctx
        self.stack.pop()
        self.depth -= 1
        self.cur = savecur
        out = []
        seen = set()
        for s_ in rets:
            v = s_.mem.get(("L", fr, 0), UNIT)
            s_ = s_.copy()
            for k in [k for k in s_.mem if k[0] == "L" and k[1] == fr]:
                del s_.mem[k]
            key = (v, s_.key())
            if key not in seen:
                seen.add(key)
                out.append((v, s_))
        if len(out) > CAP:
            out = self.merge_rets(out)
        return out

    def merge_rets(self, out):
        groups = {}
        for v, s_ in out:
            groups.setdefault((v, frozenset(s_.mem.items())), []).append((v, s_))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
            else:
                res.append((g[0][0], self.merge_same([x[1] for x in g])))
        if len(res) > 4 * CAP:
            # merge everything with the same return value shape: havoc the difference
            res2 = {}
            for v, s_ in res:
                res2.setdefault(v, []).append(s_)
            res = []
            for v, ss in res2.items():
                if len(ss) > 8:
                    ss = [self.join_states(ss)]
                res.extend((v, x) for x in ss)
        return res

    def merge_same(self, ss):
        f = ss[0].facts
        logs = []
        for x in ss:
            f = f.meet(x.facts)
            if x.log not in logs:
                logs.append(x.log)
        ks = {}
        for x in ss:
            ks.setdefault(x.facts.key(), x.facts)
        if len(ks) > 1:
            f = Facts(f.iv, f.ne, f.b, f.alts + (tuple(ks.values()),))
        return State(dict(ss[0].mem), f, self.merge_logs(logs, [(x.log, x.facts) for x in ss]))

    def merge_logs(self, logs, lfs=()):
        if len(logs) == 1:
            return logs[0]

        def chain(l):
            c = []
            while l.a:
                c.append(l.a[1])
                l = l.a[0]
            return c[::-1]
        cs = [chain(l) for l in logs]
        n = 0
        while all(len(c) > n for c in cs) and all(c[n] is cs[0][n] for c in cs):
            n += 1
        l = NOLOG
        for e in cs[0][:n]:
            l = mk("log", l, e)
        sfx = []
        by = {}
        for lg, c in zip(logs, cs):
            m = NOLOG
            for e in c[n:]:
                m = mk("log", m, e)
            by[lg] = m
            if m not in sfx:
                sfx.append(m)
        ev = mk("alt", *sfx)
        tab = self.af.setdefault(ev, [])
        for lg, f in lfs:
            if (by[lg], f) not in tab:
                tab.append((by[lg], f))
        return mk("log", l, ev)

    def join_states(self, ss):
        m = self.merge_same(ss)
        for k in list(m.mem):
            vs = [x.mem.get(k) for x in ss]
            if any(v is None for v in vs):
                del m.mem[k]
            elif any(v is not vs[0] for v in vs):
                m.mem[k] = self.join_val(vs)
        return m

    def join_val(self, vs):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if v0.op == "agg" and all(v.op == "agg" and v.a[:2] == v0.a[:2] and len(v.a[2]) == len(v0.a[2]) for v in vs):
            return mkagg(v0.a[0], v0.a[1], [self.join_val([v.a[2][i] for v in vs]) for i in range(len(v0.a[2]))])
        return mk("phi", *sorted(set(vs), key=lambda z: z.id))

    def prune(self, B, fr, bb, st):
        live = B.live[bb]
        dead = [k for k in st.mem if k[0] == "L" and k[1] == fr and k[2] not in live]
        if dead:
            st = State(dict(st.mem), st.facts, st.log)
            for k in dead:
                del st.mem[k]
        return st

    def region(self, B, fr, region, entry, pending, header):
        """execute the blocks of `region`; edges to `header` are collected as back edges.
        -> (returned states or back states, exits {bb: states})"""
        rets = []
        exits = {}
        back = []
        rpo = B.rpo
        while pending:
            bb = min(pending, key=lambda x: rpo[x])
            sts = pending.pop(bb)
            seen = set()
            u = []
            for s_ in sts:
                s_ = self.prune(B, fr, bb, s_)
                k = s_.key()
                if k not in seen:
                    seen.add(k)
                    u.append(s_)
            if len(u) > CAP:
                g = {}
                for s_ in u:
                    g.setdefault(frozenset(s_.mem.items()), []).append(s_)
                u = [self.merge_same(x) if len(x) > 1 else x[0] for x in g.values()]
                if len(u) > 3 * CAP:
                    u = [self.join_states(u)]
                    self.notes.add("joined at cap in %s" % self.I[B.b["id"]]["path"])
            if bb in B.loops and bb != header:
                for s_ in u:
                    r, ex = self.loop(B, fr, bb, s_)
                    rets.extend(r)
                    for k, v in ex.items():
                        if k == header:
                            back.extend(v)
                        elif k in region:
                            pending.setdefault(k, []).extend(v)
                        else:
                            exits.setdefault(k, []).extend(v)
                continue
            for s_ in u:
                for (nx, s2) in self.block(B, fr, bb, s_):
                    if nx is None:
                        rets.append(s2)
                    elif nx == header:
                        back.append(s2)
                    elif nx in region:
                        pending.setdefault(nx, []).append(s2)
                    else:
                        exits.setdefault(nx, []).append(s2)
        if header is not None:
            return rets, exits, back
        return rets, exits

    def loop(self, B, fr, h, S0):
        body = B.loops[h]
        uid = mk("L", fr, h)
        S0 = self.prune(B, fr, h, S0)
        if self.opts.get("concrete"):
            r = self.concrete(B, fr, body, h, S0)
            if r is not None:
                return r
        if self.opts.get("unroll"):
            r = self.unroll(B, fr, body, h, S0)
            if r is not None:
                return r
        J = State(dict(S0.mem), S0.facts, NOLOG)
        np = len(self.panics)
        stage = 0
        forced = set()
        first = ()
        changed_once = False
        for it in range(12):
            del self.panics[np:]
            start = State(dict(J.mem), J.facts, NOLOG)
            rets, exits, back = self._loop_once(B, fr, body, h, start)
            if it == 0 and self.opts.get("panics"):
                first = self.panics[np:]
            if not back:
                break
            back = [self.prune(B, fr, h, x) for x in back]
            newmem, changed = self.widen(J, back, S0, uid, it)
            if not changed:
                break
            changed_once = True
            J = State(newmem, S0.facts, NOLOG)
        else:
            self.notes.add("loop not stable in %s" % self.I[B.b["id"]]["path"])
        # assemble logs
        pre = S0.log
        if back:
            bl = []
            for x in back:
                if x.log not in bl:
                    bl.append(x.log)
            bl = [x for x in bl if x is not NOLOG]
            if bl or any(self.recur(J, S0, x, uid) for x in back) or self.opts.get("checks"):
                ev = mk("loop", uid, *bl)
                self.note_loop(ev, S0.facts, [(x.log, x.facts, self.recur(J, S0, x, uid)) for x in back])
                pre = mk("log", pre, ev)

        def fix(x, pre=pre):
            l = pre
            chain = []
            y = x.log
            while y.a:
                chain.append(y.a[1])
                y = y.a[0]
            for e in reversed(chain):
                l = mk("log", l, e)
            return State(x.mem, x.facts, l)
        rets = [fix(x) for x in rets]
        for i in range(np, len(self.panics)):
            p = self.panics[i]
            self.panics[i] = p[:4] + (fix(State(p[3], p[2], p[4])).log,)
        if changed_once:
            # the first iteration starts from the exact state, its panics are not covered by the widened ones
            self.panics[np:np] = [p[:4] + (fix(State(p[3], p[2], p[4]), S0.log).log,) for p in first]
        ex = {k: [fix(x) for x in v] for k, v in exits.items()}
        return rets, ex

    def concrete(self, B, fr, body, h, S0):
        """every iteration of a loop over a collection of known size"""
        np = len(self.panics)
        rets, exits, cur = [], {}, [S0]
        for _ in range(self.opts["concrete"]):
            nxt = []
            for s in cur:
                r, ex, back = self._loop_once(B, fr, body, h, s)
                rets.extend(r)
                for k, v in ex.items():
                    exits.setdefault(k, []).extend(v)
                nxt.extend(self.prune(B, fr, h, b) for b in back)
            if not nxt:
                return rets, exits
            if len(nxt) > 64:
                break
            cur = nxt
        del self.panics[np:]
        return None

    def unroll(self, B, fr, body, h, S0):
        """execute a loop whose number of iterations is a small constant iteration by iteration"""
        np = len(self.panics)
        cur = S0
        for _ in range(self.opts["unroll"]):
            rets, exits, back = self._loop_once(B, fr, body, h, cur)
            if not back:
                return rets, exits
            if rets or exits or len(back) != 1:
                break
            cur = self.prune(B, fr, h, back[0])
        del self.panics[np:]
        return None

    def note_loop(self, ev, entry, bodies):
        """the conditions under which the loop `ev`, entered with the facts `entry`, does another iteration, and the
        recurrences of its widened values"""
        tab = self.lf.setdefault(ev, [])
        for lg, f, rec in bodies:
            if (lg, f, entry, rec) not in tab:
                tab.append((lg, f, entry, rec))

    def recur(self, J, S0, x, uid):
        """((widened value, initial value, value after an iteration), ..)"""
        out = []

        def walk(j, s0, b):
            if j.op == "lv" and j.a[0] is uid:
                out.append((j, s0, b))
                return
            if j is b:
                return
            if b is None or j.op != b.op or len(j.a) != len(b.a):
                return
            same = s0 is not None and s0.op == j.op and len(s0.a) == len(j.a)
            for i, y in enumerate(j.a):
                z = s0.a[i] if same else None
                if isinstance(y, T) and isinstance(b.a[i], T):
                    walk(y, z, b.a[i])
                elif isinstance(y, tuple) and j.op == "agg" and isinstance(b.a[i], tuple) and len(b.a[i]) == len(y):
                    ok = isinstance(z, tuple) and len(z) == len(y)
                    for q, w in enumerate(y):
                        walk(w, z[q] if ok else None, b.a[i][q])
        for k, j in J.mem.items():
            b = x.mem.get(k)
            if b is not None and j.op in ("lv", "agg", "it", "slice", "rvec", "ptr"):
                walk(j, S0.mem.get(k), b)
        return tuple(out)

    def _loop_once(self, B, fr, body, h, start):
        rets, exits, back = [], {}, []
        pend = {}
        for (nx, s2) in self.block(B, fr, h, start):
            if nx is None:
                rets.append(s2)
            elif nx == h:
                back.append(s2)
            elif nx in body:
                pend.setdefault(nx, []).append(s2)
            else:
                exits.setdefault(nx, []).append(s2)
        r, e, b = self.region(B, fr, body - {h}, None, pend, h)
        rets += r
        back += b
        for k, v in e.items():
            exits.setdefault(k, []).extend(v)
        return rets, exits, back

    def widen(self, J, back, S0, uid, it):
        mem = {}
        changed = False
        keys = set(J.mem)
        for k in keys:
            j = J.mem[k]
            bs = [x.mem.get(k) for x in back]
            if any(b is None for b in bs):
                if k[0] == "L":
                    changed = True
                    continue
                bs = [b if b is not None else j for b in bs]
            if all(b is j for b in bs):
                mem[k] = j
                continue
            n = self.widen_val(j, bs, S0.mem.get(k), uid, (k,), it)
            mem[k] = n
            if n is not j:
                changed = True
        for x in back:
            for k in x.mem:
                if k[0] != "L" and k not in keys and k not in mem:
                    # new external write inside the loop
                    j = self.deref_default(k[1]) if k[0] == "X" else None
                    if j is None:
                        continue
                    mem[k] = mk("lv", uid, k)
                    changed = True
        return mem, changed

    def widen_val(self, j, bs, s0, uid, path, it):
        if all(b is j for b in bs):
            return j
        if j.op == "agg" and all(b.op == "agg" and b.a[:2] == j.a[:2] and len(b.a[2]) == len(j.a[2]) for b in bs):
            fs = []
            for i in range(len(j.a[2])):
                s = s0.a[2][i] if s0 is not None and s0.op == "agg" and s0.a[:2] == j.a[:2] else None
                fs.append(self.widen_val(j.a[2][i], [b.a[2][i] for b in bs], s, uid, path + (i,), it))
            return mkagg(j.a[0], j.a[1], fs)
        if j.op == "it" and all(b.op == "it" and b.a[0] is j.a[0] for b in bs):
            s = s0.a[1] if s0 is not None and s0.op == "it" else None
            return mk("it", j.a[0], self.widen_val(j.a[1], [b.a[1] for b in bs], s, uid, path + ("off",), it))
        if j.op == "slice" and all(b.op == "slice" and b.a[0] is j.a[0] and b.a[3] == j.a[3] for b in bs):
            s = s0 if s0 is not None and s0.op == "slice" else None
            return mk("slice", j.a[0],
                      self.widen_val(j.a[1], [b.a[1] for b in bs], s and s.a[1], uid, path + ("s",), it),
                      self.widen_val(j.a[2], [b.a[2] for b in bs], s and s.a[2], uid, path + ("e",), it), j.a[3])
        if any(b.op == "rvec" and b.a[0] is (j.a[0] if j.op == "rvec" else j) for b in bs) and j.op in ("rvec", "sym", "fld", "deref"):
            # storage which grows from what it was
            o = j.a[0] if j.op == "rvec" else j

            def grown(x):
                return mk("rvec", o, mk("len", o)) if x is o else x
            j, bs, s0 = grown(j), [grown(b) for b in bs], None if s0 is None else grown(s0)
        if j.op == "rvec" and all(b.op == "rvec" and b.a[0] is j.a[0] for b in bs):
            s = s0 if s0 is not None and s0.op == "rvec" else None
            return mk("rvec", j.a[0], self.widen_val(j.a[1], [b.a[1] for b in bs], s and s.a[1], uid, path + ("n",), it))
        if j.op == "ptr" and all(b.op == "ptr" and b.a[0] is j.a[0] for b in bs):
            s = s0 if s0 is not None and s0.op == "ptr" else None
            return mk("ptr", j.a[0], j.a[1], self.widen_val(j.a[2], [b.a[2] for b in bs], s and s.a[2], uid, path + ("p",), it))
        lv = mk("lv", uid, path)
        if j is lv:
            return j
        kk = mk("kvar", uid)
        ds = {sub(b, j) for b in bs} if self.intish(j) and all(self.intish(b) for b in bs) else None
        if ds is not None and len(ds) == 1:
            d = next(iter(ds))
            # J = init + d*k: the back value must be J + d with the same d
            if s0 is not None and j is add(s0, mul(d, kk)) and not self.mentions(d, uid):
                return j
            if j is s0 and not self.mentions(d, uid):
                return add(s0, mul(d, kk))
        return lv

    def intish(self, t):
        if t.op in ("k", "lin", "prod", "div", "rem", "len", "kvar"):
            return True
        if t.op in ("lv", "sym", "fld", "call", "min", "max", "discr", "f2i", "el", "clen", "cstart", "phi"):
            return True
        return False

    def mentions(self, t, uid, _seen=None):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return any(self.mentions(x, uid) for x in t)
            return False
        if t.op in ("kvar", "lv") and t.a[0] is uid:
            return True
        return any(self.mentions(x, uid) for x in t.a if isinstance(x, (T, tuple)))

    def branch(self, st, b):
        """-> [(bool, state)]"""
        k = st.facts.known(b)
        if k is not None:
            return [(bool(k), st)]
        out = []
        for v in (1, 0):
            f = st.facts.assume(b, v)
            if f is not None:
                s2 = st.copy()
                s2.facts = f
                out.append((bool(v), s2))
        return out

    def block(self, B, fr, bb, st):
        st = st.copy()
        self.steps += 1
        if self.steps > self.opts.get("max_steps", 400000):
            raise Abort("steps")
        blk = B.blocks[bb]
        inst = self.I[B.b["id"]]
        me = inst["path"]
        for s_ in blk["s"]:
            if s_[0] == "=":
                self.cur = mk("at", me, s_[3])
                v = self.rvalue(st, fr, s_[2])
                self.write_loc(st, self.place(st, fr, s_[1]), v)
            elif s_[0] == "sd":
                raise Abort("set_discriminant")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "unreachable" or k == "unwind":
            return []
        if k == "assert":
            c = self.operand(st, fr, t[1])
            self.cur = mk("at", me, t[5])
            out = []
            for v, s2 in self.branch(st, c):
                if v == bool(t[2]):
                    out.append((t[3], s2))
                elif self.opts.get("panics") or st.facts.known(c) is not None:
                    self.panic(s2, "assert:" + t[4])
            return out
        if k == "switch":
            v = self.operand(st, fr, t[1])
            self.cur = mk("at", me, t[4])
            return self.switch(st, v, t[2], t[3], self.opty(fr, t[1]))
        if k == "call":
            self.cur = mk("at", me, t[5])
            self.here = mk("at", me, t[5], bb)      # several calls of a macro share a line
            args = [self.operand(st, fr, a) for a in t[2]]
            at = [self.opty(fr, a) for a in t[2]]
            fv = t[1]
            dest = t[3]
            out = []
            if t[4] < 0:
                # diverging call
                self.call(B, fr, bb, st, fv, args, at, dest, t)
                return []
            for v, s2 in self.call(B, fr, bb, st, fv, args, at, dest, t):
                self.write_loc(s2, self.place(s2, fr, dest), v)
                out.append((t[4], s2))
            return out
        raise Abort("term " + k)

    def switch(self, st, v, targets, other, ty):
        t = self.T[ty] if ty is not None else None
        if v.op == "k":
            for val, bb in targets:
                if val == v.a[0]:
                    return [(bb, st)]
            return [(other, st)] if other is not None and other >= 0 else []
        isbool = t is not None and t["k"] == "prim" and t["name"] == "bool"
        out = []
        if isbool:
            for val, bb in targets:
                for tv, s2 in self.branch(st, v):
                    if int(tv) == val:
                        out.append((bb, s2))
                    else:
                        out.append((other, s2))
                return out
        cur = [st]
        for val, bb in targets:
            nxt = []
            for s_ in cur:
                for tv, s2 in self.branch(s_, cmpop("Eq", v, K(val))):
                    (out.append((bb, s2)) if tv else nxt.append(s2))
            cur = nxt
        if other is not None and other >= 0:
            out.extend((other, s_) for s_ in cur)
        return out

    def obl(self, st, c, what):
        """the call panics unless `c` holds"""
        if self.opts.get("panics") and st.facts.known(c) != 1:
            f = st.facts.assume(bnot(c), 1)
            if f is not None:
                self.panics.append((what, self.cur, f, dict(st.mem), st.log))

    def panic(self, st, what):
        self.panics.append((what, self.cur, st.facts, dict(st.mem), st.log))

    # ---------------------------------------------------------------- calls
    def call(self, B, fr, bb, st, fv, args, at, dest, t):
        ctx = (fr, bb)
        if fv[0] == "c" and fv[1].get("k") == "fn":
            c = fv[1]
            path = c["fn"]
            inst = self.I[c["inst"]] if c.get("inst") is not None else None
            dt = self.stack[-1].b["locals"][dest[0]][0] if len(dest) == 1 else None
            return self.dispatch(st, path, inst, c.get("inst"), args, at, c.get("targs") or [], ctx, dt, c.get("trait"))
        f = self.operand(st, fr, fv)
        return self.call_value(st, f, args, ctx)

    def dispatch(self, st, path, inst, iid, args, at, targs, ctx, dt, trait):
        self.cargs = (at, targs, dt)
        if trait in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce"):
            tup = args[1]
            return self.call_value(st, args[0], self.untuple(tup), ctx)
        # the actual callee of a resolved trait method
        h = self.handlers.get(path)
        if h is None and inst is not None:
            h = self.handlers.get(inst["path"])
        if h is None and (inst is None or not inst["body"] or self.intercept_rx.match(path)):
            for r, hh in self.rx:
                if r.search(path) or (inst is not None and r.search(inst["path"])):
                    h = hh
                    break
        if h is not None:
            res = h(self, st, path, inst, args, at, targs, ctx, dt)
            if res is not None:
                return res
        if inst is not None and inst["kind"] == "virtual":
            self.ev(st, "vcall", path, tuple(self.snap(st, a) for a in args), self.cur)
            return [(mk("call", path, *[self.snap(st, a) for a in args]), st)]
        if inst is not None and inst["body"]:
            bid = iid
            if bid in self.bodies:
                n = sum(1 for x in self.stack if x.b["id"] == bid)
                if n < 3:
                    return self.run_body(bid, args, st, ctx)
        return self.unknown_call(st, path, inst, args, at, ctx, dt)

    intercept_rx = re.compile(r"$^")

    def snap(self, st, v, depth=0):
        """value snapshot of an argument: references to locals are read through"""
        if depth > 3:
            return v
        if v.op == "ref" and v.a[0][0] in ("L", "X"):
            x = self.read_loc(st, (v.a[0], v.a[1]))
            return self.snap(st, x, depth + 1)
        if v.op == "ref" and v.a[0][0] == "E":
            e = v.a[0][1]
            x = mk("el", e.a[0], e.a[1], e.a[2])
            for p in v.a[1]:
                x = self.project(x, p)
            return x
        if v.op == "agg":
            return mkagg(v.a[0], v.a[1], [self.snap(st, x, depth + 1) for x in v.a[2]])
        return v

    def untuple(self, t):
        if t is UNIT:
            return []
        if t.op == "agg" and t.a[0] == "tuple":
            return list(t.a[2])
        return [t]

    def call_value(self, st, f, args, ctx):
        for _ in range(6):
            if f.op == "agg" and isinstance(f.a[0], str) and f.a[0].startswith("closure#"):
                return self.call_closure(st, f, None, args, ctx)
            if f.op == "fn":
                inst = self.I[f.a[0]]
                return self.dispatch(st, inst["path"], inst, f.a[0], args, [None] * len(args), inst["targs"], ctx, None, inst.get("trait"))
            if f.op == "ref":
                x = self.read_loc(st, (f.a[0], f.a[1]))
                if x.op == "agg" and isinstance(x.a[0], str) and x.a[0].startswith("closure#"):
                    return self.call_closure(st, x, f, args, ctx)
                if x is f:
                    break
                f = x
                continue
            break
        self.ev(st, "ucall", f, tuple(self.snap(st, a) for a in args), self.cur)
        return [(mk("call", "dyn", f, *[self.snap(st, a) for a in args]), st)]

    def call_closure(self, st, clo, ref, args, ctx):
        iid = clo.a[0][8:]
        if iid == "None":
            return self.unknown_call(st, "closure", None, args, [], ctx, None)
        iid = int(iid)
        b = self.bodies.get(iid)
        if b is None:
            return self.unknown_call(st, "closure", None, args, [], ctx, None)
        t1 = self.T[b["locals"][1][0]]
        argc = b["argc"]
        tmp = None
        if t1["k"] == "ref":
            if ref is None:
                st = st.copy()
                tmp = ("L", self.frame(ctx + ("cloenv", iid)), -1)
                st.mem[tmp] = clo
                ref = mk("ref", tmp, ())
            a = [ref] + list(args)
        else:
            a = [clo] + list(args)
        if len(a) != argc:
            # spread mismatch
            if argc == 2 and len(args) > 1:
                a = [a[0], mk("agg", "tuple", 0, tuple(args))]
            elif len(a) < argc:
                a += [mk("cst", "missing")] * (argc - len(a))
        out = self.run_body(iid, a, st, ctx + ("clo",))
        if tmp is not None:
            for _, s2 in out:
                s2.mem.pop(tmp, None)
        return out

    def unknown_call(self, st, path, inst, args, at, ctx, dt):
        name = inst["path"] if inst is not None else path
        self.unknown[name] = self.unknown.get(name, 0) + 1
        sn = [self.snap(st, a) for a in args]
        res = mk("call", name, *sn)
        states = [st.copy()]
        for a, ty in zip(args, list(at) + [None] * len(args)):
            t = self.T[ty] if ty is not None else None
            mutref = t is not None and t["k"] in ("ref", "ptr") and t.get("mut")
            for s2 in states:
                if a.op == "slice":
                    self.ev(s2, "w" if mutref else "use", *((a.a[0], a.a[3], mk("any"), res, a.a[1], a.a[2], self.cur) if mutref else (a, name, self.cur)))
                elif a.op == "ref" and mutref:
                    self.write_loc(s2, (a.a[0], a.a[1]), mk("hv", res, self.cur))
            if a.op in ("agg", "ref") and self.callable(st, a):
                nst = []
                for s2 in states:
                    n = self.closure_argc(s2, a)
                    r = self.call_value(s2, a, [mk("cst", "arg%d" % i) for i in range(n)], ctx + ("unk",))
                    nst.extend(x[1] for x in r)
                states = nst or states
        if dt is not None:
            t = self.T[dt]
            if t["k"] == "ref" and self.T[t["t"]]["k"] == "slice":
                u = self.unit_of(self.T[t["t"]]["t"])
                res = mk("slice", res, K(0), scale(mk("len", res), usz(u) or 1), u)
        return [(res, s2) for s2 in states]

    def callable(self, st, a):
        if a.op == "agg":
            return isinstance(a.a[0], str) and a.a[0].startswith("closure#")
        if a.op == "ref":
            x = self.read_loc(st, (a.a[0], a.a[1]))
            return x.op == "agg" and isinstance(x.a[0], str) and x.a[0].startswith("closure#")
        return False

    def closure_argc(self, st, a):
        if a.op == "ref":
            a = self.read_loc(st, (a.a[0], a.a[1]))
        b = self.bodies.get(int(a.a[0][8:]))
        return b["argc"] - 1 if b else 0

    # ---------------------------------------------------------------- roots
    def expand(self, ty, name, st, depth=0):
        t = self.T[ty]
        k = t["k"]
        if k == "ref" or k == "ptr":
            p = self.T[t["t"]]
            if p["k"] == "slice":
                u = self.unit_of(p["t"])
                b = sym(name)
                return mk("slice", b, K(0), scale(mk("len", b), usz(u) or 1), u)
            if p["k"] in ("dyn", "fnptr", "fndef", "closure"):
                return sym(name)
            root = ("X", sym(name))
            st.mem[root] = self.expand(t["t"], name, st, depth + 1)
            self.known_roots = self.known_roots | {root}
            return mk("ref", root, ())
        if k == "adt":
            p = t["path"]
            if t["kind"] == "struct" and len(t["vs"]) == 1 and depth < 6 and \
                    (p.startswith("basic_dsp") or p == RANGE or p.startswith("std::ops::Range") or p == CPLX):
                if p.endswith("MultiCoreSettings"):
                    return sym(name)
                fs = t["vs"][0]["f"]
                return mkagg(p, 0, [self.expand(fty, "%s.%s" % (name, fn), st, depth + 1) for fn, fty in fs])
            if p == "std::boxed::Box":
                root = ("X", sym(name))
                st.mem[root] = self.expand(t["args"][0], name, st, depth + 1)
                self.known_roots = self.known_roots | {root}
                return mk("ref", root, ())
            return sym(name)
        if k == "tuple":
            if not t["args"]:
                return UNIT
            return mk("agg", "tuple", 0, tuple(self.expand(a, "%s.%d" % (name, i), st, depth + 1) for i, a in enumerate(t["args"])))
        return sym(name)

    def run_root(self, bid, argnames=None, argvals=None, mem=None):
        self.reset()
        self.known_roots = frozenset()
        b = self.bodies[bid]
        st = State({}, F0, NOLOG)
        args = []
        for i in range(b["argc"]):
            loc = b["locals"][i + 1]
            nm = (argnames or {}).get(i) or (loc[1] if len(loc) > 1 and loc[1] else "a%d" % i)
            args.append(argvals[i] if argvals and i in argvals else self.expand(loc[0], nm, st))
        st.mem.update(mem or {})
        self.root_args = args
        init = dict(st.mem)
        self.cur = mk("at", self.I[bid]["path"], 0)
        outs = self.run_body(bid, args, st, ("root",))
        return Result(self, bid, args, init, outs, list(self.panics))


class Result:
    def __init__(self, eng, bid, args, init, outs, panics):
        self.bid = bid
        self.path = eng.I[bid]["path"]
        self.args = args
        self.init = init
        self.outs = outs          # [(retval, State)]
        self.panics = panics
        self.evfacts = eng.evfacts
        self.notes = set(eng.notes)
        self.visited = set(eng.visited)
        self.steps = eng.steps
