"""Matrices: every operation is analysed with the operations of its rows left opaque.  A matrix operation has to carry out the
operation of the same name on every row, exactly once, with the arguments it got, and has to put the results back in the order of
the rows.  The traits' implementations are generic in the type of the rows and can only use the traits of a row, so the result
doesn't depend on what the rows do."""
import random
import re

import core
from engine import Engine, Abort, State, F0, NOLOG, RES, mkagg
from evalr import Env
from terms import K, mk, s, sym, UNIT, cmpop
from interoprule import last, subterms

OPS = re.compile(r"^<?basic_dsp_vector::|\bRow\b|^std::vec::Vec::<|^core::slice::<impl \[T\]>::(reverse|swap)$|^std::iter::|^std::mem::drop$")
PURE = {"len", "points", "is_empty", "domain", "is_complex", "delta", "alloc_len", "get_multicore_settings", "data", "to_slice",
        "get_meta_data", "is_erroneous"}


def engine(facts, opts):
    e = Engine(facts, dict(opts, panics=True, concrete=64))

    def snap(st, v, d=0):
        if d > 8:
            return v
        if v.op == "ref":
            return snap(st, e.read_loc(st, (v.a[0], v.a[1])), d + 1)
        if v.op == "slice" and v.a[0].op == "loc":
            n = [x.a[0] for x in v.a[1:3] if x.op == "k"]
            if len(n) == 2:
                x = e.read_loc(st, v.a[0].a)
                return mkagg("array", 0, [snap(st, e.project(x, ("i", K(i))), d + 1) for i in range(*n)])
        if v.op == "agg":
            return mkagg(v.a[0], v.a[1], [snap(st, x, d + 1) for x in v.a[2]])
        return v
    e.msnap = snap

    def op(e_, st, path, inst, args, at, targs, ctx, dt):
        p = inst["path"] if inst is not None else path
        if "basic_dsp_matrix::" in p or inst is not None and inst["crate"] == "basic_dsp_matrix":
            return None
        a = tuple(snap(st, x) for x in args)
        st = st.copy()
        c = mk("op", p, a)
        e.ev(st, "op", p, a, c)
        for i, (x, t) in enumerate(zip(args, at)):
            ty = e.T[t] if t is not None else {}
            if ty.get("k") == "ref" and ty.get("mut"):
                if x.op == "ref":
                    e.write_loc(st, (x.a[0], x.a[1]), mk("after", c, i))
                elif x.op == "slice":
                    e.ev(st, "wslice", x, c)
        return [(c, st)]

    def arr(v):
        return v.op == "agg" and v.a[0] == "array"

    def vec(e_, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        if m in ("new", "with_capacity"):
            return [(mkagg("array", 0, ()), st)]
        loc = e.deref(st, args[0])
        v = e.read_loc(st, loc)
        if not arr(v):
            return None
        fs = list(v.a[2])
        st = st.copy()

        def put(x):
            e.write_loc(st, loc, mkagg("array", 0, tuple(x)))
        if m == "push":
            put(fs + [args[1]])
            return [(UNIT, st)]
        if m == "pop":
            if not fs:
                return [(mkagg("std::option::Option", 0, ()), st)]
            put(fs[:-1])
            return [(mkagg("std::option::Option", 1, (fs[-1],)), st)]
        if m == "len":
            return [(K(len(fs)), st)]
        if m == "is_empty":
            return [(K(not fs), st)]
        if m == "clear":
            put([])
            return [(UNIT, st)]
        if m in ("remove", "swap_remove", "insert") and args[1].op == "k":
            i = args[1].a[0]
            if m == "insert":
                put(fs[:i] + [args[2]] + fs[i:])
                return [(UNIT, st)]
            if i >= len(fs):
                e.panic(st, "index")
                return []
            x = fs[i]
            if m == "remove":
                put(fs[:i] + fs[i + 1:])
            else:
                fs[i] = fs[-1]
                put(fs[:-1])
            return [(x, st)]
        if m in ("as_slice", "as_mut_slice"):
            return [(e.as_slice(st, args[0]), st)]
        return None

    def rev(e_, st, path, inst, args, at, targs, ctx, dt):
        s_ = e.as_slice(st, args[0])
        if s_.a[0].op != "loc" or s_.a[1].op != "k" or s_.a[2].op != "k":
            return None
        loc = s_.a[0].a
        v = e.read_loc(st, loc)
        if not arr(v):
            return None
        i, j = s_.a[1].a[0], s_.a[2].a[0]
        fs = list(v.a[2])
        st = st.copy()
        m = path.split("::")[-1]
        if m == "reverse":
            fs[i:j] = fs[i:j][::-1]
        else:
            a, b = args[1].a[0], args[2].a[0]
            fs[i + a], fs[i + b] = fs[i + b], fs[i + a]
        e.write_loc(st, loc, mkagg("array", 0, tuple(fs)))
        return [(UNIT, st)]

    def items(st, it, ctx, step):
        """step(item, state, accumulated) -> [(accumulated or None, state)] over a collection of known size; step may stop"""
        d, p0 = it.a
        live = [((), st)]
        done = []
        for i in range(64):
            nxt = []
            for acc, s in live:
                p = K(p0.a[0] + i) if p0.op == "k" else None
                if p is None:
                    return None
                c = e.has(d, p)
                if c.op != "k":
                    return None
                if not c.a[0]:
                    done.append((acc, s))
                    continue
                for x, s2 in e.item(d, p, s, ctx):
                    nxt.extend(step(x, s2, acc))
            live = nxt
            if not live:
                return done
        return None

    def internal(e_, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        it = e.mkiter(st, args[0], at[0] if at else None)
        if it.op == "ref":
            it = e.read_loc(st, (it.a[0], it.a[1]))
        if it.op != "it":
            return None
        early = []
        if m in ("collect", "from_iter"):
            ty = e.T[dt] if dt is not None else {}
            res = ty.get("k") == "adt" and ty["path"].endswith("::Result")

            def step(x, s, acc):
                if not res:
                    return [(acc + (x,), s)]
                out = []
                for i, s2 in variants(s, x):
                    y = pay(x, i)
                    if i:
                        early.append((mkagg(RES, 1, (y,)), s2))
                    else:
                        out.append((acc + (y,), s2))
                return out
            r = items(st, it, ctx, step)
            if r is None:
                return None
            out = [(mkagg("array", 0, a), s) for a, s in r]
            if res:
                out = [(mkagg(RES, 0, (UNIT if e.T[ty["args"][0]]["k"] == "tuple" else a,)), s) for a, s in out]
            return early + out
        if m in ("for_each", "try_for_each"):
            def step(x, s, acc):
                out = []
                for v, s2 in e.call_value(s, args[1], [x], ctx + ("fe", len(acc))):
                    if m == "for_each":
                        out.append((acc + (x,), s2))
                        continue
                    for i, s3 in variants(s2, v):
                        if i:
                            early.append((mkagg(RES, 1, (pay(v, 1),)), s3))
                        else:
                            out.append((acc + (x,), s3))
                return out
            r = items(st, it, ctx, step)
            if r is None:
                return None
            return early + [(UNIT if m == "for_each" else mkagg(RES, 0, (UNIT,)), s) for _, s in r]
        if m in ("fold", "try_fold"):
            def step(x, s, acc):
                a = acc[-1] if acc else args[1]
                out = []
                for v, s2 in e.call_value(s, args[2], [a, x], ctx + ("fold", len(acc))):
                    if m == "fold":
                        out.append((acc + (v,), s2))
                        continue
                    for i, s3 in variants(s2, v):
                        if i:
                            early.append((mkagg(RES, 1, (pay(v, 1),)), s3))
                        else:
                            out.append((acc + (pay(v, 0),), s3))
                return out
            r = items(st, it, ctx, step)
            if r is None:
                return None
            out = [(a[-1] if a else args[1], s) for a, s in r]
            return early + [(v if m == "fold" else mkagg(RES, 0, (v,)), s) for v, s in out]
        return None

    def pay(v, i):
        return e.project(e.project(v, ("v", i)), ("f", 0))

    def variants(st, v):
        d = e.discr(v)
        if d.op == "k":
            return [(d.a[0], st)]
        return [(0 if tv else 1, s2) for tv, s2 in e.branch(st, cmpop("Eq", d, K(0)))]
    e.mvariants, e.mpay = variants, pay

    def extend(e_, st, path, inst, args, at, targs, ctx, dt):
        loc = e.deref(st, args[0])
        v = e.read_loc(st, loc)
        it = e.mkiter(st, args[1], at[1] if len(at) > 1 else None)
        if not arr(v) or it.op != "it":
            return None
        r = items(st, it, ctx, lambda x, s, acc: [(acc + (x,), s)])
        if r is None:
            return None
        out = []
        for a, s in r:
            s = s.copy()
            e.write_loc(s, loc, mkagg("array", 0, v.a[2] + a))
            out.append((UNIT, s))
        return out

    def deref(name):
        old = e.handlers.get(name)

        def f(e_, st, path, inst, args, at, targs, ctx, dt):
            if args[0].op == "ref" and arr(e.read_loc(st, (args[0].a[0], args[0].a[1]))):
                return [(e.as_slice(st, args[0]), st)]
            return old(e_, st, path, inst, args, at, targs, ctx, dt) if old else None
        e.handlers[name] = f
    for n in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut"):
        deref(n)
    e.intercept_rx = OPS
    e.rx[:0] = [
        (re.compile(r"^<?basic_dsp_vector::|\bRow\b"), op),
        (re.compile(r"^std::vec::Vec::<T>::(new|with_capacity)$|^std::vec::Vec::<T, A>::\w+$"), vec),
        (re.compile(r"^core::slice::<impl \[T\]>::(reverse|swap)$"), rev),
        (re.compile(r"^std::iter::(Iterator::(collect|for_each|try_for_each|fold|try_fold)|FromIterator::from_iter)$"), internal),
        (re.compile(r"^std::iter::Extend::extend$"), extend),
    ]
    for k in [k for k in e.handlers if k.startswith("basic_dsp_vector::") or k in (
            "std::iter::Iterator::collect", "std::iter::Iterator::for_each", "std::iter::Iterator::fold",
            "std::iter::Iterator::try_for_each", "std::iter::Iterator::try_fold", "core::slice::<impl [T]>::reverse",
            "core::slice::<impl [T]>::swap")]:
        del e.handlers[k]
    return e


MATRIX = re.compile(r"^basic_dsp_matrix::Matrix(\w)xN$")


def start(e, bid, n):
    """arguments of a root: the rows of a matrix `m` are the values m.0, m.1, .."""
    b = e.bodies[bid]
    st = State({}, F0, NOLOG)
    e.reset()
    e.known_roots = frozenset()

    def value(ty, name, depth=0):
        t = e.T[ty]
        k = t["k"]
        if k in ("ref", "ptr"):
            p = e.T[t["t"]]
            if p["k"] in ("slice", "dyn", "fnptr", "fndef", "closure", "str"):
                return sym(name)
            root = ("X", sym("&" + name))
            st.mem[root] = value(t["t"], name, depth + 1)
            e.known_roots = e.known_roots | {root}
            return mk("ref", root, ())
        if k == "adt" and MATRIX.match(t["path"]):
            return mkagg(t["path"], 0, [value(f, name, depth + 1) if i == "rows" else UNIT for i, f in t["vs"][0]["f"]])
        if k == "adt" and t["path"] == "std::vec::Vec" and e.T[t["args"][0]]["k"] in ("adt", "ref"):
            return mkagg("array", 0, [value(t["args"][0], "%s.%d" % (name, i), depth + 1) for i in range(n)])
        if k == "array":
            return mkagg("array", 0, [value(t["t"], "%s.%d" % (name, i), depth + 1) for i in range(t["n"])])
        return sym(name)
    args = []
    for i in range(b["argc"]):
        l = b["locals"][i + 1]
        args.append(value(l[0], l[1]))
    e.root_args = args
    e.root = bid
    e.cur = mk("at", e.I[bid]["path"], 0)
    init = dict(st.mem)
    outs = e.run_body(bid, args, st, ("root",))
    return args, init, outs



class MEnv(Env):
    """lengths of the rows as numbers"""

    def _i(self, t):
        return self.atom_i(t) if t.op == "op" else Env._i(self, t)


def events(st):
    l, out = st.log, []
    while l.a:
        out.append(l.a[1])
        l = l.a[0]
    return out[::-1]


def same(x, y):
    """x is the value y, or y after some operations changed it (a buffer which is used several times)"""
    for _ in range(64):
        if x is y:
            return True
        if x.op == "after":
            x = x.a[0].a[1][x.a[1]]
        else:
            return False
    return False


def rows_of(v):
    """the rows of a matrix or a list"""
    if v.op == "agg" and isinstance(v.a[0], str) and MATRIX.match(v.a[0]):
        v = next((x for x in v.a[2] if x.op == "agg" and x.a[0] == "array"), v.a[2][0])
    if v.op == "agg" and v.a[0] == "array":
        return v.a[2]
    return None


META = {"domain": "domain", "is_complex": "is_complex", "delta": "delta", "row_len": "len", "row_points": "points",
        "get_meta_data": "get_meta_data"}
CONV = {"to_gen_dsp_mat": "to_gen_dsp_vec", "to_real_time_mat": "to_real_time_vec", "to_real_freq_mat": "to_real_freq_vec",
        "to_complex_time_mat": "to_complex_time_vec"}


class Rule:
    def __init__(self, facts, opts, seed):
        self.facts, self.seed = facts, seed
        self.e = engine(facts, opts)
        self.viol, self.und = {}, {}
        self.obl = self.paths = 0
        self.functions = []

    def bad(self, key, msg):
        self.viol.setdefault(key, msg)

    def run(self, sizes=(0, 1, 2, 3)):
        e = self.e
        for i in self.facts["roots"]:
            nm = self.facts["insts"][i]["path"]
            mod, op = nm.split("::")[-2:]
            if mod not in ("mxn", "m2", "m3", "m4"):
                continue
            self.functions.append(nm.split("harness_mat::")[-1])
            for n in (sizes if mod == "mxn" else (int(mod[1]),)):
                try:
                    args, init, outs = start(e, i, n)
                except Abort as x:
                    self.und[nm] = "abort: %s" % x
                    continue
                self.nm, self.mod, self.opn, self.n = "%s::%s" % (mod, op), mod, op.split("__")[0], n
                self.names = [l[1] for l in e.bodies[i]["locals"][1:e.bodies[i]["argc"] + 1]]
                self.types = [e.T[l[0]] for l in e.bodies[i]["locals"][1:e.bodies[i]["argc"] + 1]]
                bad = [k for k in e.unknown if not k.startswith("closure")] + sorted(e.notes)
                if bad:
                    self.und[nm] = "not modelled: %s" % bad[:2]
                    continue
                if e.panics and op != "convolve_signal__mat" and not (n == 0 and self.opn == "get_meta_data"):
                    for p in e.panics:
                        self.obl += 1
                        self.bad(self.nm + ":panic", "%s panics for a matrix with %d rows (%s)" % (self.nm, n, str(p[1])[:60]))
                elif not outs and not (n == 0 and self.opn == "get_meta_data"):
                    self.bad(self.nm + ":panic", "%s doesn't return for a matrix with %d rows" % (self.nm, n))
                for v, st in outs:
                    self.paths += 1
                    self.path(args, init, v, st)
        return self

    # -------------------------------------------------------------- helpers
    def is_ok(self, st, c, want):
        """the path implies that the operation `c` succeeded (0) or failed (1)"""
        r = self.e.mvariants(st, c)
        return len(r) == 1 and r[0][0] == want

    def result(self, st, c):
        """does the operation `c` return a Result?"""
        return c in self.res

    def path(self, args, init, v, st):
        e, nm, op, n = self.e, self.nm, self.opn, self.n
        bad = lambda k, m: self.bad("%s:%s" % (nm, k), "%s %s" % (nm, m))  # noqa: E731
        ev = [x for x in events(st)]
        ops = [x for x in ev if x.a[0] == "op"]
        first = args[0]
        mut = self.types[0]["k"] == "ref" and self.types[0]["mut"]
        old = e.msnap(State(dict(init), F0, NOLOG), first)
        rows = rows_of(old) or ()
        ret = e.msnap(st, v)
        self.obl += 1
        if op in ("rows", "rows_mut"):
            if ret is not mkagg("array", 0, rows) and not (v.op == "ref" and rows_of(ret) == rows):
                bad("result", "doesn't return the rows of the matrix")
            return
        if op == "col_len":
            if ret is not K(n):
                bad("result", "doesn't return the number of rows")
            return
        if op in META:
            if n and not (ret.op == "op" and last(ret.a[0]) == META[op] and ret.a[1] and ret.a[1][0] is rows[0]):
                bad("result", "doesn't return the %s of the first row" % META[op])
            if not n and any(x.op == "op" for x in subterms(ret)):
                bad("result", "uses a row of a matrix without rows")
            return
        if op == "to_mat":
            if rows_of(ret) != rows:
                bad("order", "changes the rows or their order")
            return
        if op == "get":
            if ret.op != "agg" or len(ret.a[2]) != 2 or rows_of(ret.a[2][0]) != rows:
                bad("order", "changes the rows or their order")
            elif n and not (ret.a[2][1].op == "op" and last(ret.a[2][1].a[0]) == "len" and ret.a[2][1].a[1][0] in rows):
                bad("len", "doesn't return the length of the rows")
            return
        if op == "convolve_signal" and "mat" in self.names[0:1] or nm.endswith("convolve_signal__mat"):
            return self.matrix_convolution(args, init, ret, st, ev, ops, rows, bad)
        want = CONV.get(op, op)
        calls = [None] * n
        for x in ops:
            p, a, c = x.a[1], x.a[2], x.a[3]
            l = last(p)
            if l == want:
                r = next((r for r in range(n) if a and a[0] is rows[r]), None)
                self.obl += 1
                if r is None:
                    again = any(a and same(a[0], y) for y in rows)
                    bad("row", "calls %s %s" % (l, "more than once on a row" if again else "for something which isn't a row"))
                    return
                if calls[r] is not None and mut:
                    bad("row", "calls %s more than once on a row" % l)
                    return
                calls[r] = c
                self.arguments(args, init, a, r, bad)
            elif l not in PURE:
                bad("op", "calls %s instead of %s" % (l, want))
                return
        # what becomes of the rows
        if mut:
            now = rows_of(e.msnap(st, first)) or ()
            for r in range(n):
                self.obl += 1
                y = now[r] if r < len(now) else None
                if calls[r] is None:
                    ok = y is rows[r]
                else:
                    ok = y is not None and y is mk("after", calls[r], 0)
                if not ok:
                    bad("rows", "leaves row %d in the wrong state" % r)
        self.value(ret, st, calls, bad)

    def arguments(self, args, init, a, r, bad):
        """the arguments of the operation of row r"""
        st0 = State(dict(init), F0, NOLOG)
        if len(a) != len(args):
            bad("args", "passes %d arguments on, got %d" % (len(a), len(args)))
            return
        for k in range(1, len(args)):
            self.obl += 1
            w = self.e.msnap(st0, args[k])
            x = a[k]
            rs = rows_of(w)
            ok = same(x, rs[r]) if rs is not None and r < len(rs) else same(x, w)
            if not ok:
                bad("arg:" + self.names[k], "passes something else than its argument `%s` on to row %d" % (self.names[k], r))

    def value(self, ret, st, calls, bad):
        e, n = self.e, self.n
        b = e.bodies[e.root]
        rt = e.T[b["locals"][0][0]]
        done = [c for c in calls if c is not None]
        res = rt["k"] == "adt" and rt["path"].endswith("::Result")
        everyone = len(done) == n
        if not res:
            self.obl += 1
            if not everyone:
                bad("row", "doesn't work on every row")
                return
            if rt["k"] == "tuple":
                return
            got = rows_of(ret)
            if got is None or list(got) != calls:
                bad("result", "doesn't return the results of the rows in their order")
            return
        for i, s2 in e.mvariants(st, ret):
            y = e.mpay(ret, i)
            self.obl += 1
            if i == 0:
                if not everyone:
                    bad("row", "reports success without working on every row")
                    continue
                wrong = [r for r in range(n) if not self.is_ok(s2, calls[r], 0)]
                if wrong:
                    bad("error", "reports success although the operation of row %d may have failed" % wrong[0])
                    continue
                t = e.T[rt["args"][0]]
                if t["k"] == "tuple":
                    continue
                got = rows_of(y)
                if got is None or [g for g in got] != [e.mpay(c, 0) for c in calls]:
                    bad("result", "doesn't return the results of the rows in their order")
            else:
                pair = e.T[rt["args"][1]]["k"] == "tuple"
                code = e.project(y, ("f", 0)) if pair else y
                src = next((c for c in done if same_err(e, code, c, pair)), None)
                if src is None or not self.is_ok(s2, src, 1):
                    bad("error", "reports an error which isn't the one of a row")
                    continue
                if pair:
                    got = rows_of(e.project(y, ("f", 1)))
                    exp = []
                    for c in calls:
                        if c is None:
                            exp.append(None)
                        elif self.is_ok(s2, c, 0):
                            exp.append(e.mpay(c, 0))
                        elif self.is_ok(s2, c, 1):
                            exp.append(e.project(e.mpay(c, 1), ("f", 1)))
                        else:
                            exp.append(None)
                    if got is None or list(got) != exp:
                        bad("result", "doesn't return the results of the rows in their order together with an error")

    # -------------------------------------------------------------- every row is convolved with a row of impulse responses
    def matrix_convolution(self, args, init, ret, st, ev, ops, rows, bad):
        e, n = self.e, self.n
        st0 = State(dict(init), F0, NOLOG)
        imp = rows_of(e.msnap(st0, args[2]))
        env = MEnv(random.Random(self.seed), None, 12)
        for x in ops:
            if last(x.a[1]) == "len":
                env.ints[s(x.a[3])] = 7           # all rows have the same length
        conv, copied, wrote = {}, {}, {}
        pos = {x: i for i, x in enumerate(ev)}
        for x in ev:
            if x.a[0] == "op" and last(x.a[1]) == "convolve_mat":
                a, c = x.a[2], x.a[3]
                r = next((r for r in range(n) if rows_of(a[1]) == rows_of(imp[r])), None)
                self.obl += 1
                if r is None or r in conv:
                    bad("row", "doesn't use every row of impulse responses once")
                    return
                if rows_of(a[0]) != rows:
                    bad("arg:m", "doesn't use the original rows of the matrix for the convolution of row %d" % r)
                conv[r] = c
            elif x.a[0] == "wslice":
                r = next((r for r in conv if conv[r] is x.a[2]), None)
                if r is not None:
                    wrote[r] = (env.i(x.a[1].a[1]), env.i(x.a[1].a[2]))
            elif x.a[0] == "copy":
                d, src = x.a[1], x.a[2]
                r = next((r for r in range(n) if d.a[0].op == "op" and last(d.a[0].a[0]) in ("data_mut", "to_slice_mut") and
                          same(d.a[0].a[1][0], rows[r])), None)
                if r is not None:
                    copied[r] = (env.i(src.a[1]), env.i(src.a[2]))
        for i, s2 in e.mvariants(st, ret):
            self.obl += 1
            if i == 1:
                src = next((c for c in conv.values() if same_err(e, e.mpay(ret, 1), c, False)), None)
                if src is None or not self.is_ok(s2, src, 1):
                    bad("error", "reports an error which isn't the one of a row")
                continue
            for r in range(n):
                self.obl += 2
                if r not in conv or not self.is_ok(s2, conv[r], 0):
                    bad("error", "reports success although row %d isn't convolved or failed" % r)
                elif r not in wrote:
                    self.und[self.nm] = "target of the convolution"
                elif copied.get(r) != wrote[r]:
                    bad("result", "stores the result of another row in row %d" % r)
                elif wrote[r][1] - wrote[r][0] != 7:
                    bad("result", "calculates %d values for a row of length %d" % (wrote[r][1] - wrote[r][0], 7))
                if any(r != q and q in wrote and r in wrote and wrote[r][0] < wrote[q][1] and wrote[q][0] < wrote[r][1]
                       for q in range(n)):
                    bad("result", "overwrites the result of row %d" % r)


def same_err(e, code, c, pair):
    y = e.mpay(c, 1)
    return code is (e.project(y, ("f", 0)) if pair else y)


def run(facts, opts, seed):
    return Rule(facts, opts, seed).run()


if __name__ == "__main__":
    import sys
    import time
    t0 = time.time()
    r = run(core.extract("mat"), {}, 1)
    for k, m in sorted(r.viol.items()):
        print("VIOL", k, m)
    print(list(r.und.items())[:20], len(r.und))
    print(r.obl, r.paths, len(r.functions), "%.1f" % (time.time() - t0))
