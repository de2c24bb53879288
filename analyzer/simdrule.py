"""The register layer which all other checks abstract from (simd_extensions): each function of the registers, the split of an
array into edges and registers and the iterators over the edges is analysed on its own, without the abstraction, and its
summary is compared with the meaning which the other checks (effects.REnv) give to it."""
import random
import re
from fractions import Fraction as Fr

import effects
from effects import REnv, Replay, Undecided, Bad
from engine import Engine, Abort, ulen, usz
from evalr import Skip
from terms import s, sym, K, mk

REGS = {"f64x2": ("f64", 2, 8), "f32x4": ("f32", 4, 4)}
M_RX = re.compile(r"simd_extensions::fallback::(f64x2|f32x4)(?: as basic_dsp_vector::simd_extensions::\w+<f(?:32|64)>>| as std::ops::\w+>)?::(\w+)$"
                  r"|simd_extensions::fallback::(f64x2|f32x4)>::(\w+)$")
LANES = {"add", "sub", "mul", "div", "add_real", "add_complex", "scale_real", "scale_complex", "mul_complex", "div_complex", "sqrt", "max",
         "min", "swap_iq", "splat", "from_complex", "ln_approx", "exp_approx", "sin_approx", "cos_approx"}
OPS = r"|^std::ops::(Add|Sub|Mul|Div|Neg)(Assign)?::"
SIMD = r"|^basic_dsp_vector::simd_extensions::(Simd|SimdGeneric|SimdFrom|SimdApproximations|fallback|sse|avx)"


def engine(facts, opts):
    e = Engine(facts, dict(opts, panics=True, unroll=20))
    e.rx = [(r, h) for r, h in e.rx if "simd_extensions" not in r.pattern or "RegType" in r.pattern]
    e.intercept_rx = re.compile(e.intercept_rx.pattern.replace(SIMD, ""))
    for k in [k for k in e.handlers if "simd_extensions" in k or "WrappingIterator" in k or "create_shifted_copies" in k]:
        del e.handlers[k]

    # operators of registers are analysed, too
    def wrap(r, f):
        def g(e, st, path, inst, args, at, targs, ctx, dt):
            if inst is not None and inst["body"] and "simd_extensions" in inst["path"]:
                return None
            return f(e, st, path, inst, args, at, targs, ctx, dt)
        return r, g
    e.rx = [wrap(r, f) if "std::ops" in r.pattern else (r, f) for r, f in e.rx]
    return e


class SEnv(REnv):
    """addresses are numbers: the array starts at self.base"""
    base = 0
    es = 8
    regsize = 16

    def _i(self, t):
        o, a = t.op, t.a
        if o == "cast" and a[1].op in ("ptr", "ref", "slice") or o == "call" and a[0].endswith("::addr"):
            return self.base + self.es * self.addr(a[1])
        if o == "sizeof":
            n = str(a[0])
            if "x" in n.split("::")[-1]:
                return self.regsize
            if n in ("f32", "f64"):
                return int(n[1:]) // 8
        if o == "ptrcmp":
            x, y = self.addr(a[1]), self.addr(a[2])
            return int({"Gt": x > y, "Lt": x < y, "Ge": x >= y, "Le": x <= y, "Eq": x == y, "Ne": x != y}[a[0]])
        return REnv._i(self, t)

    def addr(self, t):
        """index of the element which a pointer points to"""
        o, a = t.op, t.a
        if o == "ptr":
            return self.i(a[2]) // max(usz(a[1]) or 1, 1)
        if o == "slice":
            return self.i(a[1]) // max(usz(a[3]) or 1, 1)
        if o == "ptroff":
            return self.addr(a[0]) + self.i(a[1])
        if o == "ref" and a[0][0] == "X" and not a[1]:
            k = s(a[0][1])
            if k in self.ints:
                return self.ints[k]
        if s(t) in self.ints:
            return self.ints[s(t)]
        raise Undecided("pointer %s" % s(t)[:40])


def methods(facts):
    """(register, function, instance)"""
    for i, x in enumerate(facts["insts"]):
        if not x["body"]:
            continue
        m = M_RX.search(x["path"])
        if m:
            yield m.group(1) or m.group(3), m.group(2) or m.group(4), i
            continue
        if x["path"].endswith("fallback::f64x2>::zero") or x["path"].endswith("fallback::f32x4>::zero"):
            yield x["path"].split("::")[-2][:-1], "zero", i


class Out:
    def __init__(self):
        self.viol = {}
        self.und = {}
        self.compared = 0
        self.functions = set()

    def v(self, key, msg):
        self.viol.setdefault(key, msg)

    def u(self, what):
        self.und[what] = self.und.get(what, 0) + 1


def paths(e, r, env):
    """the exit path taken for a valuation"""
    for v, st in r.outs:
        rp = Replay(e, env)
        env.memo.clear()
        if rp.check((st.facts.iv, st.facts.ne, st.facts.b, ())):
            return v, st, rp
    return None


def lane_value(env, v, R):
    if v.op != "agg":
        raise Undecided("register " + v.op)
    return [env.f(x) for x in v.a[2]]


def check_lanes(e, reg, m, r, n, out):
    R = REGS[reg][1]
    key = "%s::%s" % (reg, m)
    rnd = random.Random(key)
    args = r.args

    def deref(x):
        return r.init.get(x.a[0], x) if x.op == "ref" else x
    regs = [deref(x) for x in args]
    for k in range(n):
        idx = rnd.randrange(0, 9)
        ln = idx + rnd.choice((R, R, R + 3))
        ints = {}
        for a in args:
            if a.op == "slice":
                ints[s(mk("len", a.a[0]))] = ln
        ni = [s(a) for a, x in zip(args, e.bodies[r.bid]["locals"][1:]) if a.op == "sym" and e.T[x[0]].get("name") == "usize"]
        isb = [s(a) for a, x in zip(args, e.bodies[r.bid]["locals"][1:]) if a.op == "sym" and e.T[x[0]].get("name") == "bool"]
        for x in ni:
            ints[x] = idx % R if m == "extract" else idx
        for x in isb:
            ints[x] = k % 2
        env = SEnv(random.Random(k), ints, 10)
        env.live = True
        env.R = R
        hit = paths(e, r, env)
        if hit is None:
            out.u(key + ": no path")
            continue
        v, st, rp = hit
        env.memo.clear()
        rp.run(st.log)
        if m in ("load", "from_slice_unaligned"):
            b = s(next(a for a in args if a.op == "slice").a[0])
            p = idx if m == "load" else 0
            got = lane_value(env, v, R)
            want = [env.cell(b, p + i) for i in range(R)]
        elif m in ("store", "store_half", "write_to_slice_unaligned"):
            b = s(next(a for a in args if a.op == "slice").a[0])
            p = 0 if m.startswith("write") else idx
            lanes = lane_value(env, regs[0], R)[:R // 2 if m == "store_half" else R]
            want = {(b, p + i): x for i, x in enumerate(lanes)}
            got = dict(env.content)
        elif m in ("to_array", "to_complex_array"):
            got = [env.f(mk("idx", v, i)) if v.op != "agg" else env.f(v.a[2][i]) for i in range(R)] if v.op != "upd" else upd_lanes(env, v, R)
            want = lane_value(env, regs[0], R)
        elif m in ("from_array", "from_complex_array"):
            return
        elif m == "extract":
            got = env.f(v)
            want = lane_value(env, regs[0], R)[idx % R]
        elif m in ("new",):
            got = lane_value(env, v, R)
            want = [env.f(x) for x in args]
        elif m == "zero":
            got = lane_value(env, v, R)
            want = [Fr(0)] * R
        elif m in ("sum_real", "sum_complex"):
            got = env.f(v)
            want = env.f(mk("simd", m, regs[0]))
        elif m in ("complex_abs", "complex_abs_squared"):
            # the upper half isn't used
            got = lane_value(env, v, R)[:R // 2]
            want = env.lanes(mk("simd", m, regs[0]))[:R // 2]
        elif m == "sin_cos_approx":
            got = lane_value(env, v, R)
            want = env.lanes(mk("simd", "sin_approx" if k % 2 else "cos_approx", regs[0]))
        elif m in LANES:
            got = lane_value(env, v, R)
            want = env.lanes(mk("simd", m, *regs))
        else:
            return
        out.functions.add(key)
        out.compared += len(want) if hasattr(want, "__len__") else 1
        if got != want:
            out.v(key, "%s of the register %s doesn't calculate what the operations rely on: %s" % (m, reg, diff(got, want)))
            return
        # the checks of the function itself: an index in range doesn't panic
        for p in r.panics:
            env.memo.clear()
            try:
                if Replay(e, env).check((p[2].iv, p[2].ne, p[2].b, ())):
                    out.v(key + ":panic", "%s of the register %s panics (%s) for a valid index" % (m, reg, p[0]))
                    return
            except (Undecided, Bad, Skip):
                pass


def upd_lanes(env, v, R):
    d = {}
    y = v
    ch = []
    while y.op == "upd":
        ch.append(y.a[1])
        y = y.a[0]
    for c in reversed(ch):
        for (k, i), x in c:
            d[env.i(i) if not isinstance(i, int) else i] = x
    base = y.a[2] if y.op == "agg" else [y.a[0]] * R
    return [env.f(d[i] if i in d else base[i]) for i in range(R)]


def diff(got, want):
    if isinstance(got, dict):
        a = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        return "storage element %s" % (a[:2],)
    if isinstance(got, list):
        a = [i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]]
        return "lane %s" % a
    return "the result differs"


def find(facts, rx):
    r = re.compile(rx)
    return [i for i, x in enumerate(facts["insts"]) if x["body"] and r.search(x["path"])]


def tname(facts, i):
    return [facts["types"][t].get("name", "") for t in facts["insts"][i]["targs"] if isinstance(t, int)]


def check_partition(e, facts, reg, n, seed, out):
    """calc_data_alignment_reqs: registers start at multiples of their size, edges and center tile the array, and the edges
    hold complete complex numbers"""
    el, R, es = REGS[reg]
    key = "%s::calc_data_alignment_reqs" % reg
    ii = find(facts, r"fallback::%s as .*::calc_data_alignment_reqs$" % reg)
    if not ii:
        out.u(key)
        return
    r = e.run_root(ii[0])
    out.functions.add(key)
    arr = next(a for a in r.args if a.op == "slice")
    rnd = random.Random("%s %s" % (key, seed))
    for k in range(n):
        ln = rnd.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, rnd.randrange(0, 70)))
        env = SEnv(random.Random(k), {s(mk("len", arr.a[0])): ln}, 10)
        env.live = True
        env.base = 4096 + es * rnd.randrange(0, 16)
        env.es, env.regsize, env.R = es, es * R, R
        what = "an array of %d elements which starts %d elements behind an aligned address" % (ln, env.base % env.regsize // es)
        for p in r.panics:
            try:
                env.memo.clear()
                if Replay(e, env).check((p[2].iv, p[2].ne, p[2].b, ())):
                    out.v(key + ":panic", "calc_data_alignment_reqs of %s panics (%s) for %s" % (reg, p[0], what))
            except (Undecided, Bad, Skip) as x:
                out.u("%s: %s" % (key, x))
        try:
            hit = paths(e, r, env)
            if hit is None:
                out.u(key + ": no path")
                continue
            v = hit[0]
            env.memo.clear()
            left, right, l2 = (env.i(x) for x in v.a[2][:3])
        except (Undecided, Bad, Skip) as x:
            out.u("%s: %s" % (key, x))
            continue
        if env.opaque:
            out.u(key + ": opaque")
            continue
        out.compared += 1
        mid = l2 - left - right
        bad = None
        if l2 != ln:
            bad = "the length"
        elif left < 0 or right < 0 or mid < 0:
            bad = "edges longer than the array"
        elif mid and mid % R:
            bad = "a center which isn't a multiple of the register length"
        elif mid and (env.base + left * es) % env.regsize:
            bad = "a center which isn't aligned"
        elif left == ln and right:
            bad = "elements in both edges"
        elif mid and left % 2:
            bad = "an edge which splits a complex number"
        if bad:
            out.v(key, "calc_data_alignment_reqs of %s returns left %d, right %d, len %d (%s) for %s" % (reg, left, right, l2, bad, what))
    # array_to_regs
    for i in find(facts, r"fallback::%s as .*::array_to_regs(_mut)?$" % reg):
        r = e.run_root(i)
        m = facts["insts"][i]["path"].split("::")[-1]
        key = "%s::%s" % (reg, m)
        out.functions.add(key)
        arr = next(a for a in r.args if a.op == "slice")
        for k in range(40):
            ln = (k % 5) * R
            env = SEnv(random.Random(k), {s(mk("len", arr.a[0])): ln}, 10)
            env.live = True
            env.base, env.es, env.regsize, env.R = 4096, es, es * R, R
            try:
                for p in r.panics:
                    env.memo.clear()
                    if Replay(e, env).check((p[2].iv, p[2].ne, p[2].b, ())):
                        out.v(key + ":panic", "%s panics (%s) for an aligned array of %d elements" % (key, p[0], ln))
                hit = paths(e, r, env)
                if hit is None:
                    out.u(key + ": no path")
                    continue
                v = hit[0]
                env.memo.clear()
                lo, hi = (env.i(v.a[1]), env.i(v.a[2])) if v.op == "slice" else (None, None)
                if lo is None:
                    raise Undecided("result")
            except (Undecided, Bad, Skip) as x:
                out.u("%s: %s" % (key, x))
                continue
            out.compared += 1
            if lo == hi:
                ok = ln == 0
            else:
                ok = (lo, hi) == (0, ln) and v.a[3] == "r" and v.a[0] is arr.a[0]
            if not ok:
                out.v(key, "%s doesn't return all registers of the array of %d elements" % (key, ln))


class Edges:
    """simulation of the iterators over both ends of a slice, based on the summaries of `new` and `next`"""

    def __init__(self, e, facts, out):
        self.e, self.facts, self.out = e, facts, out
        self.nexts = {}

    def next_of(self, kind, el):
        k = (kind, el)
        if k not in self.nexts:
            ii = [i for i in find(self.facts, r"simd_partition::%s<'a, T> as std::iter::Iterator>::next$" % kind) if el in tname(self.facts, i)]
            self.nexts[k] = self.e.run_root(ii[0]) if ii else None
        return self.nexts[k]

    def field(self, env, t):
        if t.op in ("ptr", "ref", "ptroff", "slice"):
            return env.addr(t)
        return env.i(t)

    def run(self, agg, env, el):
        """indices (with the index the iterator reports) which the iterator visits"""
        kind = agg.a[0].split("::")[-1]
        r = self.next_of(kind, el)
        if r is None:
            raise Undecided("next of %s for %s" % (kind, el))
        me = r.args[0].a[0]
        init = r.init[me]
        names = []
        for x in init.a[2]:
            names.append(s(r.init[x.a[0]] if x.op == "ref" and x.a[0] in r.init else x) if x.op != "ref" else s(x.a[0][1]))
        vals = []
        for x in agg.a[2]:
            vals.append(self.field(env, x) if not ("Phantom" in s(x)) else 0)
        seen = []
        for _ in range(200):
            en = SEnv(random.Random(0), dict(zip(names, vals)), 10)
            en.live = True
            hit = paths(self.e, r, en)
            if hit is None:
                raise Undecided("next: no path")
            v, st, rp = hit
            if v.a[1] == 0:
                return seen
            x = v.a[2][0]
            en.memo.clear()
            if x.op == "agg":
                i = en.i(x.a[2][0])
                seen.append((i, self.field(en, x.a[2][1])))
            else:
                seen.append((None, self.field(en, x)))
            new = st.mem.get(me, init)
            vals = [self.field(en, y) if "_marker" not in s(y) and "Phantom" not in s(y) else 0 for y in new.a[2]]
        raise Undecided("next: endless")


def check_edges(e, facts, n, seed, out):
    ed = Edges(e, facts, out)
    rnd = random.Random("edges %s" % seed)
    for kind in ("EdgeIteratorMut", "IndexedEdgeIteratorMut"):
        for i in find(facts, r"simd_partition::%s::<'a, T>::new$" % kind):
            el = tname(facts, i)[0]
            key = kind
            r = e.run_root(i)
            out.functions.add(kind + "::new")
            arr = next(a for a in r.args if a.op == "slice")
            u = max(usz(arr.a[3]) or 1, 1)
            sy = [a for a in r.args if a.op == "sym"]
            for k in range(n):
                ln = rnd.choice((0, 1, 2, 3, rnd.randrange(0, 16)))
                left = rnd.randrange(0, ln + 1)
                right = rnd.choice((0, ln - left, rnd.randrange(0, ln - left + 1)))
                ints = {s(mk("len", arr.a[0])): ln, s(sy[0]): left, s(sy[1]): right}
                env = SEnv(random.Random(k), ints, 10)
                env.live = True
                try:
                    hit = paths(e, r, env)
                    if hit is None:
                        raise Undecided("new: no path")
                    env.memo.clear()
                    seen = ed.run(hit[0], env, el)
                except (Undecided, Bad, Skip) as x:
                    out.u("%s: %s" % (key, x))
                    continue
                out.functions.add(kind + "::next")
                want = list(range(left)) + list(range(ln - right, ln))
                out.compared += 1
                if [p for _, p in seen] != want:
                    out.v(key, "%s over a slice of %d %s elements with edges of %d and %d visits the elements %s" % (kind, ln, el, left, right, [p for _, p in seen][:12]))
                elif any(x is not None and x != p for x, p in seen):
                    out.v(key + ":index", "%s over a slice of %d %s elements with edges of %d and %d reports wrong indices %s" % (kind, ln, el, left, right, seen[:8]))
    check_views(e, facts, n, seed, out, ed)


def check_views(e, facts, n, seed, out, ed):
    """the views of a SimdPartition: for each kind of slice edges and center tile the first len elements"""
    rnd = random.Random("views %s" % seed)
    P = "basic_dsp_vector::simd_extensions::simd_partition::SimdPartition::<T>::"
    for el in ("f64", "f32"):
        R = 2 if el == "f64" else 4
        runs = {}
        for m in ("center", "center_mut", "rcenter_mut", "edge_iter", "edge_iter_mut", "cedge_iter", "cedge_iter_mut", "redge_iter_mut", "new_simd", "new_all_scalar"):
            ii = [i for i in find(facts, re.escape(P + m) + "$") if el in tname(facts, i)]
            if ii:
                runs[m] = e.run_root(ii[0])
                out.functions.add("SimdPartition::" + m)
        for k in range(n):
            half = rnd.random() < 0.6
            ln = rnd.choice((0, 1, 2, 3, 4, 8, rnd.randrange(0, 40)))
            if half:
                ln -= ln % 2
            if rnd.random() < 0.4 or ln < R:
                left, right = ln, 0
            else:
                left = 2 * rnd.randrange(0, (ln - R) // 2 + 1)
                right = (ln - left) % R
            extra = rnd.choice((0, 0, 2, 6))
            for m, r in runs.items():
                if m[0] in "cr" and m != "center" and m != "center_mut" and not half:
                    continue
                key = "SimdPartition::" + m
                try:
                    msg = view(e, r, m, ln, left, right, extra, el, ed, out)
                except (Undecided, Bad, Skip) as x:
                    out.u("%s: %s" % (key, x))
                    continue
                if msg:
                    out.v(key, "%s of the partition left %d, right %d, len %d (elements of type %s): %s" % (m, left, right, ln, el, msg))


def view(e, r, m, ln, left, right, extra, el, ed, out):
    ints = {}
    if m.startswith("new"):
        sy = [s(a) for a in r.args]
        ints = dict(zip(sy, (left, right, ln) if m == "new_simd" else (ln,)))
        if m == "new_all_scalar":
            left, right = ln, 0
        env = SEnv(random.Random(0), ints, 10)
        env.live = True
        hit = paths(e, r, env)
        if hit is None:
            raise Undecided("no path")
        env.memo.clear()
        got = tuple(env.i(x) for x in hit[0].a[2][:3])
        out.compared += 1
        return None if got == (left, right, ln) else "the fields are %s" % (got,)
    me = r.init[r.args[0].a[0]]
    for x, v in zip(me.a[2], (left, right, ln)):
        ints[s(x)] = v
    arr = next(a for a in r.args if a.op == "slice")
    c = m.startswith("cedge")
    re_ = m.startswith("r")
    total = ln // 2 if c or re_ else ln
    l, rr = (left // 2, right // 2) if c or re_ else (left, right)
    n = total + extra
    ints[s(mk("len", arr.a[0]))] = n
    env = SEnv(random.Random(0), ints, 10)
    env.live = True
    for p in r.panics:
        env.memo.clear()
        if Replay(e, env).check((p[2].iv, p[2].ne, p[2].b, ())):
            return "panics (%s) for a slice of %d elements" % (p[0], n)
    hit = paths(e, r, env)
    if hit is None:
        raise Undecided("no path")
    v = hit[0]
    env.memo.clear()
    if "center" in m:
        if v.op != "slice":
            raise Undecided("result")
        u = max(usz(v.a[3]) or 1, 1)
        lo, hi = env.i(v.a[1]) // u, env.i(v.a[2]) // u
        out.compared += 1
        want = (l, total - rr)
        if hi - lo != want[1] - want[0] or lo != hi and (lo, hi) != want:
            return "the center is %d..%d" % (lo, hi)
        return None
    if v.op == "agg":
        seen = [p for _, p in ed.run(v, env, "num_complex::Complex<%s>" % el if c else el)]
    else:
        seen = []
        for d in descs(v):
            u = max(usz(d.a[3]) or 1, 1)
            seen += list(range(env.i(d.a[1]) // u, env.i(d.a[2]) // u))
    out.compared += 1
    want = list(range(l)) + list(range(total - rr, total))
    if seen != want:
        return "the edges are the elements %s" % (seen[:12],)
    return None


def descs(v):
    if v.op == "it" and v.a[1] is K(0):
        return descs(v.a[0])
    if v.op == "d_chain":
        return descs(v.a[0]) + descs(v.a[1])
    if v.op == "d_sl":
        return [v.a[0]]
    raise Undecided("iterator " + v.op)


TF = "basic_dsp_vector::vector_types::time_freq::"


def check_wrap(e, facts, n, seed, out):
    """iterators which start at an arbitrary (also negative) position of a slice and continue at its other end"""
    rnd = random.Random("wrap %s" % seed)
    for kind, step in (("WrappingIterator", 1), ("ReverseWrappingIterator", -1)):
        nexts = {tname(facts, i)[0]: i for i in find(facts, r"time_freq::%s<T> as std::iter::Iterator>::next$" % kind)}
        for i in find(facts, r"time_freq::%s::<T>::new$" % kind):
            el = tname(facts, i)[0]
            if el not in nexts:
                continue
            u = "c" if "Complex" in el else "f"
            w = usz(u)
            for k in range(n):
                ln = rnd.choice((1, 2, 3, rnd.randrange(1, 9)))
                pos = rnd.choice((0, -1, ln, rnd.randrange(-20, 20)))
                cnt = rnd.choice((0, 1, ln, rnd.randrange(0, 14)))
                r = e.run_root(i, argvals={0: mk("slice", sym("slice"), K(0), K(w * ln), u), 1: K(pos), 2: K(cnt)})
                out.functions.add(kind + "::new")
                key = kind
                if len(r.outs) != 1:
                    out.u("%s: new isn't concrete" % key)
                    continue
                cur = r.outs[0][0]
                got = []
                for _ in range(cnt + 1):
                    r = e.run_root(nexts[el], mem={("X", sym("self")): cur})
                    if len(r.outs) != 1:
                        break
                    v, st = r.outs[0]
                    if v.op != "agg":
                        break
                    if v.a[1] == 0:
                        got.append(None)
                        break
                    x = v.a[2][0]
                    if x.op == "agg" and u == "c":
                        x = x.a[2][0]
                        if x.op == "fld":
                            x = x.a[0]
                    if x.op != "el" or x.a[2].op != "k":
                        break
                    got.append(x.a[2].a[0] // w if x.a[2].a[0] % w == 0 and 0 <= x.a[2].a[0] < ln * w else "outside of the slice: %s" % x.a[2].a[0])
                    cur = st.mem.get(("X", sym("self")), cur)
                out.functions.add(kind + "::next")
                if None not in got:
                    if any(isinstance(x, str) for x in got) or len(got) == cnt + 1:
                        pass
                    else:
                        out.u("%s: next isn't concrete" % key)
                        continue
                want = [(pos + step * (p + 1)) % ln for p in range(cnt)] + [None]
                out.compared += 1
                if got != want:
                    out.v(key, "%s from position %d of a slice of %d %s elements yields the elements %s instead of %s" % (kind, pos, ln, el, got[:10], want[:10]))


def check_shifted(e, facts, n, seed, out):
    """create_shifted_copies: reversed copies of a vector which are shifted by every number of points less than a register"""
    rnd = random.Random("shifted %s" % seed)
    e.opts["unroll"] = 60
    for i in find(facts, r"time_freq::create_shifted_copies$"):
        reg = tname(facts, i)[-1].split("::")[-1]
        if reg not in REGS:
            continue
        R = REGS[reg][1]
        r0 = e.run_root(i)
        me = r0.args[0].a[0]
        me = me[0] if isinstance(me[0], tuple) else me
        x = r0.init.get(me)
        if x is None or x.op != "agg" or len(x.a[2]) != 6:
            out.u("create_shifted_copies: %s" % s(r0.args[0])[:60])
            continue
        for k in range(n):
            a = list(x.a[2])
            cx = rnd.random() < 0.5
            if a[3].op == "agg" and a[3].a[2]:
                a[3] = mk("agg", a[3].a[0], a[3].a[1], (K(int(cx)),))
            else:
                cx = "Complex" in s(a[3])
            st_ = 2 if cx else 1
            ln = st_ * rnd.randrange(1, 9)
            a[4] = K(ln)
            r = e.run_root(i, mem={me: mk("agg", x.a[0], x.a[1], tuple(a))})
            out.functions.add("create_shifted_copies")
            env = SEnv(random.Random(k), {}, 10)
            env.R = R
            want = []
            base = None
            for m in range(R // st_):
                sh = (R // st_ - m) % (R // st_) * st_
                tot = -(-(ln + sh) // R) * R
                row = []
                for j in range(tot):
                    q = tot - st_ * (j // st_ + 1)
                    row.append(None if q < sh or q >= ln + sh else q - sh + j % st_)
                want.append(row)
            for v, st in r.outs:
                env.again({})
                env.live = True
                env.memo.clear()
                rp = Replay(e, env)
                copies, row = [], []
                dts = {env.bkey(ev.a[1]) for ev in effects.chain(st.log) if ev.op == "ev" and ev.a[0] == "r" and ev.a[1].op != "nvec"}
                if len(dts) != 1:
                    raise Undecided("create_shifted_copies reads several arrays")
                dt = dts.pop()
                for ev in effects.chain(st.log):
                    if ev.op != "ev":
                        raise Undecided("create_shifted_copies isn't concrete")
                    env.memo.clear()
                    if ev.a[0] == "push":
                        w = ev.a[2]
                        if w.op == "agg" and w.a[0].split("::")[-1] == "InlineVector":
                            copies.append(row)
                            row = []
                        elif w.op == "agg":
                            row += lane_value(env, w, R)
                        else:
                            rp.event(ev)
                    else:
                        rp.event(ev)
                exp = [[Fr(0) if j is None else env.at(dt, j) for j in row_] for row_ in want]
                out.compared += 1
                if copies != exp:
                    out.v("create_shifted_copies", "create_shifted_copies of %d %s values (registers of type %s): %s" % (ln, "complex" if cx else "real", reg, differs(copies, exp)))


def differs(a, b):
    if len(a) != len(b):
        return "%d copies instead of %d" % (len(a), len(b))
    for m, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "copy %d holds wrong values at the positions %s" % (m, [j for j in range(max(len(x), len(y))) if x[j:j + 1] != y[j:j + 1]][:6])


def run(facts, opts, n, seed):
    out = Out()
    e = engine(facts, opts)
    for reg, m, i in sorted(methods(facts), key=lambda x: x[:2]):
        if m in ("calc_data_alignment_reqs", "array_to_regs", "array_to_regs_mut", "iter_over_vector", "iter_over_complex_vector"):
            continue
        try:
            check_lanes(e, reg, m, e.run_root(i), n, out)
        except (Undecided, Bad, Skip, Abort) as x:
            out.u("%s::%s: %s" % (reg, m, x))
    for reg in REGS:
        try:
            check_partition(e, facts, reg, 20 * n, seed, out)
        except (Undecided, Bad, Skip, Abort) as x:
            out.u("partition %s: %s" % (reg, x))
    try:
        check_edges(e, facts, 10 * n, seed, out)
    except (Undecided, Bad, Skip, Abort) as x:
        out.u("edges: %s" % x)
    for f in (check_wrap, check_shifted):
        try:
            f(e, facts, 5 * n, seed, out)
        except (Undecided, Bad, Skip, Abort) as x:
            out.u("%s: %s" % (f.__name__, x))
    return out


if __name__ == "__main__":
    import sys, time
    import core
    t = time.time()
    o = run(core.extract("vec"), {"max_steps": 1000000}, int(sys.argv[1]), 1)
    for k, v in o.viol.items():
        print("VIOL", k, v)
    print(o.und)
    print(o.compared, len(o.functions), sorted(o.functions), time.time() - t)
