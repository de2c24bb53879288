"""The splitting of arrays into chunks (multicore_support): every public function of Chunk is analysed on its own, with an
arbitrary array, step size, settings and an opaque function to execute.  Its effect summary is a nest of loops around calls of
that function; the calls made for a valuation of lengths, steps and thresholds have to tile the array, with the ranges which
belong to the chunks."""
import re

import core
import datacheck
import effects
from effects import REnv, Undecided, Bad
from engine import RANGE, RES, UNIT, Engine, State, Abort, mkagg, some, ulen, usz
from evalr import Skip, sample
from terms import T, s, sym, K, mk

RX = re.compile(r"multicore_support::(\w+::)?Chunk::(execute_partial|execute_with_range|map_on_array_chunks|execute_sym_pairs_with_range|"
                r"get_zipped|get_chunked_results|from_src_to_dest)$")


def install(e):
    H = e.handlers

    def h(*names):
        def d(f):
            for n in names:
                H[n] = f
            return f
        return d


    @h("crossbeam::scope", "crossbeam_utils::thread::scope", "crossbeam::thread::scope", "std::thread::scope")
    def _scope(e, st, path, inst, args, at, targs, ctx, dt):
        out = []
        for v, s2 in e.call_value(st, args[0], [sym("scope")], ctx + ("scope",)):
            s2 = s2.copy()
            out.append((v if path.startswith("std") else mkagg(RES, 0, [v]), s2))
        return out

    def _spawn(e, st, path, inst, args, at, targs, ctx, dt):
        out = []
        for v, s2 in e.call_value(st, args[1], [sym("scope")], ctx + ("spawn",)):
            out.append((mk("call", "handle", v), s2))
        return out
    e.rx.insert(0, (re.compile(r"(crossbeam|std|crossbeam_utils)::thread::Scope(::<.*>)?::spawn$"), _spawn))

    def heap(e, st, path, inst, args, at, targs, ctx, dt):
        return [(args[0], st)]
    for n in ("std::sync::Arc::<T>::new", "std::sync::Mutex::<T>::new", "std::sync::poison::mutex::Mutex::<T>::new"):
        H[n] = heap

    def lock(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mkagg(RES, 0, [mk("call", "guard", e.snap(st, args[0]))]), st)]
    e.rx.insert(0, (re.compile(r"sync::(poison::)?(mutex::)?Mutex::<T>::lock$"), lock))
    e.rx.insert(0, (re.compile(r"InlineVector::<T>::(with_capacity|empty)$"), lambda e, st, path, inst, args, at, targs, ctx, dt: [(mk("call", "ivec"), st)]))

    def push(e, st, path, inst, args, at, targs, ctx, dt):
        e.ev(st, "rpush", args[1], e.cur)
        return [(UNIT, st)]
    e.rx.insert(0, (re.compile(r"InlineVector::<T>::push$"), push))

    def one(e, st, path, inst, args, at, targs, ctx, dt):
        e.ev(st, "rpush", args[0], e.cur)
        return [(mk("call", "ivec"), st)]
    e.rx.insert(0, (re.compile(r"InlineVector::<T>::with_elem$"), one))
    e.intercept_rx = re.compile(e.intercept_rx.pattern + r"|.*(InlineVector::<T>::(with_capacity|empty|push|with_elem)|Scope(::<.*>)?::spawn|Mutex::<T>::lock)$")


def pick(facts):
    """one instance of each function"""
    best = {}
    for i, x in enumerate(facts["insts"]):
        m = RX.search(x["path"])
        if m and x["body"] and m.group(2) not in best:
            best[m.group(2)] = i
    return best


LOOP = {"lv", "kvar", "itlen", "uninit", "any", "hv", "phi", "var", "hasnext", "d_opq", "call", "acc", "fold"}


class TReplay(effects.Replay):
    """collects the calls of the executed function and the results which are handed back"""

    def __init__(self, e, env):
        effects.Replay.__init__(self, e, env)
        self.calls = []
        self.res = []

    def snap(self):
        return effects.Replay.snap(self) + (list(self.calls), list(self.res))

    def restore(self, z):
        effects.Replay.restore(self, z)
        self.calls, self.res = list(z[-2]), list(z[-1])

    def snap_full(self):
        return effects.Replay.snap_full(self) + (list(self.calls), list(self.res))

    def restore_full(self, z):
        effects.Replay.restore_full(self, z)
        self.calls, self.res = list(z[-2]), list(z[-1])

    def conv(self, x):
        if x.op == "slice":
            b, s0, en, u = x.a
            n = max(usz(u) or 1, 1)
            return ("S", s(b), self.ival(s0) // n, self.ival(en) // n)
        if x.op == "agg" and x.a[0] == RANGE:
            return ("R", self.ival(x.a[2][0]), self.ival(x.a[2][1]))
        if x.op == "el" and x.a[1] == "x":
            v = []
            for i in (0, 1):
                v.append(self.ival(mk("fld", x, i)))
            return ("R", v[0], v[1])
        return ("V", x)

    def event(self, ev):
        a = ev.a
        if a[0] == "ucall":
            self.tick()
            self.env.memo.clear()
            self.calls.append((a[1], [self.conv(x) for x in a[2]], ev))
            if len(self.calls) > 200:
                raise Undecided("calls")
            return
        if a[0] == "rpush":
            self.res.append((a[1], len(self.calls)))
            return
        if a[0] == "push" and a[2].op == "agg" and a[2].a[0] == RANGE:
            self.tick()
            env = self.env
            env.memo.clear()
            b = env.bkey(a[1])
            n = env.vlen.get(b, 0)
            env.vlen[b] = n + 1
            self.put(b, n, ("X", ("A", [("M", self.ival(x), None, None) for x in a[2].a[2]])), ev)
            return
        effects.Replay.event(self, ev)


def inputs(rnd):
    """lengths, steps, settings and complexities"""
    while True:
        step = rnd.choice((1, 1, 2, 2, 4, 3))
        n = rnd.choice((0, 1, 2, 3, rnd.randrange(0, 60), rnd.randrange(0, 20)))
        if rnd.random() < 0.8:
            n *= step
        t = [rnd.choice((0, 1, n, n + 1, max(n - 1, 0), rnd.randrange(0, 60))) for _ in range(4)]
        t[1] = max(t[1], t[0] + 1)
        t[3] = max(t[3], t[2] + 1)
        yield step, n, rnd.choice((1, 2, 3, 4, 5, 8, 16)), t, rnd.randrange(3)


def split(f):
    """facts about the inputs, and the others"""
    memo = {}

    def loopy(t):
        if t not in memo:
            memo[t] = datacheck.effects_has(t, LOOP)
        return memo[t]
    a = ({}, {}, {}, ())
    for i, d in enumerate((f.iv, f.ne, f.b)):
        for k, v in d.items():
            if not loopy(k):
                a[i][k] = v
    n = sum(len(x) for x in a[:3])
    return a, n


def check(e, m, r, n, seed):
    import random
    rnd = random.Random("%s %s" % (m, seed))
    out = {"inputs": 0, "decided": 0, "calls": 0, "undecided": {}, "viol": []}
    kinds = set()

    def viol(kind, msg, env):
        if kind not in kinds:
            kinds.add(kind)
            out["viol"].append((kind, msg))

    parts = [(v, st, split(st.facts)[0]) for v, st in r.outs]
    pan = []
    for p in r.panics:
        memo = [k for g in (p[2].iv, p[2].ne, p[2].b) for k in g]
        a, k = split(p[2])
        if k == len(p[2].iv) + len(p[2].ne) + len(p[2].b):
            pan.append((p, (p[2].iv, p[2].ne, p[2].b, ())))
    gen = inputs(rnd)
    for _ in range(n):
        step, ln, cores, t, cx = next(gen)
        ints = {}
        names = {}
        for i, a in enumerate(r.args):
            if a.op == "slice":
                names[i] = s(mk("len", a.a[0]))
        two = m in ("get_zipped", "from_src_to_dest")
        idx = sorted(names)
        b_step, b_len = step, ln
        if m == "execute_sym_pairs_with_range":
            ln -= ln % step
        if two:
            if m == "from_src_to_dest":
                ln -= ln % step
                b_step = rnd.choice((1, 2, 4))
                b_len = ln // step * b_step
            ints[s(r.args[idx[0] + 1])] = step
            ints[s(r.args[idx[1] + 1])] = b_step
            ints[names[idx[1]]] = b_len
        else:
            ints[s(r.args[idx[0] + 1])] = step
        ints[names[idx[0]]] = ln
        env0 = "length %d, step %d%s, %d cores, thresholds %s, complexity %d" % (ln, step, ", second length %d, step %d" % (b_len, b_step) if two else "", cores, t, cx)
        setname = next(s(a.a[0][1]) for a in r.args if a.op == "ref" and a.a[0][0] == "X")
        for i, v in enumerate([cores] + t):
            ints["%s.%d" % (setname, i)] = v
        ints["discr(%s)" % s(r.args[0])] = cx
        ints["complexity"] = cx
        out["inputs"] += 1

        def mkenv():
            env = REnv(random.Random(1), dict(ints), 10)
            env.live = True
            return env
        env = mkenv()
        rp = TReplay(e, env)
        for p, f in pan:
            env.memo.clear()
            try:
                if rp.check(f):
                    viol("panic:" + p[0], "%s panics (%s) at %s for %s" % (m, p[0], s(p[1]), env0), env)
            except (Undecided, Skip, Bad):
                pass
        hit = False
        for v, st, f in parts:
            env = mkenv()
            rp = TReplay(e, env)
            try:
                if not rp.check(f):
                    continue
                rp.run(st.log)
                env.memo.clear()
                full = (st.facts.iv, st.facts.ne, {k: x for k, x in st.facts.b.items() if "hasnext" not in s(k)}, ())
            except (Undecided, Bad) as x:
                k = str(x)[:60]
                out["undecided"][k] = out["undecided"].get(k, 0) + 1
                continue
            # the loops were left for the reason this path gives
            try:
                d = ({k: x for k, x in full[0].items() if k not in f[0] and not datacheck.effects_has(k, ("call",))}, {}, full[2], ())
                if not rp.check(d):
                    continue
            except (Undecided, Skip, Bad) as x:
                k = str(x)[:60]
                out["undecided"][k] = out["undecided"].get(k, 0) + 1
                continue
            hit = True
            verdict(m, r, rp, ln, step, b_len, b_step, idx, lambda k, x: viol(k, "%s: %s for %s" % (m, x, env0), env), v)
            out["calls"] += len(rp.calls)
        if hit:
            out["decided"] += 1
    return out


def verdict(m, r, rp, ln, step, b_len, b_step, idx, viol, ret):
    fn = r.args[-1]
    main = s(r.args[idx[0]].a[0])
    part = s(r.args[idx[-1]].a[0]) if m in ("get_zipped", "from_src_to_dest") else main
    spans = []
    for f, a, ev in rp.calls:
        if f is not fn:
            viol("function", "something else than the given function is called")
            return
        S = [x for x in a if x[0] == "S"]
        R = [x for x in a if x[0] == "R"]
        if m == "execute_partial":
            (_, b, lo, hi), = S[:1]
            spans.append((lo, hi))
        elif m in ("execute_with_range", "map_on_array_chunks", "get_chunked_results"):
            (_, b, lo, hi), (_, x, y) = S[0], R[0]
            spans.append((lo, hi))
            if (x, y) != (lo, hi):
                viol("range", "the chunk %d..%d comes with the range %d..%d" % (lo, hi, x, y))
        elif m == "execute_sym_pairs_with_range":
            for (_, b, lo, hi), (_, x, y) in zip(S, R):
                spans.append((lo, hi))
                if (x, y) != (lo, hi):
                    viol("range", "the chunk %d..%d comes with the range %d..%d" % (lo, hi, x, y))
            if len(S) == 2:
                l1, l2 = S[0][3] - S[0][2], S[1][3] - S[1][2]
                if S[0][2] + S[1][3] != ln or S[0][3] > S[1][2] or not (l1 == l2 or S[0][3] == S[1][2] and 0 <= l1 - l2 <= step):
                    viol("symmetry", "the pair %d..%d and %d..%d is not symmetric" % (S[0][2:] + S[1][2:]))
        else:
            if len(S) != 2 or S[0][1] != main or (S[0][2], S[0][3]) != (0, ln):
                viol("source", "the source array isn't passed completely (%s)" % (a,))
                return
            (_, b, lo, hi), (_, x, y) = S[1], R[0]
            spans.append((lo, hi))
            if x * b_step != lo * step or y * b_step != hi * step:
                viol("range", "the chunk %d..%d comes with the source range %d..%d" % (lo, hi, x, y))
        if any(x[1] != part for x in S[-1:]):
            viol("array", "the function doesn't get a part of the array")
        if m not in ("get_zipped",):
            v = a[-1]
            want = r.args[-2]
            if v[0] == "V" and v[1] is not want:
                viol("arguments", "the arguments aren't passed on unchanged")
    total = b_len if m in ("get_zipped", "from_src_to_dest") else ln
    st = b_step if m in ("get_zipped", "from_src_to_dest") else step
    pos = 0
    for lo, hi in sorted(x for x in spans if x[0] != x[1]):
        if lo < pos:
            viol("overlap", "elements %d..%d are processed twice" % (lo, min(pos, hi)))
            return
        if lo > pos:
            break
        if lo % st:
            viol("step", "a chunk starts at %d, in the middle of an element" % lo)
        pos = hi
    if pos != total:
        viol("gap", "elements from %d on are left out" % pos if pos < total else "elements beyond the end are processed")
    if m in ("map_on_array_chunks", "get_chunked_results", "get_zipped"):
        rs = [x for x, _ in rp.res]
        if len(rs) != len(rp.calls) or any(not (x.op == "call" and x.a[0] == "dyn" and x.a[1] is fn) for x in rs):
            viol("results", "%d results for %d calls" % (len(rs), len(rp.calls)))


def run(facts, opts, n, seed):
    res = {}
    for m, i in sorted(pick(facts).items()):
        e = Engine(facts, dict(opts, panics=True))
        install(e)
        try:
            r = e.run_root(i)
        except Abort as x:
            res[m] = (None, str(x))
            continue
        res[m] = (check(e, m, r, n, seed), None)
    return res


if __name__ == "__main__":
    import sys, time
    facts = core.extract("vec")
    t = time.time()
    for m, (o, a) in run(facts, {"max_steps": 1000000}, int(sys.argv[1]), 1).items():
        print(m, a or o)
    print(time.time() - t)
