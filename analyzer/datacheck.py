"""Compares the effect summaries of the exit paths with the expected samples (data.py) under valuations of the inputs."""
from fractions import Fraction as Fr

from terms import T, s, mk, sym, K
import engine
import effects
import data
from evalr import Skip
from exits import Exit, Final, inits_of, pre_for, is_vec, vec_fields


def base_of(fv):
    d = fv.a[2][0]
    return s(d.a[0]) if d.op == "rvec" else s(d)


def content(env, fv, n):
    b = base_of(fv)
    return [env.at(b, i) for i in range(n)]


def consistent(env):
    """do the facts about loop counters agree with the iterations of the replay?"""
    f = env.flat
    kv = {}

    def has(t, ops):
        k = (t, ops)
        if k not in kv:
            kv[k] = effects_has(t, ops)
        return kv[k]

    def want(t):
        return has(t, ("kvar", "chunkres")) and not has(t, ("el", "lv", "fold", "cst", "hasnext", "call"))
    env.memo.clear()
    env.opaque = False
    for lp, (lo, hi) in f.iv.items():
        if not want(lp):
            continue
        try:
            v = env.i(lp)
        except Skip:
            return False
        if env.opaque:
            env.opaque = False
            continue
        if (lo is not None and v < lo) or (hi is not None and v > hi) or v in f.ne.get(lp, ()):
            return False
    for lp, ex in f.ne.items():
        if lp not in f.iv and want(lp):
            v = env.i(lp)
            if not env.opaque and v in ex:
                return False
            env.opaque = False
    for b, w in f.b.items():
        if want(b):
            try:
                v = env.i(b)
            except Skip:
                return False
            if not env.opaque and bool(v) != bool(w):
                return False
            env.opaque = False
    return True


def effects_has(t, ops):
    if isinstance(t, T):
        if t.op in ops:
            return True
        if t.op == "chunkres":
            return False
        return any(effects_has(x, ops) for x in t.a if isinstance(x, (T, tuple)))
    if isinstance(t, tuple):
        return any(effects_has(x, ops) for x in t if isinstance(x, (T, tuple)))
    return False


def show(x):
    if isinstance(x, Fr):
        return str(x)
    return str(x)[:24]


def diff(exp, got, env, inv):
    """-> (mismatch text or None, undecided count, compared count)"""
    und = cmp_ = 0
    for i, (x, y) in enumerate(zip(exp, got)):
        if x is None:
            continue
        if isinstance(y, effects.Opq):
            und += 1
            continue
        cmp_ += 1
        if x != y:
            if isinstance(x, tuple) or isinstance(y, tuple):
                # a value outside of the arithmetic, for example a division by zero
                und += 1
                continue
            return "position %d holds %s instead of %s" % (i, inv.get(y, show(y)), inv.get(x, show(x))), und, cmp_
    return None, und, cmp_


def names(env, inits):
    inv = {}
    for n, i0 in inits.items():
        b = base_of(i0)
        for i in range(48):
            inv[effects.hf(env.salt, "cell", b, i)] = "%s[%d]" % (n, i)
    return inv


def check_root(e, name, r, nsamp=4, seed=1, want=None):
    op = name.split("::")[-1]
    out = {"paths": 0, "valuations": 0, "compared": 0, "undecided": {}, "viol": [], "spec": op in data.SPECS}
    inits = inits_of(r)
    sp = data.SPECS.get(op)
    if sp is None or not inits:
        return out

    def und(k):
        out["undecided"][k] = out["undecided"].get(k, 0) + 1
    pre = pre_for(inits)
    for v, st in r.outs:
        ex = Exit(r, v, st)
        if ex.kind != "ok":
            continue
        out["paths"] += 1
        good = 0
        vals = effects.valuations(e, ex, pre, nsamp, seed, R=4 if name.split("::")[0].endswith("32") else 2)
        if not vals:
            und("no valuation")
        for env in vals:
            c = data.Ctx(env, inits)
            try:
                env.memo.clear()
                env.opaque = False
                exp = sp(c)
            except data.Free:
                continue
            except Skip:
                continue
            try:
                rp = effects.replay(e, ex, env)
                if not consistent(env):
                    continue
            except effects.Undecided as x:
                und(str(x)[:60])
                continue
            except effects.Bad:
                continue
            except Skip:
                und("undefined")
                continue
            out["valuations"] += 1
            inv = names(env, inits)
            for vn, want_ in exp.items():
                if vn in ("value", "stats", "statslist"):
                    continue
                fv = ex.vecs.get(vn)
                if fv is None or not is_vec(fv):
                    continue
                n, op_ = Final(fv, env).len()
                if n is None or n != len(want_):
                    und("length")
                    continue
                m, u, k = diff(want_, content(env, fv, n), env, inv)
                out["compared"] += k
                if u:
                    und("abstracted value")
                if m:
                    out["viol"].append((op, vn, m, {a: "%d%s" % (getattr(c, a).n, "c" if getattr(c, a).cx else "") for a in inits}))
            if "value" in exp:
                check_value(env, ex, exp["value"], out, und, op)
            if "stats" in exp:
                check_stats(env, ex, exp["stats"], out, und, op)
            if "statslist" in exp:
                check_columns(env, ex, exp["statslist"], out, und, op)
    return out


def scalar(env, t, integer=False):
    env.opaque = False
    env.memo.clear()
    try:
        x = env.i(t) if integer else env.f(t)
    except (Skip, effects.Undecided):
        return None
    return None if env.opaque else x


def known(x):
    return isinstance(x, (Fr, int)) or isinstance(x, tuple) and x[0] == "C"


def check_value(env, ex, want, out, und, op):
    x = scalar(env, ex.value)
    if not known(x) or not known(want):
        und("abstracted result")
        return
    out["compared"] += 1
    if x != want:
        out["viol"].append((op, "value", "result is %s instead of %s" % (show(x), show(want)), {}))


STAT = ("sum", "count", "average", "rms", "min", "min_index", "max", "max_index")


def check_stats(env, ex, want, out, und, op):
    fs = ex.value.a[2] if isinstance(ex.value, T) and ex.value.op == "agg" else ()
    if len(fs) != 8:
        und("abstracted result")
        return
    for n, t, w in zip(STAT, fs, want):
        x = scalar(env, t, n in ("count", "min_index", "max_index"))
        if not known(x) or not known(w):
            und("abstracted " + n)
            continue
        out["compared"] += 1
        if x != w:
            out["viol"].append((op, n, "is %s instead of %s" % (show(x), show(w)), {}))


def check_columns(env, ex, want, out, und, op):
    """the returned vector of statistics against the columns (None: a column without samples)"""
    t = ex.value
    if not (isinstance(t, T) and t.op == "rvec"):
        und("abstracted result")
        return
    env.opaque = False
    env.memo.clear()
    try:
        n = env.i(t.a[1])
    except (Skip, effects.Undecided):
        n = None
    if n is None or env.opaque:
        und("length of the result")
        return
    out["compared"] += 1
    if n != len(want):
        out["viol"].append((op, "value", "%d statistics instead of %d" % (n, len(want)), {}))
        return
    base = env.bkey(t.a[0])
    for j, ws in enumerate(want):
        x = env.at(base, j)
        if ws is None:
            continue
        if not (isinstance(x, tuple) and x[0] == "X" and isinstance(x[1], tuple) and x[1][0] == "A" and len(x[1][1]) == 8):
            und("abstracted column")
            continue
        for nm, y, w in zip(STAT, x[1][1], ws):
            y = y[1] if nm in ("count", "min_index", "max_index") else y[2]
            if not known(y) or not known(w):
                und("abstracted " + nm)
                continue
            out["compared"] += 1
            if y != w:
                out["viol"].append((op, nm, "of column %d is %s instead of %s" % (j, show(y), show(w)), {}))


# ------------------------------------------------------------------------------------------------ metamorphic rules
def outputs(env, ex, inits):
    """observable result of a replay: samples of the vectors within their length and the scalar result"""
    out = {}
    for vn, fv in ex.vecs.items():
        if not is_vec(fv):
            continue
        env.memo.clear()
        n, op_ = Final(fv, env).len()
        if n is None or op_ or n > 400:
            continue
        c = content(env, fv, n)
        out[vn] = c
    v = ex.value
    if isinstance(v, T) and not is_vec(v) and v.op not in ("unit", "slice", "ref"):
        if v.op == "agg" and not (v.a[0].split("::")[-1] == "Complex"):
            for n, t in enumerate(v.a[2]):
                if isinstance(t, T):
                    out["result.%d" % n] = [scalar(env, t)]
        else:
            out["result"] = [scalar(env, v)]
    return out


def ok_val(x):
    return not isinstance(x, effects.Opq) and x is not None


def compare_runs(a, b):
    """-> ((where, position) | None, compared, undecided)"""
    k = u = 0
    for vn in a:
        if vn not in b or len(a[vn]) != len(b[vn]):
            return (vn, "length"), k, u
        for i, (x, y) in enumerate(zip(a[vn], b[vn])):
            if not ok_val(x) or not ok_val(y):
                u += 1
                continue
            k += 1
            if x != y:
                return (vn, i), k, u
    return None, k, u


RUN = ("kvar", "lv", "acc", "fold", "hasnext", "edge", "clen", "cstart", "chunkres", "el", "cst", "itlen")


def drawn(env, ints):
    """inputs, with those which were drawn during the first replay"""
    return dict(ints, **{k: v for k, v in env.ints.items() if k not in ints and not any(x + "(" in k for x in RUN)})


def variants(e, name, r, nsamp, seed, mode):
    """mode parts: the result of a call divided among several cores; stale: with other contents behind the valid samples and
    in the buffers; bounds: every access lies within its slice"""
    op = name.split("::")[-1]
    out = {"paths": 0, "valuations": 0, "compared": 0, "undecided": {}, "viol": [], "relevant": 0, "accesses": 0}
    inits = inits_of(r)
    if not inits:
        return out

    def und(k):
        out["undecided"][k] = out["undecided"].get(k, 0) + 1
    pre = pre_for(inits)
    R = 4 if name.split("::")[0].endswith("32") else 2
    for v, st in r.outs:
        ex = Exit(r, v, st)
        if ex.kind not in ("ok", "err"):
            continue
        out["paths"] += 1
        if mode == "parts" and not effects.log_chunks(ex.st.log):
            continue
        for env in effects.valuations(e, ex, pre, nsamp, seed, R=R, big=40 if mode == "parts" else 24):
            ints = dict(env.ints)
            if mode == "parts":
                env.circle = "exponential" in op
                if env.circle:
                    for k in list(env.floats):
                        env.floats[k] = Fr(0)
            try:
                rp = effects.replay(e, ex, env, 1, mode == "bounds")
                if not consistent(env):
                    continue
                res = outputs(env, ex, inits)
            except effects.Undecided as x:
                und(str(x)[:60])
                continue
            except (effects.Bad, Skip):
                continue
            out["valuations"] += 1
            if mode == "bounds":
                out["accesses"] += rp.inb
                out["compared"] += rp.inb
                for ev, b, i, n, lo, hi in rp.oob[:1]:
                    out["viol"].append((op, "access", "%s: positions %s..%s of %s accessed through a slice of the positions %s..%s" % (
                        where(ev), i, i + n, b, lo, hi), {}))
                continue
            ints = drawn(env, ints)
            if mode == "stale":
                al = {base_of(i0): env.i(vec_fields(i0)[4]) for i0 in inits.values()}
                todo = [(1, al)]
            else:
                todo = [(2, None), (-3, None), (4, None)]
            for parts, alt in todo:
                env.again(ints, alt)
                try:
                    rp = effects.replay(e, ex, env, parts)
                    if not consistent(env):
                        und("other path")
                        continue
                    got = outputs(env, ex, inits)
                except effects.Undecided as x:
                    und(str(x)[:60])
                    continue
                except (effects.Bad, Skip):
                    und("other path")
                    continue
                d, k, u = compare_runs(res, got)
                out["compared"] += k
                if u:
                    und("abstracted value")
                if d:
                    szs = ", ".join("%s: %d values" % (a, env.i(vec_fields(i0)[4])) for a, i0 in inits.items())
                    out["viol"].append((op, d[0], "%s, position %s (%s)" % (
                        "divided into %d chunks%s the result differs" % (abs(parts), ", the last one first," if parts < 0 else "") if mode == "parts" else "the result depends on storage outside of the valid samples", d[1], szs), {}))
    return out


def where(ev):
    a = ev.a[-1]
    return s(a)[:160]
