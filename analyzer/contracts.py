"""Decides, for every operation and every way it can return, whether outcome and vector metadata agree with the
contract table of meta.py.  An exit path is represented by its path facts; facts, results and the contract are
evaluated under sampled assignments of the call's inputs."""
from fractions import Fraction as Fr
import random

from terms import T, s, mk, sym, K
import engine
from evalr import Env, sample, Skip, NAN, int_atoms
from exits import Exit, ERR, X, Final, inits_of, pre_for, is_vec, vec_fields
import meta

ASPECTS = ("outcome", "len", "cx", "dom", "delta", "mcs", "errstate", "repr")
NS = {"quick": 10, "thorough": 40}


def outcome_name(ex):
    if ex.kind == "err":
        return "err:" + (ERR[ex.reason] if ex.reason is not None and ex.reason < len(ERR) else "?")
    return ex.kind


def subject_vecs(ex, subj):
    return [(n, ex.vecs.get(n)) for n in subj.split(",")]


def fits(env, facts):
    try:
        return not env.holds(facts)
    except Skip:
        return False


def min_kvar(env, facts, terms):
    """loop counters in results stand for the first iteration in which the loop is left: take the smallest value
    consistent with the facts; -> (bounded, any) whether every such counter is bounded from below by the facts"""
    ks = set()
    for t in terms:
        at = set()
        int_atoms(t, at)
        ks |= {a for a in at if a.startswith("kvar(")}
    ok = True
    for k in ks:
        if k not in env.ints:
            ok = False
            continue
        v = env.ints[k]
        lo = v
        tried = 0
        while lo > 0 and tried < 400:
            tried += 1
            env.ints[k] = lo - 1
            env.memo.clear()
            if not fits(env, facts):
                break
            lo -= 1
        env.ints[k] = lo
        env.memo.clear()
        if lo == 0:
            # distinguishable from `unconstrained` only if some fact mentions it
            if not any(k in s(lp) for lp in facts.iv):
                ok = False
    return ok, bool(ks)


def writes_into(log, base, site_ok=None):
    """events that change the storage `base`"""
    out = []
    for e in engine.log_list(log):
        k = e.a[0]
        if k == "w" and e.a[1] is base:
            out.append(e)
        elif k in ("copy", "fill") and isinstance(e.a[1], T) and e.a[1].op == "slice" and e.a[1].a[0] is base:
            out.append(e)
        elif k == "perm" and isinstance(e.a[1], T) and e.a[1].op == "slice" and e.a[1].a[0] is base:
            out.append(e)
        elif k in ("push", "vresize") and e.a[1] is base:
            out.append(e)
        elif k == "fft":
            for x in e.a[2:4]:
                if isinstance(x, T) and x.op == "slice" and x.a[0] is base:
                    out.append(e)
    return out


def same_val(a, b, env, kind):
    """both evaluate to the same value; None = undecided"""
    if a is b:
        return True
    env.opaque = False
    try:
        x = env.i(a) if kind == "i" else env.f(a)
        y = env.i(b) if kind == "i" else env.f(b)
    except Skip:
        return None
    if x is NAN and y is NAN:
        return True
    if x == y:
        return True
    return None if env.opaque else False


def check_root(e, name, r, nsamp=10, seed=1):
    """-> dict(paths, samples, undecided, viol=[(aspect, key, msg)])"""
    spec = meta.spec_for(name)
    out = {"paths": 0, "samples": 0, "obl": 0, "undecided": 0, "unsampled": 0, "viol": [], "panics": len(r.panics), "nospec": spec is None}
    inits = inits_of(r)
    if spec is None or not inits:
        out["nospec"] = True
        return out
    pre = pre_for(inits)
    seen = {}
    tried = set()
    for v, st in r.outs:
        ex = Exit(r, v, st)
        sig = (v, tuple((k, st.mem.get(k)) for k in r.init), frozenset(st.facts.iv.items()) if hasattr(st.facts.iv, "items") else id(st.facts), frozenset(st.facts.b.items()))
        try:
            if sig in tried:
                continue
            tried.add(sig)
        except TypeError:
            pass
        out["paths"] += 1
        if spec is meta._same and all(ex.vecs.get(n) is v for n, v in inits.items() if n in ex.vecs):
            out["obl"] += 1             # no vector changes on this path at all
            continue
        envs = sample(st.facts, nsamp, pre, seed=seed, big=12, tries=60)
        if not envs:
            envs = sample(st.facts, nsamp, pre, seed=seed + 1, big=4000, tries=40)
        if not envs:
            out["unsampled"] += 1
            continue
        for env in envs:
            out["samples"] += 1
            check_one(e, name, r, ex, spec, env, inits, out, seen)
    out["viol"] = [(a, k, m) for (a, k), m in seen.items()]
    return out


def check_one(e, name, r, ex, spec, env, inits, out, seen):
    x = X(env, name, inits)
    try:
        sp = spec(x)
    except Skip:
        out["undecided"] += 1
        return
    got = outcome_name(ex)

    def viol(aspect, what, detail):
        k = "%s:%s:%s" % (name, aspect, what)
        if (aspect, k) not in seen:
            w = ", ".join("%s=%s" % (a, env.ints[a]) for a in sorted(env.used) if a in env.ints and len(a) < 60 and env.ints[a] is not None)
            seen[(aspect, k)] = "%s: %s; inputs %s; path %s" % (name, detail, w[:260], "; ".join(ex.facts.render())[:300])

    outs = set(sp.outs)
    vecs = subject_vecs(ex, sp.subj)
    vecs = [(n, v) for n, v in vecs if v is not None]
    fin = {n: Final(v, env) for n, v in vecs}
    kb = True
    kfs = [t for f in fin.values() for t in (f.len_t,)]
    if kfs:
        kb, anyk = min_kvar(env, env.flat, kfs)
    def representation():
        # ---- representation: length within storage, complex vectors have an even number of values
        for n, fv in ex.vecs.items():
            f = Final(fv, env)
            l, o1 = f.len()
            c, o2 = f.cx()
            if l is None or c is None:
                continue
            out["obl"] += 1
            if sp.n is meta.ANY and n in sp.subj.split(","):
                kbb = False
            else:
                kbb = kb
            if c and l % 2 == 1 and not o1 and not o2 and kbb:
                viol("repr", "%s-odd" % n, "complex vector with an odd number (%s) of values" % l)
            cap, o3 = f.cap()
            if cap is not None and not o1 and not o3 and kbb and l > cap:
                viol("repr", "%s-beyond-storage" % n, "length %s exceeds the storage length %s" % (l, cap))

    # ---- outcome
    out["obl"] += 1
    inv_expected = ("inv" in outs or "len0" in outs)
    decided = True
    if ex.kind in ("errphi", "phi") or "any" in outs:
        decided = False
    oka = {o for o in outs if o in ("ok",)}
    if got.startswith("err"):
        acc = got in outs or "err" in outs
        if decided and not acc:
            viol("outcome", "returns-%s-where-%s" % (got, "/".join(sorted(outs))), "returns %s where the contract requires %s" % (got, " or ".join(sorted(outs))))
        elif not decided:
            out["undecided"] += 1
    elif decided:
        # ok outcome: either allowed ok, or an invalidated vector
        if not oka and not inv_expected:
            viol("outcome", "returns-ok-where-%s" % "/".join(sorted(outs)), "succeeds where the contract requires %s" % " or ".join(sorted(outs)))
            representation()
            return
        elif not oka and inv_expected:
            for n, f in fin.items():
                out["obl"] += 1
                l, op = f.len()
                if l is None or (op and l != 0):
                    out["undecided"] += 1
                elif l != 0:
                    viol("outcome", "%s-not-invalidated" % n, "the vector is not reset to length 0 (length %s) although the operation is not defined for its number space or domain" % l)
                if "inv" in outs:
                    d, op = f.delta()
                    if d is not NAN and not op and l == 0:
                        viol("outcome", "%s-not-marked-erroneous" % n, "the vector is emptied but not marked as erroneous")
    # ---- metadata of the subject
    isinv = False
    if inv_expected and oka:
        # both permitted: decide from the result
        for n, f in fin.items():
            l, op = f.len()
            isinv = isinv or (l == 0 and f.delta()[0] is NAN)
    elif inv_expected:
        isinv = True
    iserr = got.startswith("err")
    for n, f in fin.items():
        init = inits.get(n) or inits.get("v") or inits.get("o")
        if init is None:
            continue
        i0 = Final(init, env)
        if iserr and n != "ret":
            continue
        # length
        if not isinv and ex.kind in ("ok", "err"):
            if iserr:
                want = meta.SPEC_ERR_N.get(name.split("::")[1], 0 if sp.n == 0 else None)
                if name.split("::")[1] == "to_complex":
                    want = 0
                skip = want is None
            else:
                want = sp.n
                skip = want is meta.ANY
                if want is None:
                    want = i0.len()[0]
            if not skip:
                out["obl"] += 1
                l, op = f.len()
                if l is None or op or not kb:
                    out["undecided"] += int(l != want)
                elif l != want:
                    viol("len", "%s-%s" % (n, "err" if iserr else "ok"), "final length %s, contract %s" % (l, want))
        # number space / domain
        for asp, get, want in (("cx", f.cx, sp.c), ("dom", f.dom, sp.d)):
            if want is None:
                want = (i0.cx if asp == "cx" else i0.dom)()[0]
            out["obl"] += 1
            g, op = get()
            if g is None or op:
                out["undecided"] += int(g != want)
            elif g != want:
                lab = {"cx": ("real", "complex"), "dom": ("time", "frequency")}[asp]
                viol(asp, "%s-%s-%s" % (n, "err" if iserr else "inv" if isinv else "ok", lab[int(g)]), "%s flag of the result is %s, contract %s" % (
                    {"cx": "number space", "dom": "domain"}[asp], lab[int(g)], lab[int(want)]))
        # sample step
        if not isinv and not iserr and sp.delta is not meta.ANY:
            want = sp.delta if sp.delta is not None else i0.delta()[0]
            out["obl"] += 1
            g, op = f.delta()
            if g is None or op:
                out["undecided"] += int(g != want)
            elif isinstance(want, tuple):
                if isinstance(g, Fr) and not any(abs(g - w) <= abs(w) / 10**5 for w in want):
                    viol("delta", "%s" % n, "sample step becomes %s instead of %s" % (g, " or ".join(map(str, want))))
                elif g is NAN:
                    viol("delta", "%s-nan" % n, "sample step becomes NaN")
            elif isinstance(g, Fr) and isinstance(want, Fr):
                if abs(g - want) > abs(want) / 10**5:
                    viol("delta", "%s" % n, "sample step becomes %s times the contract's value" % (g / want if want else g))
            elif g is NAN and isinstance(want, Fr):
                viol("delta", "%s-nan" % n, "sample step becomes NaN")
            else:
                out["undecided"] += int(g != want)
        # multicore settings are carried along
        out["obl"] += 1
        src = init
        g, w = vec_fields(f_v(vecs, n))[5], vec_fields(src)[5]
        if g is not w:
            ng, nw = norm_mcs(g), norm_mcs(w)
            if ng != nw:
                if "(" in ng and not ng.startswith(("MultiCoreSettings", "v.", "o.", "d.")):
                    out["undecided"] += 1
                else:
                    viol("mcs", n, "multi core settings are %s instead of those of the input" % ng[:80])
    # ---- an error leaves a borrowed vector unchanged
    if iserr:
        for n, init in inits.items():
            fv = ex.vecs.get(n)
            if fv is None:
                continue
            out["obl"] += 1
            bad = changed(env, init, fv)
            if bad and "MustBe" in got and name.split("::")[1] in meta.ERR_INVALIDATES:
                f = Final(fv, env)
                if f.len() == (0, False) and f.delta()[0] is NAN:
                    bad = []
            if bad:
                viol("errstate", "%s-%s-%s" % (n, got, "+".join(bad)), "returns %s after having changed %s of `%s`" % (got, " and ".join(bad), n))
            d0 = vec_fields(init)[0]
            w = writes_into(ex.st.log, d0)
            if w:
                viol("errstate", "%s-%s-samples" % (n, got), "returns %s after having written samples of `%s` (at %s)" % (got, n, s(w[0].a[-1])[:80]))
    representation()


def norm_mcs(t):
    return s(t)


def f_v(vecs, n):
    for m, v in vecs:
        if m == n:
            return v


def changed(env, init, fin):
    a, b = vec_fields(init), vec_fields(fin)
    bad = []
    if a[0] is not b[0]:
        bad.append("storage")
    i0, f0 = Final(init, env), Final(fin, env)
    for lab, x, y in (("sample step", i0.delta(), f0.delta()), ("domain", i0.dom(), f0.dom()), ("number space", i0.cx(), f0.cx()), ("length", i0.len(), f0.len())):
        if x[0] != y[0] and not y[1] and y[0] is not None:
            bad.append(lab)
    return bad
