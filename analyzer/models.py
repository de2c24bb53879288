"""Transfer functions for library calls (std, num-traits, rustfft, ...) and for the crate's own
leaf primitives (chunked execution, SIMD registers, slice reinterpretation)."""
import re
from terms import *
import engine as E
from engine import mkagg, some, NONE, OPT, RES, CF, RANGE, CPLX, fop, KF, usz, upos, ulen, REG


def install(eng):
    H = eng.handlers
    RX = eng.rx

    def h(*names):
        def d(f):
            for n in names:
                H[n] = f
            return f
        return d

    def rx(p):
        def d(f):
            RX.append((re.compile(p), f))
            return f
        return d

    def rd(st, v):
        return eng.read_loc(st, eng.deref(st, v)) if v.op in ("ref", "ptr", "slice") else eng.read_loc(st, eng.deref(st, v))

    def val(st, v, ty):
        """argument that may be a reference to a scalar -> scalar"""
        if ty is not None and eng.T[ty]["k"] == "ref":
            return rd(st, v)
        if ty is None and v.op == "ref":
            return rd(st, v)
        return v

    def slice_unit(at):
        if at is None:
            return "f"
        t = eng.T[at]
        while t["k"] in ("ref", "ptr"):
            t = eng.T[t["t"]]
        if t["k"] in ("slice", "array"):
            return eng.unit_of(t["t"])
        if t["k"] == "adt" and t.get("args"):
            for a in t["args"]:
                if isinstance(a, int):
                    return eng.unit_of(a)
        return "f"

    def sl(st, v, ty):
        """argument -> slice"""
        if v.op == "slice":
            return v
        if v.op == "ref":
            x = eng.read_loc(st, (v.a[0], v.a[1]))
            if x.op == "slice":
                return x
            if x.op == "ref":
                return sl(st, x, ty)
        return eng.as_slice(st, v, slice_unit(ty))

    # ------------------------------------------------------------------ panics
    def panic(e, st, path, inst, args, at, targs, ctx, dt):
        e.panic(st, path.split("::")[-1])
        return []
    for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed",
              "core::panicking::panic_bounds_check", "std::rt::begin_panic", "core::panicking::panic_nounwind",
              "core::panicking::unreachable_display", "core::option::unwrap_failed", "core::option::expect_failed",
              "core::result::unwrap_failed", "core::panicking::panic_display", "core::panicking::panic_explicit",
              "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed"):
        H[n] = panic

    # ------------------------------------------------------------------ option / result
    def unwrap_like(kind, good, payload=0):
        def f(e, st, path, inst, args, at, targs, ctx, dt):
            v = args[0]
            out = []
            for var, s2 in variants(st, v, 2):
                if var == good:
                    out.append((e.project(e.project(v, ("v", good)), ("f", 0)), s2))
                else:
                    e.panic(s2, kind)
            return out
        return f

    def variants(st, v, n):
        """fork on the discriminant -> [(variant, state)]"""
        d = eng.discr(v)
        if d.op == "k":
            return [(d.a[0], st)]
        out = []
        cur = st
        for i in range(n - 1):
            brs = eng.branch(cur, cmpop("Eq", d, K(i)))
            cur = None
            for tv, s2 in brs:
                if tv:
                    out.append((i, s2))
                else:
                    cur = s2
            if cur is None:
                return out
        out.append((n - 1, cur))
        return out

    def payload(v, var, i=0):
        return eng.project(eng.project(v, ("v", var)), ("f", i))

    for m in ("unwrap", "expect"):
        for o in ("std::option::Option::<T>::", "core::option::Option::<T>::"):
            H[o + m] = unwrap_like("unwrap", 1)
        for o in ("std::result::Result::<T, E>::", "core::result::Result::<T, E>::"):
            H[o + m] = unwrap_like("unwrap", 0)
    H["std::result::Result::<T, E>::unwrap_err"] = unwrap_like("unwrap_err", 1)
    H["std::result::Result::<T, E>::expect_err"] = unwrap_like("unwrap_err", 1)

    def is_var(var):
        def f(e, st, path, inst, args, at, targs, ctx, dt):
            v = rd(st, args[0])
            return [(K(var == i), s2) for i, s2 in variants(st, v, 2)]
        return f
    for n, v in (("std::option::Option::<T>::is_some", 1), ("std::option::Option::<T>::is_none", 0),
                 ("std::result::Result::<T, E>::is_ok", 0), ("std::result::Result::<T, E>::is_err", 1)):
        H[n] = is_var(v)

    @h("std::ops::Try::branch")
    def _branch(e, st, path, inst, args, at, targs, ctx, dt):
        v = args[0]
        t = e.T[targs[0]] if targs else None
        opt = t is not None and t.get("path", "").endswith("Option")
        out = []
        for var, s2 in variants(st, v, 2):
            if opt:
                out.append((mkagg(CF, 0, (payload(v, 1),)) if var == 1 else mkagg(CF, 1, (NONE,)), s2))
            else:
                out.append((mkagg(CF, 0, (payload(v, 0),)) if var == 0 else mkagg(CF, 1, (mkagg(RES, 1, (payload(v, 1),)),)), s2))
        return out

    @h("std::ops::FromResidual::from_residual")
    def _fr(e, st, path, inst, args, at, targs, ctx, dt):
        return [(args[0], st)]

    @h("std::ops::Try::from_output")
    def _fo(e, st, path, inst, args, at, targs, ctx, dt):
        t = e.T[dt] if dt is not None else {}
        if t.get("path", "").endswith("Option"):
            return [(some(args[0]), st)]
        return [(mkagg(RES, 0, (args[0],)), st)]

    def opt_map(e, st, path, inst, args, at, targs, ctx, dt):
        v, f = args[0], args[-1]
        m = path.split("::")[-1]
        isres = "result::Result" in path
        good = 0 if isres else 1
        out = []
        for var, s2 in variants(st, v, 2):
            ok = var == good
            if m in ("map", "and_then"):
                if ok:
                    for r, s3 in e.call_value(s2, f, [payload(v, good)], ctx):
                        out.append(((mkagg(RES, 0, (r,)) if isres else some(r)) if m == "map" else r, s3))
                else:
                    out.append((mkagg(RES, 1, (payload(v, 1),)) if isres else NONE, s2))
            elif m == "map_err":
                if ok:
                    out.append((mkagg(RES, 0, (payload(v, 0),)), s2))
                else:
                    for r, s3 in e.call_value(s2, f, [payload(v, 1)], ctx):
                        out.append((mkagg(RES, 1, (r,)), s3))
            elif m in ("unwrap_or", "unwrap_or_else", "unwrap_or_default"):
                if ok:
                    out.append((payload(v, good), s2))
                elif m == "unwrap_or":
                    out.append((args[1], s2))
                elif m == "unwrap_or_else":
                    out.extend(e.call_value(s2, f, [payload(v, 1)] if isres else [], ctx))
                else:
                    out.append((mk("default"), s2))
            elif m == "map_or":
                if ok:
                    out.extend(e.call_value(s2, args[2], [payload(v, good)], ctx))
                else:
                    out.append((args[1], s2))
            elif m == "map_or_else":
                if ok:
                    out.extend(e.call_value(s2, args[2], [payload(v, good)], ctx))
                else:
                    out.extend(e.call_value(s2, args[1], [payload(v, 1)] if isres else [], ctx))
            elif m == "ok":
                out.append((some(payload(v, 0)) if ok else NONE, s2))
            elif m == "err":
                out.append((NONE if ok else some(payload(v, 1)), s2))
            elif m in ("ok_or", "ok_or_else"):
                if ok:
                    out.append((mkagg(RES, 0, (payload(v, 1),)), s2))
                elif m == "ok_or":
                    out.append((mkagg(RES, 1, (args[1],)), s2))
                else:
                    for r, s3 in e.call_value(s2, f, [], ctx):
                        out.append((mkagg(RES, 1, (r,)), s3))
            elif m == "or_else":
                if ok:
                    out.append((v, s2))
                else:
                    out.extend(e.call_value(s2, f, [payload(v, 1)] if isres else [], ctx))
            elif m == "and":
                out.append((args[1], s2) if ok else (v, s2))
            elif m == "or":
                out.append((v, s2) if ok else (args[1], s2))
            elif m in ("is_some_and", "is_ok_and"):
                if ok:
                    out.extend(e.call_value(s2, f, [payload(v, good)], ctx))
                else:
                    out.append((FALSE, s2))
            else:
                return None
        return out
    rx(r"^(std|core)::(option::Option::<T>|result::Result::<T, E>)::(map|and_then|map_err|unwrap_or|unwrap_or_else|map_or|map_or_else|ok|err|ok_or|ok_or_else|or_else|and|or|is_some_and|is_ok_and)$")(opt_map)

    @rx(r"^(std|core)::option::Option::<T>::(as_ref|as_mut)$|^(std|core)::result::Result::<T, E>::(as_ref|as_mut)$")
    def _asref(e, st, path, inst, args, at, targs, ctx, dt):
        a = args[0]
        loc = e.deref(st, a)
        v = e.read_loc(st, loc)
        out = []
        isres = "result" in path
        for var, s2 in variants(st, v, 2):
            if isres or var == 1:
                r = e.mkref((loc[0], loc[1] + (("v", var), ("f", 0))))
                out.append((mkagg(RES if isres else OPT, var, (r,)), s2))
            else:
                out.append((NONE, s2))
        return out

    @rx(r"^(std|core)::option::Option::<T>::(take|replace|insert)$")
    def _take(e, st, path, inst, args, at, targs, ctx, dt):
        loc = e.deref(st, args[0])
        v = e.read_loc(st, loc)
        e.write_loc(st, loc, NONE if path.endswith("take") else some(args[1]))
        return [(v, st)]

    @rx(r"^(std|core)::option::Option::<&(mut )?T>::(copied|cloned)$")
    def _copied(e, st, path, inst, args, at, targs, ctx, dt):
        out = []
        for var, s2 in variants(st, args[0], 2):
            out.append((some(rd(s2, payload(args[0], 1))) if var else NONE, s2))
        return out

    # ------------------------------------------------------------------ identity-like
    @h("std::convert::From::from", "std::convert::Into::into", "std::iter::IntoIterator::into_iter",
       "std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::hint::black_box",
       "std::convert::identity", "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new",
       "std::mem::ManuallyDrop::<T>::new", "std::convert::num::FloatToInt::to_int")
    def _ident(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"] and inst["crate"].startswith("basic_dsp"):
            return None
        if path == "std::iter::IntoIterator::into_iter":
            return [(mkiter(st, args[0], at[0] if at else None), st)]
        if path in ("std::convert::From::from", "std::convert::Into::into"):
            if inst is None:
                return None
            p = inst["path"]
            if "num_complex::Complex<" in p and "From<T>>" in p:
                if inst["body"]:
                    return None
                return [(mk("agg", "num_complex::Complex", 0, (args[0], mk("kf", "0.0"))), st)]
            if not ("From<T>>::from" in p or "num::" in p or "Into<U>" in p):
                return None
        return [(args[0], st)]

    def mkiter(st, v, ty):
        if v.op == "it":
            return v
        if v.op == "agg" and v.a[0] == RANGE:
            return mk("it", mk("d_range", v.a[2][0], v.a[2][1]), K(0))
        if v.op == "agg" and v.a[0] == "std::ops::RangeFrom":
            return mk("it", mk("d_range", v.a[2][0], mk("inf")), K(0))
        if v.op == "agg" and v.a[0] == "std::ops::RangeInclusive":
            return mk("it", mk("d_range", v.a[2][0], add(v.a[2][1], K(1))), K(0))
        if v.op == "agg" and v.a[0].startswith("basic_dsp"):
            return v
        if v.op == "agg" and v.a[0] == OPT:
            return mk("it", mk("d_once", v), K(0))
        t = eng.T[ty] if ty is not None else None
        if t is not None and t["k"] == "ref":
            inner = eng.T[t["t"]]
            if inner["k"] in ("slice", "array") or (inner["k"] == "adt" and inner["path"].split("::")[-1] in ("Vec", "ArrayVec")):
                return mk("it", mk("d_sl", sl(st, v, ty)), K(0))
            if inner["k"] == "adt" and inner["path"].endswith("InlineVector"):
                return v
            if v.op == "ref":
                return v
        if v.op == "slice":
            return mk("it", mk("d_sl", v), K(0))
        if t is not None and (t["k"] == "array" or (t["k"] == "adt" and t["path"].split("::")[-1] in ("Vec", "ArrayVec"))):
            s_ = eng.vec_slice(v, slice_unit(ty)) if v.op != "agg" else mk("slice", v, K(0), K(len(v.a[2])), "x")
            return mk("it", mk("d_vals", s_), K(0))
        return mk("it", mk("d_opq", v), K(0))

    def dlen(d):
        o = d.op
        if o == "d_range":
            return sub(d.a[1], d.a[0]) if d.a[1].op != "inf" else mk("inf")
        if o in ("d_sl", "d_vals"):
            return ulen(d.a[0])
        if o == "d_ch":
            n, c = ulen(d.a[0]), d.a[1]
            return div(add(n, sub(c, K(1))), c) if not d.a[2] else div(n, c)
        if o == "d_win":
            return add(sub(ulen(d.a[0]), d.a[1]), K(1))
        if o == "d_zip":
            a, b = dlen(d.a[0]), dlen(d.a[1])
            if a is b or b.op == "inf":
                return a
            if a.op == "inf":
                return b
            return mk("min", *sorted((a, b), key=lambda z: z.id))
        if o in ("d_rev", "d_map", "d_enum", "d_clone"):
            return dlen(d.a[0])
        if o == "d_skip":
            n = dlen(d.a[0])
            return mk("max", K(0), sub(n, d.a[1])) if n.op != "inf" else n
        if o == "d_take":
            n = dlen(d.a[0])
            if n.op == "inf":
                return d.a[1]
            return mk("min", *sorted((n, d.a[1]), key=lambda z: z.id)) if n is not d.a[1] else n
        if o == "d_step":
            n = dlen(d.a[0])
            return div(add(n, sub(d.a[1], K(1))), d.a[1])
        if o == "d_chain":
            return add(dlen(d.a[0]), dlen(d.a[1]))
        if o == "d_off":
            return sub(dlen(d.a[0]), d.a[1])
        if o == "d_wrap":
            return d.a[2]
        return mk("itlen", d)

    def has(d, p):
        """is there an item at position p?"""
        o = d.op
        if o == "d_zip":
            a, b = has(d.a[0], p), has(d.a[1], p)
            if a is b:
                return a
            for x, y in ((a, b), (b, a)):
                if x.op == "k":
                    return y if x.a[0] else FALSE
            return mk("and", a, b)
        if o in ("d_map", "d_enum", "d_clone"):
            return has(d.a[0], p)
        if o == "d_skip":
            return has(d.a[0], add(p, d.a[1]))
        if o == "d_off":
            return has(d.a[0], add(p, d.a[1]))
        if o == "d_take":
            a, b = has(d.a[0], p), gt0(sub(d.a[1], p))
            for x, y in ((a, b), (b, a)):
                if x.op == "k":
                    return y if x.a[0] else FALSE
            return mk("and", a, b) if a is not b else a
        if o == "d_step":
            return has(d.a[0], mul(p, d.a[1]))
        if o == "d_filter" or o == "d_opq" or o == "d_edge":
            return mk("hasnext", d, p)
        if o == "d_once":
            return mk("hasnext", d, p)
        n = dlen(d)
        if n.op == "inf":
            return TRUE
        if o == "d_ch":
            # an item exists iff p*chunk < len
            if d.a[2]:
                return gt0(sub(n, p))
            return gt0(sub(ulen(d.a[0]), mul(p, d.a[1])))
        return gt0(sub(n, p))

    def item(d, p, st, ctx):
        """-> [(item, state)]"""
        o = d.op
        if o == "d_range":
            return [(add(d.a[0], p), st)]
        if o == "d_sl":
            loc = eng.elem(d.a[0], p)
            return [(eng.mkref(loc), st)]
        if o == "d_vals":
            s2 = st.copy()
            return [(eng.read_loc(s2, eng.elem(d.a[0], p)), s2)]
        if o == "d_ch":
            b, s0, en, u = d.a[0].a
            c = d.a[1]
            a0 = add(s0, upos(mul(p, c), u))
            e0 = add(a0, upos(c, u))
            if not d.a[2]:
                f = st.facts
                if not f.prove_le(e0, en):
                    # last chunk may be shorter: length is min(chunk, rest)
                    e0 = mk("min", *sorted((e0, en), key=lambda z: z.id))
            return [(mk("slice", b, a0, e0, u), st)]
        if o == "d_win":
            b, s0, en, u = d.a[0].a
            a0 = add(s0, upos(p, u))
            return [(mk("slice", b, a0, add(a0, upos(d.a[1], u)), u), st)]
        if o == "d_zip":
            out = []
            for x, s1 in item(d.a[0], p, st, ctx):
                for y, s2 in item(d.a[1], p, s1, ctx):
                    out.append((mk("agg", "tuple", 0, (x, y)), s2))
            return out
        if o == "d_enum":
            return [(mk("agg", "tuple", 0, (p, x)), s1) for x, s1 in item(d.a[0], p, st, ctx)]
        if o == "d_rev":
            n = dlen(d.a[0])
            return item(d.a[0], sub(sub(n, K(1)), p), st, ctx)
        if o == "d_skip" or o == "d_off":
            return item(d.a[0], add(p, d.a[1]), st, ctx)
        if o == "d_take":
            return item(d.a[0], p, st, ctx)
        if o == "d_step":
            return item(d.a[0], mul(p, d.a[1]), st, ctx)
        if o == "d_clone":
            out = []
            for x, s1 in item(d.a[0], p, st, ctx):
                s1 = s1.copy()
                out.append((rd(s1, x), s1))
            return out
        if o == "d_map":
            out = []
            for x, s1 in item(d.a[0], p, st, ctx):
                out.extend(eng.call_value(s1, d.a[1], [x], ctx + ("map",)))
            return out
        if o == "d_chain":
            n1 = dlen(d.a[0])
            out = []
            for tv, s2 in eng.branch(st, gt0(sub(n1, p))):
                out.extend(item(d.a[0], p, s2, ctx) if tv else item(d.a[1], sub(p, n1), s2, ctx))
            return out
        if o == "d_edge":
            x = eng.mkref(edge_loc(d, p))
            return [(mk("agg", "tuple", 0, (mk("edge", d.a[1], d.a[2], p, ulen(d.a[0])), x)) if d.a[3] else x, st)]
        if o == "d_wrap":
            # the iterator moves before it reads
            q = add(add(d.a[1], K(1)), p) if d.a[3] else sub(sub(d.a[1], K(1)), p)
            s2 = st.copy()
            return [(eng.read_loc(s2, eng.elem(d.a[0], mk("emod", q, ulen(d.a[0])))), s2)]
        if o == "d_filter":
            out = []
            q = mk("filtpos", d, p)
            for x, s1 in item(d.a[0], q, st, ctx):
                out.append((x, s1))
            return out
        if o == "d_once":
            return [(payload(d.a[0], 1), st)]
        return [(mk("item", d, p), st)]

    def edge_loc(d, p):
        b, s0, en, u = d.a[0].a
        return (("E", mk("E", b, u, add(s0, upos(mk("edge", d.a[1], d.a[2], p, ulen(d.a[0])), u)), s0, en)), ())

    @h("std::iter::Iterator::next", "<basic_dsp_vector::simd_extensions::simd_partition::EdgeIteratorMut<'a, T> as std::iter::Iterator>::next",
       "<basic_dsp_vector::vector_types::time_freq::WrappingIterator<T> as std::iter::Iterator>::next",
       "<basic_dsp_vector::vector_types::time_freq::ReverseWrappingIterator<T> as std::iter::Iterator>::next")
    def _next(e, st, path, inst, args, at, targs, ctx, dt):
        loc = e.deref(st, args[0])
        it = e.read_loc(st, loc)
        if it.op == "ref":
            loc = e.deref(st, it)
            it = e.read_loc(st, loc)
        if it.op == "agg" and it.a[0] == RANGE:
            s0, en = it.a[2]
            out = []
            for tv, s2 in e.branch(st, gt0(sub(en, s0))):
                if tv:
                    e.write_loc(s2, loc, mkagg(RANGE, 0, (add(s0, K(1)), en)))
                    out.append((some(s0), s2))
                else:
                    out.append((NONE, s2))
            return out
        if it.op != "it":
            if inst is not None and inst["body"]:
                return None
            e.write_loc(st, loc, mk("hv", it, e.cur))
            r = mk("call", "next", it)
            return [(r, st)]
        d, p = it.a
        out = []
        for tv, s2 in e.branch(st, has(d, p)):
            if not tv:
                out.append((NONE, s2))
                continue
            s2 = s2.copy()
            e.write_loc(s2, loc, mk("it", d, add(p, K(1))))
            for x, s3 in item(d, p, s2, ctx):
                out.append((some(x), s3))
        return out

    def adapter(name, fn):
        def f(e, st, path, inst, args, at, targs, ctx, dt):
            it = mkiter(st, args[0], at[0] if at else None)
            if it.op == "ref":
                it = rd(st, it)
            if it.op != "it":
                it = mk("it", mk("d_opq", it), K(0))
            d = it.a[0] if it.a[1] is K(0) else mk("d_off", it.a[0], it.a[1])
            return [(mk("it", fn(st, d, args, at), K(0)), st)]
        H["std::iter::Iterator::" + name] = f

    def asd(st, v, ty):
        it = mkiter(st, v, ty)
        if it.op != "it":
            return mk("d_opq", it)
        return it.a[0] if it.a[1] is K(0) else mk("d_off", it.a[0], it.a[1])

    adapter("zip", lambda st, d, a, at: mk("d_zip", d, asd(st, a[1], at[1] if len(at) > 1 else None)))
    adapter("chain", lambda st, d, a, at: mk("d_chain", d, asd(st, a[1], at[1] if len(at) > 1 else None)))
    adapter("enumerate", lambda st, d, a, at: mk("d_enum", d))
    adapter("rev", lambda st, d, a, at: d.a[0] if d.op == "d_rev" else mk("d_rev", d))
    adapter("map", lambda st, d, a, at: mk("d_map", d, a[1]))
    adapter("skip", lambda st, d, a, at: mk("d_skip", d, a[1]))
    adapter("take", lambda st, d, a, at: mk("d_take", d, a[1]))
    adapter("step_by", lambda st, d, a, at: mk("d_step", d, a[1]))
    adapter("cloned", lambda st, d, a, at: mk("d_clone", d))
    adapter("copied", lambda st, d, a, at: mk("d_clone", d))
    adapter("filter", lambda st, d, a, at: mk("d_filter", d, a[1]))
    adapter("by_ref", lambda st, d, a, at: d)
    adapter("fuse", lambda st, d, a, at: d)
    adapter("peekable", lambda st, d, a, at: d)
    H["std::iter::Iterator::by_ref"] = lambda e, st, path, inst, args, at, targs, ctx, dt: [(args[0], st)]

    @h("std::iter::ExactSizeIterator::len", "std::iter::Iterator::count")
    def _itlen(e, st, path, inst, args, at, targs, ctx, dt):
        it = args[0]
        if it.op == "ref":
            it = rd(st, it)
        if it.op == "it":
            n = dlen(it.a[0])
            return [(sub(n, it.a[1]), st)]
        if it.op == "agg" and it.a[0] == RANGE:
            return [(sub(it.a[2][1], it.a[2][0]), st)]
        return [(mk("itlen", it), st)]

    @h("std::iter::Iterator::nth", "std::iter::Iterator::last")
    def _nth(e, st, path, inst, args, at, targs, ctx, dt):
        it = rd(st, args[0]) if args[0].op == "ref" else args[0]
        if it.op != "it":
            return None
        d, p = it.a
        q = add(p, args[1]) if path.endswith("nth") else sub(dlen(d), K(1))
        out = []
        for tv, s2 in e.branch(st, has(d, q)):
            if tv:
                s2 = s2.copy()
                if path.endswith("nth"):
                    e.write_loc(s2, e.deref(s2, args[0]), mk("it", d, add(q, K(1))))
                for x, s3 in item(d, q, s2, ctx):
                    out.append((some(x), s3))
            else:
                out.append((NONE, s2))
        return out

    def run_body_over(e, st, it, ctx, step, rec=None):
        """abstract internal iteration: step(item, state) -> states; run on an arbitrary position
        (zero or more iterations)"""
        d = it.a[0] if it.op == "it" else mk("d_opq", it)
        p0 = it.a[1] if it.op == "it" else K(0)
        uid = mk("L", e.frame(ctx + ("it",)), -1)
        p = add(p0, mk("kvar", uid))
        pre = st.log
        out = [st]
        body = []
        mems = []
        conds = []
        for tv, s2 in e.branch(st, has(d, p)):
            if not tv:
                continue
            s2 = State0(s2)
            for x, s3 in item(d, p, s2, ctx):
                for s4 in step(x, s3):
                    if s4.log is not E.NOLOG and s4.log not in body:
                        body.append(s4.log)
                    conds.append((s4.log, s4.facts, tuple(rec(s4)) if rec else ()))
                    mems.append(s4)
        if body or rec:
            ev = mk("loop", uid, *body)
            e.note_loop(ev, st.facts, conds)
            pre = mk("log", pre, ev)
        res = E.State(dict(st.mem), st.facts, pre)
        for m in mems:
            for k, v in m.mem.items():
                if st.mem.get(k) is not v:
                    if k[0] == "L" and k not in st.mem:
                        continue
                    res.mem[k] = mk("lv", uid, k)
        return res

    def State0(s_):
        return E.State(dict(s_.mem), s_.facts, E.NOLOG)

    @h("std::iter::Iterator::for_each")
    def _foreach(e, st, path, inst, args, at, targs, ctx, dt):
        it = mkiter(st, args[0], at[0] if at else None)
        r = run_body_over(e, st, it, ctx, lambda x, s: [q for _, q in e.call_value(s, args[1], [x], ctx + ("fe",))])
        return [(UNIT, r)]

    @h("std::iter::Iterator::fold")
    def _fold(e, st, path, inst, args, at, targs, ctx, dt):
        it = mkiter(st, args[0], at[0] if at else None)
        uid = mk("L", e.frame(ctx + ("fold",)), -2)
        acc = mk("acc", uid, args[1])
        got = []

        def step(x, s):
            r = e.call_value(s, args[2], [acc, x], ctx + ("fold",))
            for v, q in r:
                if v not in got:
                    got.append(v)
                after[id(q)] = v, q
            return [q for _, q in r]
        after = {}
        r = run_body_over(e, st, it, ctx, step, lambda q: [(acc, args[1], after[id(q)][0])])
        return [(mk("fold", args[1], acc, *got), r)]

    def red(name):
        def f(e, st, path, inst, args, at, targs, ctx, dt):
            it = mkiter(st, args[0], at[0] if at else None)
            got = []

            def step(x, s):
                if len(args) > 1:
                    a = [x]
                    if name in ("reduce", "max_by", "min_by"):
                        a = [x, x]
                    r = e.call_value(s, args[1], a, ctx + (name,))
                    got.extend(v for v, _ in r)
                    return [q for _, q in r]
                s = s.copy()
                got.append(rd(s, x) if x.op == "ref" else x)
                return [s]
            r = run_body_over(e, st, it, ctx, step)
            v = mk("reduce", name, *dict.fromkeys(got))
            if name in ("all", "any"):
                return [(v, r)]
            return [(v, r)]
        H["std::iter::Iterator::" + name] = f
    for n in ("sum", "product", "all", "any", "max", "min", "reduce", "max_by", "min_by", "position", "find", "collect",
              "partition", "unzip", "try_for_each", "try_fold", "max_by_key", "min_by_key", "find_map", "inspect", "scan"):
        red(n)

    @h("std::iter::Iterator::collect")
    def _collect(e, st, path, inst, args, at, targs, ctx, dt):
        it = mkiter(st, args[0], at[0] if at else None)
        b = mk("nvec", e.here)

        def step(x, s):
            s = s.copy()
            e.ev(s, "push", b, x, e.cur)
            return [s]
        r = run_body_over(e, st, it, ctx, step)
        n = dlen(it.a[0]) if it.op == "it" else mk("itlen", it)
        return [(mk("rvec", b, n), r)]

    @h("std::iter::repeat")
    def _rep(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mk("it", mk("d_map", mk("d_range", K(0), mk("inf")), mk("constfn", args[0])), K(0)), st)]

    # ------------------------------------------------------------------ slices
    @h("core::slice::<impl [T]>::len")
    def _len(e, st, path, inst, args, at, targs, ctx, dt):
        return [(ulen(sl(st, args[0], at[0])), st)]

    @h("core::slice::<impl [T]>::is_empty")
    def _empty(e, st, path, inst, args, at, targs, ctx, dt):
        return [(cmpop("Eq", ulen(sl(st, args[0], at[0])), K(0)), st)]

    @h("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
    def _iter(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mk("it", mk("d_sl", sl(st, args[0], at[0])), K(0)), st)]

    @rx(r"^core::slice::<impl \[T\]>::r?(chunks|chunks_mut|chunks_exact|chunks_exact_mut)$")
    def _chunks(e, st, path, inst, args, at, targs, ctx, dt):
        e.obl(st, gt0(args[1]), "chunk size zero")
        return [(mk("it", mk("d_ch", sl(st, args[0], at[0]), args[1], 1 if "exact" in path else 0), K(0)), st)]

    @h("core::slice::<impl [T]>::windows")
    def _win(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mk("it", mk("d_win", sl(st, args[0], at[0]), args[1]), K(0)), st)]

    @h("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
    def _asptr(e, st, path, inst, args, at, targs, ctx, dt):
        b, s0, en, u = sl(st, args[0], at[0]).a
        return [(mk("ptr", b, u, s0), st)]

    @rx(r"^core::slice::<impl \[T\]>::split_at(_mut)?$")
    def _split(e, st, path, inst, args, at, targs, ctx, dt):
        b, s0, en, u = sl(st, args[0], at[0]).a
        m = add(s0, upos(args[1], u))
        e.obl(st, bnot(gt0(sub(m, en))), "split_at")
        return [(mk("agg", "tuple", 0, (mk("slice", b, s0, m, u), mk("slice", b, m, en, u))), st)]

    @rx(r"^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$")
    def _first(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        out = []
        for tv, s2 in e.branch(st, gt0(ulen(s_))):
            if tv:
                i = K(0) if "first" in path else sub(ulen(s_), K(1))
                out.append((some(e.mkref(e.elem(s_, i))), s2))
            else:
                out.append((NONE, s2))
        return out

    @rx(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
    def _cfs(e, st, path, inst, args, at, targs, ctx, dt):
        d, s_ = sl(st, args[0], at[0]), sl(st, args[1], at[1])
        e.obl(st, cmpop("Eq", ulen(d), ulen(s_)), "copy_from_slice")
        e.ev(st, "copy", d, s_, e.cur)
        return [(UNIT, st)]

    @h("core::slice::<impl [T]>::fill")
    def _fill(e, st, path, inst, args, at, targs, ctx, dt):
        e.ev(st, "fill", sl(st, args[0], at[0]), args[1], e.cur)
        return [(UNIT, st)]

    @h("core::slice::<impl [T]>::copy_within")
    def _cw(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        src = index_range(s_, args[1])
        b, s0, en, u = s_.a
        d0 = add(s0, upos(args[2], u))
        e.ev(st, "copy", mk("slice", b, d0, add(d0, sub(src.a[2], src.a[1])), u), src, e.cur)
        return [(UNIT, st)]

    @h("core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right")
    def _perm(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        e.ev(st, "perm", s_, path.split("::")[-1], tuple(args[1:]), e.cur)
        return [(UNIT, st)]

    @h("core::slice::<impl [T]>::swap")
    def _sswap(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        la, lb = e.elem(s_, args[1]), e.elem(s_, args[2])
        a, b = e.read_loc(st, la), e.read_loc(st, lb)
        e.write_loc(st, la, b)
        e.write_loc(st, lb, a)
        return [(UNIT, st)]

    @h("core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec")
    def _tovec(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        b = mk("nvec", e.here)
        e.ev(st, "copy", mk("slice", b, K(0), sub(s_.a[2], s_.a[1]), s_.a[3]), s_, e.cur)
        return [(mk("rvec", b, ulen(s_)), st)]

    def index_range(s_, r):
        b, s0, en, u = s_.a
        n = r.a[0].split("::")[-1] if r.op == "agg" else ""
        f = r.a[2] if r.op == "agg" else ()
        if n == "Range":
            return mk("slice", b, add(s0, upos(f[0], u)), add(s0, upos(f[1], u)), u)
        if n == "RangeFrom":
            return mk("slice", b, add(s0, upos(f[0], u)), en, u)
        if n == "RangeTo":
            return mk("slice", b, s0, add(s0, upos(f[0], u)), u)
        if n == "RangeFull":
            return s_
        if n == "RangeInclusive":
            return mk("slice", b, add(s0, upos(f[0], u)), add(s0, upos(add(f[1], K(1)), u)), u)
        if n == "RangeToInclusive":
            return mk("slice", b, s0, add(s0, upos(add(f[0], K(1)), u)), u)
        return None

    def do_index(e, st, s_, i):
        if i.op == "agg" or (i.op not in ("k", "lin") and i.op == "sym" and i in e.typ):
            r = index_range(s_, i)
            if r is not None:
                # a successful slice implies start <= end <= len
                f = st.facts
                st = st.copy()
                for x, y in ((r.a[2], s_.a[2]), (r.a[1], r.a[2])):
                    e.obl(st, bnot(gt0(sub(x, y))), "slice index")
                    g = st.facts.assume(bnot(gt0(sub(x, y))), 1)
                    if g is None:
                        e.panic(st, "slice index")
                        return []
                    st.facts = g
                return [(r, st)]
        e.obl(st, gt0(sub(ulen(s_), i)), "index")
        f = st.facts.assume(gt0(sub(ulen(s_), i)), 1)
        if f is None:
            e.panic(st, "index")
            return []
        st = st.copy()
        st.facts = f
        return [(e.mkref(e.elem(s_, i)), st)]

    @h("std::ops::Index::index", "std::ops::IndexMut::index_mut")
    def _index(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        s_ = sl(st, args[0], at[0])
        return do_index(e, st, s_, args[1])

    @rx(r"^core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$")
    def _getu(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        r = index_range(s_, args[1]) if args[1].op == "agg" else None
        return [(r if r is not None else e.mkref(e.elem(s_, args[1])), st)]

    @rx(r"^core::slice::<impl \[T\]>::(get|get_mut)$")
    def _get(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        out = []
        if args[1].op == "agg":
            r = index_range(s_, args[1])
            c = bnot(gt0(sub(r.a[2], s_.a[2])))
            mkv = lambda: r
        else:
            c = gt0(sub(ulen(s_), args[1]))
            mkv = lambda: e.mkref(e.elem(s_, args[1]))
        for tv, s2 in e.branch(st, c):
            out.append((some(mkv()) if tv else NONE, s2))
        return out

    @rx(r"slice::(raw::)?from_raw_parts(_mut)?$")
    def _frp(e, st, path, inst, args, at, targs, ctx, dt):
        u = slice_unit(dt)
        p = args[0]
        e.ev(st, "rawslice", p, args[1], u, e.cur)
        if p.op == "ptr":
            b, _, s0 = p.a
            return [(mk("slice", b, s0, add(s0, upos(args[1], u)), u), st)]
        return [(mk("slice", p, K(0), upos(args[1], u), u), st)]

    @rx(r"^basic_dsp_vector::(array_to_complex(_mut)?|vector_types::complex_to_array(_mut)?|transmute_slice(_mut)?)$")
    def _reint(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        u = slice_unit(dt)
        b, s0, en, _ = s_.a
        if u == "c" and s_.a[3] in ("f", "x"):
            e.obl(st, cmpop("Eq", rem(sub(en, s0), K(2)), K(0)), "odd number of floats")
        e.ev(st, "reint", s_, u, e.cur)
        return [(mk("slice", b, s0, en, u), st)]
    eng.intercept_rx = re.compile(
        r"^basic_dsp_vector::(array_to_complex(_mut)?|vector_types::complex_to_array(_mut)?|transmute_slice(_mut)?)$"
        r"|^basic_dsp_vector::simd_extensions::(Simd|SimdGeneric|SimdFrom|SimdApproximations|fallback|sse|avx)"
        r"|^num_complex::Complex::<T>::(sqrt|a?(sin|cos|tan)h?|ln|exp|log|powf|expf)$"
        r"|^std::ops::(Add|Sub|Mul|Div|Neg)(Assign)?::"
        r"|^basic_dsp_vector::multicore_support::(\w+::)?Chunk::")

    # ------------------------------------------------------------------ pointers
    @rx(r"^(std|core)::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(offset|add|sub|wrapping_add|wrapping_offset)$")
    def _off(e, st, path, inst, args, at, targs, ctx, dt):
        p, n = args
        if path.endswith("::sub"):
            n = scale(n, -1)
        if p.op == "ptr":
            b, u, i = p.a
            return [(mk("ptr", b, u, add(i, upos(n, u))), st)]
        return [(mk("ptroff", p, n), st)]

    def toptr(x):
        if x.op == "ref" and x.a[0][0] == "E" and not x.a[1] and x.a[0][1].a[0].op != "loc":
            b, u, i = x.a[0][1].a[:3]
            return mk("ptr", b, u, i)
        return x

    @h("std::ptr::copy", "std::ptr::copy_nonoverlapping", "core::intrinsics::copy", "core::intrinsics::copy_nonoverlapping")
    def _copy(e, st, path, inst, args, at, targs, ctx, dt):
        s_, d, n = toptr(args[0]), toptr(args[1]), args[2]
        if s_.op == "ptr" and d.op == "ptr":
            u = s_.a[1]
            e.ev(st, "copy", mk("slice", d.a[0], d.a[2], add(d.a[2], upos(n, u)), u),
                 mk("slice", s_.a[0], s_.a[2], add(s_.a[2], upos(n, u)), u), e.cur)
        else:
            e.ev(st, "rawcopy", d, s_, n, e.cur)
        return [(UNIT, st)]

    @h("std::ptr::write_bytes", "std::ptr::mut_ptr::<impl *mut T>::write_bytes")
    def _wb(e, st, path, inst, args, at, targs, ctx, dt):
        d, v, n = toptr(args[0]), args[1], args[2]
        if d.op == "ptr":
            e.ev(st, "fill", mk("slice", d.a[0], d.a[2], add(d.a[2], upos(n, d.a[1])), d.a[1]), KF(0.0) if v is K(0) else v, e.cur)
        return [(UNIT, st)]

    @h("std::mem::swap", "std::ptr::swap")
    def _mswap(e, st, path, inst, args, at, targs, ctx, dt):
        la, lb = e.deref(st, args[0]), e.deref(st, args[1])
        a, b = e.read_loc(st, la), e.read_loc(st, lb)
        e.write_loc(st, la, b)
        e.write_loc(st, lb, a)
        return [(UNIT, st)]

    @h("std::mem::replace", "std::ptr::replace")
    def _mrep(e, st, path, inst, args, at, targs, ctx, dt):
        la = e.deref(st, args[0])
        a = e.read_loc(st, la)
        e.write_loc(st, la, args[1])
        return [(a, st)]

    @h("std::mem::take")
    def _mtake(e, st, path, inst, args, at, targs, ctx, dt):
        la = e.deref(st, args[0])
        a = e.read_loc(st, la)
        e.write_loc(st, la, mk("rvec", mk("nvec", e.here), K(0)))
        return [(a, st)]

    @h("std::mem::size_of", "core::mem::size_of")
    def _so(e, st, path, inst, args, at, targs, ctx, dt):
        t = e.T[targs[0]]
        return [(mk("sizeof", t["name"]), st)]

    @h("std::mem::drop", "std::mem::forget", "core::mem::drop")
    def _drop(e, st, path, inst, args, at, targs, ctx, dt):
        return [(UNIT, st)]

    @h("std::ptr::read")
    def _pread(e, st, path, inst, args, at, targs, ctx, dt):
        return [(rd(st, args[0]), st)]

    @h("std::ptr::write")
    def _pwrite(e, st, path, inst, args, at, targs, ctx, dt):
        e.write_loc(st, e.deref(st, args[0]), args[1])
        return [(UNIT, st)]

    @h("std::clone::Clone::clone")
    def _clone(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        v = rd(st, args[0])
        e.ev(st, "clone", v, e.cur)
        return [(v, st)]

    @h("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
    def _deref(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        p = inst["path"] if inst is not None else ""
        v = args[0]
        t = e.T[dt] if dt is not None else None
        if t is not None and t["k"] == "ref" and e.T[t["t"]]["k"] == "slice":
            u = e.unit_of(e.T[t["t"]]["t"])
            x = rd(st, v)
            if x.op in ("ref",):
                x = rd(st, x)
            return [(e.vec_slice(x, u), st)]
        if v.op == "ref":
            x = rd(st, v)
            if "Arc" in p or "Rc" in p:
                return [(x if x.op != "agg" else v, st)]
            return [(x if x.op in ("ref", "slice") else v, st)]
        return [(v, st)]

    @h("std::cmp::PartialEq::ne", "std::cmp::PartialEq::eq")
    def _ne(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        ne = path.endswith("ne")
        t = e.T[at[0]] if at and at[0] is not None else None
        while t is not None and t["k"] == "ref":
            t = e.T[t["t"]]
        a, b = rd(st, args[0]), rd(st, args[1])
        for _ in range(2):
            if a.op == "ref":
                a = rd(st, a)
            if b.op == "ref":
                b = rd(st, b)
        r = None
        if t is not None:
            if t["k"] == "prim":
                r = e.fcmp("Eq", a, b) if t["name"] in ("f32", "f64") else cmpop("Eq", a, b)
            elif t["k"] == "adt" and t["kind"] == "enum" and all(not v["f"] for v in t["vs"]):
                r = cmpop("Eq", e.discr(a), e.discr(b))
        if r is None:
            r = TRUE if a is b else mk("veq", *sorted((a, b), key=lambda z: z.id))
        return [(bnot(r) if ne else r, st)]

    @rx(r"^std::cmp::PartialOrd::(lt|le|gt|ge)$")
    def _ord(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        a, b = rd(st, args[0]), rd(st, args[1])
        for _ in range(2):
            if a.op == "ref":
                a = rd(st, a)
            if b.op == "ref":
                b = rd(st, b)
        o = path.split("::")[-1].capitalize()
        t = e.T[at[0]] if at and at[0] is not None else None
        while t is not None and t["k"] == "ref":
            t = e.T[t["t"]]
        if t is not None and t["k"] == "prim" and t["name"] not in ("f32", "f64"):
            return [(cmpop(o, a, b), st)]
        return [(e.fcmp(o, a, b), st)]

    @rx(r"^std::cmp::(Ord::)?(min|max)$")
    def _minmax(e, st, path, inst, args, at, targs, ctx, dt):
        o = path.split("::")[-1]
        a, b = args
        if a is b:
            return [(a, st)]
        k = st.facts.known(gt0(sub(a, b)))
        if k is not None:
            return [(a if bool(k) == (o == "max") else b, st)]
        return [(mk(o, *sorted((a, b), key=lambda z: z.id)), st)]

    @rx(r"^(std|core)::num::<impl (usize|isize|u32|i32|u64|i64|u8)>::(\w+)$")
    def _num(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        if m in ("wrapping_add", "saturating_add"):
            return [(add(*args), st)]
        if m in ("wrapping_sub",):
            return [(sub(*args), st)]
        if m in ("wrapping_mul", "saturating_mul"):
            return [(mul(*args), st)]
        if m == "saturating_sub":
            out = []
            for tv, s2 in e.branch(st, gt0(sub(args[0], args[1]))):
                out.append((sub(*args) if tv else K(0), s2))
            return out
        if m in ("checked_sub",):
            out = []
            for tv, s2 in e.branch(st, gt0(sub(args[1], args[0]))):
                out.append((NONE if tv else some(sub(*args)), s2))
            return out
        if m in ("checked_add", "checked_mul"):
            return [(some((add if m[8] == "a" else mul)(*args)), st)]
        if m in ("checked_div", "checked_rem"):
            out = []
            for tv, s2 in e.branch(st, cmpop("Eq", args[1], K(0))):
                out.append((NONE if tv else some((div if m[8] == "d" else rem)(*args)), s2))
            return out
        if m == "div_ceil":
            return [(div(add(args[0], sub(args[1], K(1))), args[1]), st)]
        if m == "is_multiple_of":
            return [(cmpop("Eq", rem(*args), K(0)), st)]
        if m in ("min", "max"):
            return _minmax(e, st, "std::cmp::" + m, inst, args, at, targs, ctx, dt)
        return None

    # ------------------------------------------------------------------ floats
    def farg(e, st, a, ty):
        if ty is not None and e.T[ty]["k"] == "ref" or (ty is None and a.op == "ref"):
            return rd(st, a)
        return a

    def is_reg(e, targs):
        t = e.T[targs[0]] if targs else None
        while t is not None and t["k"] == "ref":
            t = e.T[t["t"]]
        return t is not None and t["k"] == "adt" and "simd_extensions" in t["path"]

    OPN = {"Add": "f+", "Sub": "f-", "Mul": "f*", "Div": "f/", "Rem": "frem", "Neg": "fneg"}

    @rx(r"^std::ops::(Add|Sub|Mul|Div|Rem|Neg)::\w+$|^std::ops::arith::")
    def _fop(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"] and not is_reg(e, targs):
            return None
        if path.startswith("std::ops::arith"):
            return None
        n = path.split("::")[2]
        a = [farg(e, st, x, t) for x, t in zip(args, at)]
        t = e.T[targs[0]] if targs else None
        while t is not None and t["k"] == "ref":
            t = e.T[t["t"]]
        if t is not None and t["k"] == "prim" and t["name"] not in ("f32", "f64"):
            return [({"Add": add, "Sub": sub, "Mul": mul, "Div": div, "Rem": rem}[n](*a) if n != "Neg" else scale(a[0], -1), st)]
        if t is not None and t["k"] == "adt" and "simd_extensions" in t["path"]:
            return [(mk("simd", n.lower(), *(sorted(a, key=lambda z: z.id) if n in ("Add", "Mul") else a)), st)]
        return [(fop(OPN[n], *a), st)]

    @rx(r"^std::ops::(Add|Sub|Mul|Div|Rem)Assign::\w+$")
    def _fopa(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"] and not is_reg(e, targs):
            return None
        n = path.split("::")[2][:-6]
        loc = e.deref(st, args[0])
        a = [e.read_loc(st, loc), farg(e, st, args[1], at[1])]
        t = e.T[targs[0]] if targs else None
        if t is not None and t["k"] == "adt" and "simd_extensions" in t["path"]:
            r = mk("simd", n.lower(), *a)
        else:
            r = fop(OPN[n], *a)
        e.write_loc(st, loc, r)
        return [(UNIT, st)]

    @rx(r"^basic_dsp_vector::numbers::Float::(\w+)$|^(std|core)::f(32|64)::<impl f(32|64)>::(\w+)$|^num_traits::(sign::Signed|float::Float|real::Real)::(\w+)$")
    def _flt(e, st, path, inst, args, at, targs, ctx, dt):
        n = path.split("::")[-1]
        a = [farg(e, st, x, t) for x, t in zip(args, at)]
        if n in ("infinity", "nan", "neg_infinity") and not a:
            return [(mk("kf", n), st)]
        if n.startswith("is_"):
            return [(mk("fpred", n, *a), st)]
        if n in ("max", "min"):
            return [(mk("f" + n, *a), st)]
        if n == "sin_cos":
            return [(mk("agg", "tuple", 0, (mk("fn1", "sin", a[0]), mk("fn1", "cos", a[0]))), st)]
        if n == "mul_add":
            return [(fop("f+", fop("f*", a[0], a[1]), a[2]), st)]
        if n == "powi":
            return [(mk("fn1", "powi", *a), st)]
        if n == "recip":
            return [(fop("f/", KF(1.0), a[0]), st)]
        return [(mk("fn1", n, *a), st)]

    @rx(r"^num_complex::Complex::<T>::(sqrt|sin|cos|tan|asin|acos|atan|sinh|cosh|tanh|asinh|acosh|atanh|ln|exp|log|powf|expf)$")
    def _cfn(e, st, path, inst, args, at, targs, ctx, dt):
        a = [farg(e, st, x, t) for x, t in zip(args, at)]
        return [(mk("fn1", path.split("::")[-1], *a), st)]

    @h("num_traits::identities::Zero::zero", "std::default::Default::default")
    def _zero(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        t = e.T[targs[0]] if targs else None
        if t is not None and t["k"] == "prim" and t["name"] in ("f32", "f64"):
            return [(KF(0.0), st)]
        if t is not None and t["k"] == "adt" and t["path"] == CPLX:
            return [(mkagg(CPLX, 0, (KF(0.0), KF(0.0))), st)]
        if t is not None and t["k"] == "prim":
            return [(K(0), st)]
        return None

    @h("basic_dsp_vector::numbers::One::one", "num_traits::identities::One::one")
    def _one(e, st, path, inst, args, at, targs, ctx, dt):
        t = e.T[targs[0]] if targs else None
        if t is not None and t["k"] == "prim" and t["name"] in ("f32", "f64"):
            return [(KF(1.0), st)]
        if t is not None and t["k"] == "adt" and t["path"] == CPLX:
            return [(mkagg(CPLX, 0, (KF(1.0), KF(0.0))), st)]
        return None

    @h("num_traits::identities::Zero::is_zero")
    def _isz(e, st, path, inst, args, at, targs, ctx, dt):
        if inst is not None and inst["body"]:
            return None
        return [(e.fcmp("Eq", rd(st, args[0]), KF(0.0)), st)]

    @h("num_traits::float::FloatConst::PI")
    def _pi(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mk("kf", "3.141592653589793"), st)]

    def numcast(e, st, path, inst, args, at, targs, ctx, dt):
        a = args[0]
        t = e.T[at[0]] if at and at[0] is not None else None
        while t is not None and t["k"] == "ref":
            a = rd(st, a)
            t = e.T[t["t"]]
        ff = t is not None and t["k"] == "prim" and t["name"] in ("f32", "f64")
        m = path.split("::")[-1]
        if m == "from":
            tf = e.T[targs[0]]
            to_f = tf["k"] == "prim" and tf["name"] in ("f32", "f64")
        else:
            to_f = m.endswith(("f32", "f64"))
        if ff and to_f:
            v = a
        elif ff:
            v = a.a[0] if a.op == "i2f" else mk("f2i", a)
            if m.endswith("isize") or m.endswith("i32"):
                v = mk("f2s", a)
        elif to_f:
            v = KF(a.a[0]) if a.op == "k" else mk("i2f", a)
        else:
            v = a
        return [(some(v), st)]
    H["num_traits::cast::NumCast::from"] = numcast
    RX.append((re.compile(r"^num_traits::cast::ToPrimitive::to_\w+$|^num_traits::cast::FromPrimitive::from_\w+$"), numcast))

    # ------------------------------------------------------------------ vectors
    def vec_parts(v):
        if v.op == "rvec":
            return v.a[0], v.a[1]
        return v, mk("len", v)

    @rx(r"^(std::vec::Vec::<T>::(with_capacity|new)|arrayvec::(?:arrayvec::)?ArrayVec::<T, CAP>::new|arrayvec::.*ArrayVec::<\[T; N\]>::new)$")
    def _vnew(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mk("rvec", mk("nvec", e.here, e.ctx[0]), K(0)), st)]

    @h("std::vec::from_elem")
    def _felem(e, st, path, inst, args, at, targs, ctx, dt):
        b = mk("nvec", e.here, e.ctx[0])
        u = e.unit_of(targs[0]) if targs else "f"
        e.ev(st, "fill", mk("slice", b, K(0), upos(args[1], u), u), args[0], e.cur)
        return [(mk("rvec", b, args[1]), st)]

    @rx(r"^(std::vec::Vec::<T, A>|arrayvec::(?:arrayvec::)?ArrayVec::<T, CAP>)::(len|is_empty|capacity)$")
    def _vlen(e, st, path, inst, args, at, targs, ctx, dt):
        v = rd(st, args[0])
        b, n = vec_parts(v)
        if path.endswith("capacity"):
            return [(mk("cap", b), st)]
        return [(n if path.endswith("len") else cmpop("Eq", n, K(0)), st)]

    @rx(r"^(std::vec::Vec::<T, A>|arrayvec::(?:arrayvec::)?ArrayVec::<T, CAP>)::(push|pop|resize|truncate|clear|extend_from_slice|append|insert|remove|try_push|reserve)$")
    def _vmut(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        loc = e.deref(st, args[0])
        v = e.read_loc(st, loc)
        b, n = vec_parts(v)
        if m == "push":
            e.ev(st, "push", b, args[1], n, e.cur)
            e.write_loc(st, loc, mk("rvec", b, add(n, K(1))))
            return [(UNIT, st)]
        if m == "pop":
            out = []
            for tv, s2 in e.branch(st, gt0(n)):
                if tv:
                    s2 = s2.copy()
                    e.write_loc(s2, loc, mk("rvec", b, sub(n, K(1))))
                    out.append((some(mk("el", b, "x", sub(n, K(1)))), s2))
                else:
                    out.append((NONE, s2))
            return out
        if m == "resize":
            e.ev(st, "vresize", b, n, args[1], args[2], e.cur)
            e.write_loc(st, loc, mk("rvec", b, args[1]))
            return [(UNIT, st)]
        if m == "truncate":
            e.ev(st, "vresize", b, n, args[1], mk("trunc"), e.cur)
            r = mk("min", *sorted((n, args[1]), key=lambda z: z.id))
            e.write_loc(st, loc, mk("rvec", b, r))
            return [(UNIT, st)]
        if m == "clear":
            e.write_loc(st, loc, mk("rvec", b, K(0)))
            return [(UNIT, st)]
        if m == "extend_from_slice":
            s_ = sl(st, args[1], at[1])
            u = s_.a[3]
            p = upos(n, u)
            e.ev(st, "copy", mk("slice", b, p, add(p, sub(s_.a[2], s_.a[1])), u), s_, e.cur)
            e.write_loc(st, loc, mk("rvec", b, add(n, ulen(s_))))
            return [(UNIT, st)]
        if m == "reserve":
            return [(UNIT, st)]
        return None

    # a boxed slice keeps its allocation; its length is in elements of its (claimed) type
    @rx(r"^std::vec::Vec::<T, A>::into_boxed_slice$")
    def _vbox(e, st, path, inst, args, at, targs, ctx, dt):
        b, n = vec_parts(args[0])
        u = e.unit_of(targs[0]) if targs else "x"
        e.ev(st, "box", b, n, u, e.cur)
        return [(mk("rvec", b, n), st)]

    @rx(r"^std::boxed::Box::<T, A>::into_raw$|^std::boxed::Box::<T>::(into_raw|leak)$")
    def _braw(e, st, path, inst, args, at, targs, ctx, dt):
        if args[0].op != "rvec":
            return None
        return [(mk("ptr", args[0].a[0], "x", K(0)), st)]

    @rx(r"^std::vec::Vec::<T>::from_raw_parts$")
    def _vraw(e, st, path, inst, args, at, targs, ctx, dt):
        p, u = args[0], e.unit_of(targs[0]) if targs else "x"
        if p.op == "ref" and p.a[1] and p.a[1][-1] in (("i", 0), ("i", K(0))):
            v = e.read_loc(st, (p.a[0], p.a[1][:-1]))
            if v.op == "rvec":
                p = mk("ptr", v.a[0], "x", K(0))
        if p.op != "ptr":
            return None
        e.ev(st, "raw", p.a[0], p.a[2], args[1], args[2], u, e.cur)
        return [(mk("rvec", p.a[0], args[1]), st)]

    # ------------------------------------------------------------------ rustfft
    @rx(r"^rustfft::(plan::)?FftPlanner::<T>::(plan_fft_forward|plan_fft_inverse|plan_fft)$")
    def _plan(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        if m == "plan_fft":
            return [(mk("fftplan", e.discr(args[2]), args[1]), st)]
        return [(mk("fftplan", K(0 if m.endswith("forward") else 1), args[1]), st)]

    @rx(r"^rustfft::Fft::(process_outofplace_with_scratch|process_with_scratch|process|get_inplace_scratch_len|get_outofplace_scratch_len)$")
    def _fft(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        plan = args[0]
        for _ in range(3):
            if plan.op == "ref":
                plan = rd(st, plan)
        if plan.op == "deref":
            plan = plan.a[0]
        if m.startswith("get"):
            return [(mk("scratchlen", plan, m), st)]
        if m == "process_outofplace_with_scratch":
            e.ev(st, "fft", plan, sl(st, args[1], at[1]), sl(st, args[2], at[2]), sl(st, args[3], at[3]), e.cur)
        else:
            s_ = sl(st, args[1], at[1])
            sc = sl(st, args[2], at[2]) if len(args) > 2 else mk("none")
            e.ev(st, "fft", plan, s_, s_, sc, e.cur)
        return [(UNIT, st)]

    # ------------------------------------------------------------------ SIMD
    @rx(r"^basic_dsp_vector::simd_extensions::(SimdGeneric::(calc_data_alignment_reqs|array_to_regs|array_to_regs_mut|load|store|extract|iter_over_vector|iter_over_complex_vector)|Simd::store_half)$")
    def _simdg(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        if m == "calc_data_alignment_reqs":
            s_ = sl(st, args[0], at[0])
            n = ulen(s_)
            p = mkagg("basic_dsp_vector::simd_extensions::simd_partition::SimdPartition", 0,
                      (mk("pleft", s_), mk("pright", s_), n, mk("cst", "PhantomData")))
            return [(p, st)]
        if m.startswith("array_to_regs"):
            s_ = sl(st, args[0], at[0])
            return [(mk("slice", s_.a[0], s_.a[1], s_.a[2], "r"), st)]
        if m == "load":
            s_ = sl(st, args[0], at[0])
            b, s0, en, u = s_.a
            p = add(s0, upos(args[1], u))
            e.ev(st, "r", b, "r", p, s0, en, e.cur)
            return [(mk("el", b, "r", p), st)]
        if m in ("store", "store_half"):
            s_ = sl(st, args[1], at[1])
            b, s0, en, u = s_.a
            e.ev(st, "w", b, "r" if m == "store" else "r/2", add(s0, upos(args[2], u)), args[0] if m == "store" else mk("simd", "half", args[0]), s0, en, e.cur)
            return [(UNIT, st)]
        if m == "extract":
            return [(mk("simd", "extract", *args), st)]
        x = mk("simd", "lane", args[0], "c" if "complex" in m else "f")
        out = []
        for r, s2 in e.call_value(st, args[1], [x], ctx + ("lane",)):
            out.append((mk("simd", "lanes", x, r), s2))
        return out

    @rx(r"^basic_dsp_vector::simd_extensions::(Simd|SimdGeneric|SimdFrom|SimdApproximations)::(\w+)$")
    def _simd(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        a = [farg(e, st, x, t) for x, t in zip(args, at)]
        if m == "zero" or (m == "splat" and a[0] is KF(0.0)):
            return [(mk("simd", "splat", KF(0.0)), st)]
        return [(mk("simd", m, *a), st)]

    @rx(r"^basic_dsp_vector::simd_extensions::RegType::<Reg>::new$")
    def _regty(e, st, path, inst, args, at, targs, ctx, dt):
        return [(mkagg("RegType", 0, ()), st)]

    @h("basic_dsp_vector::simd_extensions::simd_partition::EdgeIteratorMut::<'a, T>::new",
       "basic_dsp_vector::simd_extensions::simd_partition::IndexedEdgeIteratorMut::<'a, T>::new")
    def _edge(e, st, path, inst, args, at, targs, ctx, dt):
        s_ = sl(st, args[0], at[0])
        return [(mk("it", mk("d_edge", s_, args[1], args[2], int("::IndexedEdge" in path)), K(0)), st)]

    @h("basic_dsp_vector::vector_types::time_freq::WrappingIterator::<T>::new",
       "basic_dsp_vector::vector_types::time_freq::ReverseWrappingIterator::<T>::new")
    def _wrap(e, st, path, inst, args, at, targs, ctx, dt):
        """reads the elements of a slice from pos on (exclusive) and continues at the other end: the lemma is proved in simdrule"""
        s_ = sl(st, args[0], at[0])
        e.obl(st, gt0(ulen(s_)), "remainder of a division by zero")
        return [(mk("it", mk("d_wrap", s_, args[1], args[2], 0 if "Reverse" in path else 1), K(0)), st)]

    @h("basic_dsp_vector::vector_types::time_freq::create_shifted_copies")
    def _shc(e, st, path, inst, args, at, targs, ctx, dt):
        """registers with reversed and shifted copies of a vector: the lemma is proved in simdrule"""
        v = e.read_loc(st, e.deref(st, args[0]))
        if v.op == "agg" and v.a[0].split("::")[-1] != "DspVec" or v.op not in ("agg", "el"):
            return None
        from exits import vec_fields
        fs = vec_fields(v) if v.op == "agg" else [mk("fld", v, i) for i in range(6)]
        d = fs[0].a[2][0] if fs[0].op == "agg" and len(fs[0].a[2]) == 1 else fs[0]
        d = d.a[0] if d.op == "rvec" else d
        cx = fs[3]
        t_ = e.T[dt]
        return [(mkagg(t_["path"], 1, (mk("shc", d, fs[4], cx if isinstance(cx, T) else K(int(cx))),)), st)]

    @rx(r"is_feature_detected")
    def _feat(e, st, path, inst, args, at, targs, ctx, dt):
        # one register abstraction stands for every instruction set
        return [(TRUE, st)]

    # ------------------------------------------------------------------ chunked execution
    @rx(r"^basic_dsp_vector::multicore_support::(\w+::)?Chunk::(\w+)$")
    def _chunk(e, st, path, inst, args, at, targs, ctx, dt):
        m = path.split("::")[-1]
        if m in ("determine_number_of_chunks", "partition", "partition_mut", "partition_in_ranges", "calc_chunk_size", "execute_on_chunks"):
            return None
        cx = e.discr(args[0])
        site = mk("CH", e.frame(ctx + ("chunk",)))
        st = st.copy()

        def sub_slice(s_, tag, start=None, n=None):
            """arbitrary chunk of a slice, in units of the slice"""
            b, s0, en, u = s_.a
            c0 = start if start is not None else mk("cstart", site, tag)
            cn = n if n is not None else mk("clen", site, tag)
            e.chslices.setdefault((site, tag), set()).add(s_)
            f = st.facts.assume(bnot(gt0(sub(add(c0, cn), ulen(s_)))), 1)
            if f is not None:
                st.facts = f
            return mk("slice", b, add(s0, upos(c0, u)), add(s0, upos(add(c0, cn), u)), u), mkagg(RANGE, 0, (c0, add(c0, cn)))

        def go(cargs, name, extra=()):
            f = args[-1]
            e.ev(st, "chunk", m, cx, *extra, e.cur)
            e.ev(st, "chunkbegin", site, m, extra[1] if len(extra) > 1 else K(1), extra[3] if len(extra) > 3 else K(1), e.cur)
            out = []
            for v, s2 in e.call_value(st, f, cargs, ctx + ("chunk",)):
                s2 = s2.copy()
                if m in ("map_on_array_chunks", "get_chunked_results", "get_zipped"):
                    e.ev(s2, "chunkend", site, m, v, e.cur)
                else:
                    e.ev(s2, "chunkend", site, m, e.cur)
                out.append((v, s2))
            return out

        def vec(out):
            b = mk("nvec", e.here, site)
            res = []
            for v, s2 in out:
                s2 = s2.copy()
                e.ev(s2, "push", b, v, e.cur)
                n = mk("nchunks", site)
                res.append((n, v, s2, b))
            return res
        if m == "execute_partial":
            s_ = sl(st, args[2], at[2])
            c, r = sub_slice(s_, "a")
            out = go([c, args[4]], m, (s_, args[3], e.snap(st, args[4])))
            return [(UNIT, s2) for _, s2 in out]
        if m == "execute_with_range":
            s_ = sl(st, args[2], at[2])
            c, r = sub_slice(s_, "a")
            out = go([c, r, args[4]], m, (s_, args[3], e.snap(st, args[4])))
            return [(UNIT, s2) for _, s2 in out]
        if m in ("map_on_array_chunks", "get_chunked_results"):
            s_ = sl(st, args[2], at[2])
            c, r = sub_slice(s_, "a")
            out = go([c, r, args[4]], m, (s_, args[3], e.snap(st, args[4])))
            return [chunkres(e, v, s2, site, dt, s_, m) for v, s2 in out]
        if m == "get_zipped":
            a = sl(st, args[2], at[2])
            b = sl(st, args[4], at[4])
            c, r = sub_slice(a, "a")
            c2, _ = sub_slice(b, "b")
            out = go([a, r, c2], m, (a, args[3], b, args[5]))
            return [chunkres(e, v, s2, site, dt, a, m) for v, s2 in out]
        if m == "from_src_to_dest":
            a = sl(st, args[2], at[2])
            t = sl(st, args[4], at[4])
            c2, _ = sub_slice(t, "t")
            r0, rn = mk("cstart", site, "a"), mk("clen", site, "a")
            e.chslices.setdefault((site, "a"), set()).add(a)
            f = st.facts.assume(bnot(gt0(sub(add(r0, rn), ulen(a)))), 1)
            if f is not None:
                st.facts = f
            r = mkagg(RANGE, 0, (r0, add(r0, rn)))
            out = go([a, r, c2, args[6]], m, (a, args[3], t, args[5], e.snap(st, args[6])))
            return [(UNIT, s2) for _, s2 in out]
        if m == "execute_sym_pairs_with_range":
            s_ = sl(st, args[2], at[2])
            c, r = sub_slice(s_, "p1")
            c2, r2 = sub_slice(s_, "p2")
            fr = e.frame(ctx + ("sym",))
            ks = []
            for i, x in enumerate((c, r, c2, r2)):
                k = ("L", fr, i)
                st.mem[k] = x
                ks.append(k)
            out = go([mk("ref", k, ()) for k in ks] + [args[4]], m, (s_, args[3], e.snap(st, args[4])))
            for _, s2 in out:
                for k in ks:
                    s2.mem.pop(k, None)
            return [(UNIT, s2) for _, s2 in out]
        return None

    def chunkres(e, v, st, site, dt, src, m):
        """the collected per-chunk results: a vector whose elements are `v` for each chunk"""
        st = st.copy()
        b = mk("chunkres", m, src, v, site)
        return (mkagg_inline(e, b, site, dt), st)

    eng.mkiter, eng.has, eng.item = mkiter, has, item

    def mkagg_inline(e, b, site, dt):
        # InlineVector is an enum {Inline(ArrayVec), Dynamic(Vec)} -> keep it opaque
        return b


from terms import K  # noqa
