"""The C interface: every exported function is analysed with the operations of the vectors left opaque.  Which operation is
called, with which of the arguments, and what becomes of its result is compared with what the name and the documentation of the
function promise."""
import random
import re

import core
from engine import Engine, Abort, RES
from evalr import Env, Skip
from effects import Replay
from terms import T, s, sym, K, mk

LIB = re.compile(r"^basic_dsp_vector::|^<?.*basic_dsp_vector::")


def engine(facts, opts):
    e = Engine(facts, dict(opts, panics=True))
    e.optype = {}

    def op(e, st, path, inst, args, at, targs, ctx, dt):
        p = inst["path"] if inst is not None else path
        a = []
        for x, t in zip(args, at):
            a.append(e.snap(st, x))
        st = st.copy()
        c = mk("op", path, tuple(a), e.frame(ctx))
        e.optype[c] = e.T[dt] if dt is not None else {}
        e.ev(st, "op", path, tuple(a), c)
        for i, (x, t) in enumerate(zip(args, at)):
            ty = e.T[t] if t is not None else {}
            if ty.get("k") == "ref" and ty.get("mut") and x.op == "ref":
                e.write_loc(st, (x.a[0], x.a[1]), mk("after", c, i))
        return [(c, st)]
    e.intercept_rx = re.compile(r"^basic_dsp_vector::|^std::mem::drop$")
    e.rx.insert(0, (re.compile(r"^basic_dsp_vector::"), op))
    for k in [k for k in e.handlers if k.startswith("basic_dsp_vector::")]:
        del e.handlers[k]
    return e




class Undecided(Exception):
    pass


# ------------------------------------------------------------------------------------------------ what the names promise
# argument atoms: v:x the vector of handle x, f:x a number, i:x an integer, cx:re,im a complex number,
# pad/win/conv/freq:... an option which is translated, fwin/fconv:function,data,symmetric[,real|complex] a foreign function
def table():
    t = {}

    def d(names, kind="conv", op=None, args="", params=""):
        for n in names.split():
            t[n] = (kind, (op or n), args.split(), params.split())
    d("diff diff_with_start cum_sum abs sqrt square ln exp sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh ln_approx "
      "exp_approx sin_approx cos_approx swap_halves conj reverse fft_shift ifft_shift")
    d("mirror", args="buf")
    d("root powf log expf log_approx expf_approx powf_approx wrap unwrap", args="f:value", params="value")
    d("real_offset", op="offset", args="f:value", params="value")
    d("real_scale", op="scale", args="f:value", params="value")
    d("complex_offset", op="offset", args="cx:real,imag", params="real imag")
    d("complex_scale", op="scale", args="cx:real,imag", params="real imag")
    d("complex_divide", op="scale", args="inv:real,imag", params="real imag")
    for o in "add sub mul div".split():
        d(o, args="v:operand", params="operand")
        d(o + "_vector", op=o, args="v:operand", params="operand")
        d(o + "_smaller_vector", op=o + "_smaller", args="v:operand", params="operand")
    d("set_real_imag", args="v:real v:imag", params="real imag")
    d("set_mag_phase", args="v:mag v:phase", params="mag phase")
    d("multiply_complex_exponential", args="f:a f:b", params="a b")
    d("zero_pad", op="zero_pad_b", args="buf i:points pad:padding_option", params="points padding_option")
    d("zero_interleave", op="zero_interleave_b", args="buf i:factor", params="factor")
    d("decimatei", args="i:decimation_factor i:delay", params="decimation_factor delay")
    d("map_inplace_real map_inplace_complex", op="map_inplace", args="unit map:map", params="map")
    d("to_complex magnitude magnitude_squared to_real to_imag phase", "trans", args="buf")
    for n in "to_complex magnitude magnitude_squared to_real to_imag phase".split():
        d(n, "trans", op=n + "_b", args="buf")
    d("plain_fft plain_sfft plain_ifft plain_sifft fft sfft ifft sifft prepare_argument prepare_argument_padded", "trans", args="buf")
    for o in "windowed_fft windowed_sfft windowed_ifft windowed_sifft".split():
        d(o, "trans", args="buf win:window", params="window")
        d(o.replace("windowed_", "windowed_custom_"), "trans", op=o, args="buf fwin:window,window_data,is_symmetric",
          params="window window_data is_symmetric")
    for o in "apply_window unapply_window".split():
        d(o, args="win:window", params="window")
        d(o.replace("apply_", "apply_custom_"), op=o, args="fwin:window,window_data,is_symmetric",
          params="window window_data is_symmetric")
    d("correlate", args="buf v:other", params="other")
    d("convolve_signal", args="buf v:impulse_response", params="impulse_response")
    d("convolve_real", op="convolve", args="buf fconv:function,data,sym,real f:ratio i:len", params="function data sym ratio len")
    d("convolve_complex", op="convolve", args="buf fconv:function,data,sym,complex f:ratio i:len", params="function data sym ratio len")
    d("convolve", args="buf conv:response,rolloff f:ratio i:len", params="response rolloff ratio len")
    d("multiply_frequency_response_real", op="multiply_frequency_response", args="fconv:function,data,sym,real f:ratio",
      params="function data sym ratio")
    d("multiply_frequency_response_complex", op="multiply_frequency_response", args="fconv:function,data,sym,complex f:ratio",
      params="function data sym ratio")
    d("multiply_frequency_response", args="conv:response,rolloff f:ratio", params="response rolloff ratio")
    d("interpolatef_custom", op="interpolatef", args="buf fconv:function,data,sym,real f:factor f:delay i:len",
      params="function data sym factor delay len")
    d("interpolatef", args="buf conv:response,rolloff f:factor f:delay i:len", params="response rolloff factor delay len")
    d("interpolate_custom", op="interpolate", args="buf some:fconv:function,data,sym,real i:dest_points f:delay",
      params="function data sym dest_points delay")
    d("interpolate", args="buf some:conv:response,rolloff i:dest_points f:delay", params="response rolloff dest_points delay")
    d("interpft", args="buf i:dest_points", params="dest_points")
    d("interpolatei_custom", op="interpolatei", args="buf fconv:function,data,sym,real i:factor", params="function data sym factor")
    d("interpolatei", args="buf conv:response,rolloff i:factor", params="response rolloff factor")
    d("interpolate_lin interpolate_hermite", args="buf f:factor f:delay", params="factor delay")
    d("merge", args="handles:sources,len", params="sources len")
    # results which aren't vectors
    for p in ("", "_prec"):
        for k in ("real", "complex"):
            d("%s_dot_product%s" % (k, p), "scalar", op="dot_product" + p, args="v:operand", params="operand")
            d("%s_statistics%s" % (k, p), "plain", op="statistics" + p)
            d("%s_sum%s" % (k, p), "plain", op="sum" + p)
            d("%s_sum_sq%s" % (k, p), "plain", op="sum_sq" + p)
            d("%s_statistics_split%s" % (k, p), "split", op="statistics_split" + p, args="i:len", params="data len")
    for k in ("real", "complex"):
        d("map_aggregate_" + k, "scalar", op="map_aggregate", args="unit map:map aggr:aggregate", params="map aggregate")
    for o in "get_real get_imag get_magnitude get_magnitude_squared get_phase".split():
        d(o, "void", args="v:destination", params="destination")
    d("get_real_imag", "void", args="v:real v:imag", params="real imag")
    d("get_mag_phase", "void", args="v:mag v:phase", params="mag phase")
    d("split_into", "void", args="handles:targets,len", params="targets len")
    d("get_len", "plain", op="len")
    d("get_points", "plain", op="points")
    d("get_delta", "plain", op="delta")
    d("get_allocated_len", "plain", op="alloc_len")
    d("set_len", "ignored", op="resize", args="i:len", params="len")
    d("is_complex", "flag", op="is_complex")
    d("get_domain", "enum", op="domain")
    d("get_value", "plain", op="data", args="i:index", params="index")
    d("data", "plain", op="data", args="full")
    d("complex_data", "plain", op="datac", args="full")
    d("set_value", "store", op="data_mut", args="i:index", params="index value")
    # with rules of their own
    d("new", "new", params="domain init_value length delta")
    d("new_with_performance_options", "new", params="domain init_value length delta core_limit")
    d("new_with_detailed_performance_options", "new", params="domain init_value length delta core_limit med_dual_core_threshold "
      "med_multi_core_threshold large_dual_core_threshold large_multi_core_threshold")
    d("delete_vector", "delete")
    d("clone", "clone")
    d("overwrite_data", "overwrite", params="data len")
    return t


ERRORS = 14
QUERY = {"is_erroneous", "len", "points", "is_complex", "domain", "delta", "alloc_len", "data", "datac", "data_mut", "datac_mut", "new",
         "default", "is_empty", "get_multicore_settings", "with_thresholds"}
GIVES_HANDLE = {"conv", "trans", "delete", "overwrite"}


def last(p):
    return p.split("::")[-1]


def inner(t):
    while isinstance(t, T) and t.op in ("fld", "var"):
        t = t.a[0]
    return t


class IEnv(Env):
    """a valuation of the arguments, and of what the operations return"""

    def __init__(self, rnd, ints, ok, err, bad):
        Env.__init__(self, rnd, ints, 12)
        self.ok, self.err, self.bad = ok, err, bad
        self.final = None
        self.kv = 1000

    def _i(self, t):
        o, a = t.op, t.a
        if o == "discr" and isinstance(a[0], T):
            x = inner(a[0])
            if x.op == "op" and a[0] is x and last(x.a[0]) == "domain":
                return self.ok
            if x.op == "op":
                return (0 if self.ok else 1) if a[0] is x else self.err
        if o == "kvar":
            return self.kv
        if o == "op":
            n = last(a[0])
            if n == "is_erroneous":
                return self.bad if self.final is None or s(a[1][0]) == self.final else 1 - self.bad
            if n == "is_complex":
                return self.ok
            if n == "len" and a[1]:
                return self.i(a[1][0].a[2]) if a[1][0].op == "slice" else self.ints.setdefault("#n", 3)
        return Env._i(self, t)


def events(st):
    l = st.log
    out = []
    while l.a:
        out.append(l.a[1])
        l = l.a[0]
    return out[::-1]


class Rule:
    def __init__(self, facts, opts, seed):
        self.facts = facts
        self.e = engine(facts, opts)
        self.seed = seed
        self.viol = {}
        self.und = {}
        self.obl = 0
        self.functions = set()
        self.fields = {}
        self.closures = {}
        self.spec = table()

    def bad(self, key, msg):
        self.viol.setdefault(key, msg)

    # ---- structure of the types of this crate
    def field_index(self, path, name):
        k = (path, name)
        if k not in self.fields:
            for t in self.facts["types"]:
                if t.get("k") == "adt" and t["path"].endswith(path) and t["kind"] == "struct":
                    for i, f in enumerate(t["vs"][0]["f"]):
                        self.fields[(path, f[0])] = i
        if k not in self.fields:
            raise Undecided("no field %s in %s" % (name, path))
        return self.fields[k]

    def field(self, st, v, path, name):
        i = self.field_index(path, name)
        v = self.obj(st, v)
        return self.e.project(v, ("f", i))

    def obj(self, st, v):
        return self.e.read_loc(st, (v.a[0], v.a[1])) if v.op == "ref" else v

    # ---- one exported function
    def check(self, name, i):
        e = self.e
        base = re.sub(r"(32|64)$", "", name)
        if base not in self.spec:
            self.und[name] = "no entry in the table"
            return
        kind, op, args, params = self.spec[base]
        first = "is_complex" if kind == "new" else "vector"
        b = e.bodies[i]
        if b["argc"] != len(params) + 1:
            self.und[name] = "%d arguments instead of %d" % (b["argc"], len(params) + 1)
            return
        names = {k + 1: p for k, p in enumerate(params)}
        names[0] = first
        self.functions.add(name)
        self.handles(name, kind, b, params, args)
        r = e.run_root(i, names)
        if r.panics and kind not in ("split", "overwrite"):
            self.bad(name + ":panic", "%s can panic (%s)" % (name, r.panics[0][0]))
        for ints in self.valuations(params, kind):
            scen = [(1, 0, 0), (1, 0, 1)] + [(0, k, 0) for k in range(ERRORS)] + [(0, k, 1) for k in range(0, ERRORS, 5)]
            if kind in ("flag", "enum"):
                scen = [(0, 0, 0), (1, 0, 0)]
            if kind in ("new", "delete", "clone"):
                scen = scen[:1]
            for ok, err, erron in scen:
                env = IEnv(random.Random("%s %s %d" % (self.seed, name, len(ints))), ints, ok, err, erron)
                try:
                    m = self.path(name, kind, op, args, params, r, env)
                except (Undecided, Skip, Abort) as x:
                    self.und[name] = str(x)[:120]
                    continue
                if m:
                    self.bad(name + ":" + m[0], "%s: %s" % (name, m[1]))

    def handles(self, name, kind, b, params, args):
        """who owns which handle"""
        e = self.e

        def shape(t):
            t = e.T[t]
            if t.get("k") == "adt" and t["path"] == "std::boxed::Box":
                return "box"
            if t.get("k") in ("ref", "ptr"):
                p = e.T[t["t"]]
                return "ref" if p.get("k") == "adt" and p["path"].endswith("InteropVec") else "pointer"
            return "value"
        want = {0: "box" if kind in GIVES_HANDLE else "ref"} if kind != "new" else {}
        for a in args:
            if a.startswith("v:"):
                want[params.index(a[2:]) + 1] = "ref"
        for k, w in want.items():
            got = shape(b["locals"][k + 1][0])
            self.obl += 1
            if got == w:
                continue
            if w == "ref" and got == "box":
                self.bad(name + ":frees", "%s takes the ownership of argument %d and frees it, although it only reads or updates it and "
                         "doesn't return it: the handle of the caller becomes invalid" % (name, k + 1))
            else:
                self.bad(name + ":handle", "%s takes argument %d as %s, although a handle is passed as %s" % (name, k + 1, got, w))

    def valuations(self, params, kind):
        out = []
        opts = {"padding_option": (0, 1, 2, 3), "window": (0, 1, 2, 3, 4), "response": (0, 1, 2), "domain": (0, 1, 2)}
        for n in ("padding_option", "window", "response", "domain"):
            if n in params:
                for v in opts[n]:
                    for c in ((0, 1, 2) if kind == "new" else (1,)):
                        out.append({n: v, "is_complex": c})
        if kind == "overwrite":
            out = [{"#n": n, "len": k} for n in range(4) for k in range(6)]
        return out or [{}]

    def path(self, name, kind, op, args, params, r, env):
        e = self.e
        ints = dict(env.ints)
        hits = []
        for v, st in r.outs:
            env.memo.clear()
            env.final = None
            ev = events(st)
            ops = [x for x in ev if x.a[0] == "op"]
            mains = [x for x in ops if last(x.a[1]) == op or last(x.a[1]) not in QUERY]
            main = next((x.a[3] for x in mains if self.same_op(x.a[1], op)), None)
            try:
                fin = self.final_vec(kind, st, v, env, main)
            except Undecided:
                fin = None
            env.final = s(fin) if fin is not None else None
            if Replay(e, env).check((st.facts.iv, st.facts.ne, st.facts.b, ())):
                hits.append((v, st, ev, ops, mains, main, fin))
        if not hits:
            raise Undecided("no path for the valuation %s" % ints)
        for h in hits[:2]:
            m = self.judge(name, kind, op, args, params, env, *h)
            if m:
                return m

    @staticmethod
    def same_op(path, op):
        n = last(path)
        return n == op or n + "_b" == op or n == op + "_b"

    def final_vec(self, kind, st, v, env, main):
        if kind in ("conv", "trans", "overwrite"):
            return self.field(st, self.field(st, v, "VectorInteropResult", "vector"), "InteropVec", "vec")
        if kind == "scalar":
            return mk("fld", sym("vector"), self.field_index("InteropVec", "vec"), 0)
        return None

    def isrc(self, name, v, env):
        return None

    def judge(self, name, kind, op, args, params, env, v, st, ev, ops, mains, main, fin):
        e = self.e
        vi = self.field_index("InteropVec", "vec")
        bi = self.field_index("InteropVec", "buffer")

        def handle(n, i):
            return "%s.%d" % (n, i)
        self.obl += 1
        if kind == "delete":
            return None
        if kind == "new":
            return self.judge_new(name, params, env, v, st, ev, ops)
        if kind == "clone":
            if mains and not all(last(x.a[1]) == "clone" for x in mains):
                return "op", "it calls %s" % last(mains[0].a[1])
            return None
        if kind == "overwrite":
            return self.judge_overwrite(env, v, st, ev, ops, fin)
        if not mains:
            return "op", "no operation is called, `%s` is expected" % op
        if main is None or len(mains) > 1:
            return "op", "it calls %s instead of `%s`" % (" and ".join("`%s`" % last(x.a[1]) for x in mains), op)
        got = main.a[1]
        want = ["v:vector"] + args
        if len(got) != len(want) and "buf" in want and len(got) == len(want) - 1:
            want.remove("buf")
        if len(got) != len(want):
            raise Undecided("%d arguments of %s" % (len(got), op))
        for k, (x, w) in enumerate(zip(got, want)):
            m = self.arg(st, env, x, w, vi, bi, ev)
            self.obl += 1
            if m:
                return "arg%d" % k, "argument %d of `%s` %s" % (k, op, m)
        # what is returned
        res = e.optype.get(main, {})
        isres = res.get("k") == "adt" and res.get("path") == RES
        if not isres and not env.ok and kind not in ("flag", "enum"):
            return None
        code = 0 if env.ok and not env.bad else -1 if env.ok else env.err + 1
        if kind in ("conv", "trans"):
            c = env.i(self.field(st, v, "VectorInteropResult", "result_code"))
            if env.opaque:
                raise Undecided("result code")
            if c != code:
                return "code", "the result code is %d instead of %d if %s" % (c, code, self.why(env))
            hv = self.field(st, v, "VectorInteropResult", "vector")
            vec = self.field(st, hv, "InteropVec", "vec")
            buf = self.field(st, hv, "InteropVec", "buffer")
            if kind == "conv":
                want = mk("after", main, 0)
            elif isres:
                want = None
                ws = {"var(%s,0).0" % s(main)} if env.ok else {"var(%s,1).0.1" % s(main)}
            else:
                want = main
            ws = {s(want)} if want is not None else ws
            if s(vec) not in ws:
                return "vector", "the vector which is returned isn't the result of `%s`" % op
            k = want_index(args)
            wb = s(mk("after", main, k)) if k is not None and len(got) > k and s(got[k]) == handle("vector", bi) else handle("vector", bi)
            if s(buf) != wb:
                if "uninit" in s(buf) or "op(" in s(buf) and last_new(buf):
                    return None
                return "buffer", "the buffer of the returned handle isn't the one of the argument"
            return None
        if kind == "scalar":
            c = env.i(self.field(st, v, "ScalarInteropResult", "result_code"))
            if env.opaque:
                raise Undecided("result code")
            if c != code:
                return "code", "the result code is %d instead of %d if %s" % (c, code, self.why(env))
            x = self.field(st, v, "ScalarInteropResult", "result")
            if env.ok and s(x) not in ("var(%s,0).0" % s(main), s(main)):
                return "result", "the result isn't the one of `%s`" % op
            return None
        if kind == "void":
            c = env.i(v)
            if env.opaque:
                raise Undecided("result code")
            want = 0 if env.ok else env.err + 1
            if c != want:
                return "code", "%d is returned instead of %d if %s" % (c, want, self.why(env))
            return None
        if kind == "split":
            return self.judge_split(env, v, st, ev, main)
        if kind == "ignored":
            return None
        if kind == "flag":
            if env.i(v) != env.ok:
                return "result", "%d is returned if `%s` is %s" % (env.i(v), op, bool(env.ok))
            return None
        if kind == "enum":
            if env.i(v) != env.ok:
                return "result", "%d is returned for the domain with the number %d" % (env.i(v), env.ok)
            return None
        if kind == "store":
            x = st.mem.get(("X", main))
            if x is None or s(x) != "value":
                return "result", "the value isn't stored" if x is None else "the value which is stored is %s" % s(x)[:60]
            return None
        # plain
        x = v
        if x.op == "deref":
            x = x.a[0]
        if x.op == "ptr" and env.i(x.a[2]) == 0:
            x = x.a[0]
        if x.op == "slice" and env.i(x.a[1]) == 0:
            x = x.a[0]
        if s(x) != s(main):
            return "result", "the value which is returned isn't the one of `%s`" % op
        return None

    @staticmethod
    def why(env):
        return "the operation returns the error %d" % env.err if not env.ok else \
            "the vector is marked as invalid" if env.bad else "the operation succeeds"

    def arg(self, st, env, x, w, vi, bi, ev):
        k, _, rest = w.partition(":")
        if k == "v":
            return None if s(x) == "%s.%d" % (rest, vi) else "isn't the vector of `%s`" % rest
        if k == "buf":
            return None if s(x) == "vector.%d" % bi or last_new(x) else "isn't the buffer of the handle"
        if k == "i":
            env.opaque = False
            got, want = env.i(x), env.i(sym(rest))
            return None if env.opaque or got == want else "isn't `%s`" % rest
        if k == "f":
            env.opaque = False
            got, want = env.f(x), env.f(sym(rest))
            return None if env.opaque or got == want else "isn't `%s`" % rest
        if k in ("cx", "inv"):
            re_, im = (env.f(sym(n)) for n in rest.split(","))
            env.opaque = False
            got = env.f(x)
            if env.opaque or not isinstance(got, tuple) or got[0] != "C":
                raise Undecided("complex argument")
            want = (re_, im)
            if k == "inv":
                d = re_ * re_ + im * im
                want = (re_ / d, -im / d)
            return None if got[1:] == want else "isn't the complex number which was passed"
        if k == "unit":
            return None
        if k == "full":
            return None if s(x).startswith("RangeFull") else "isn't the whole range"
        if k == "pad":
            o = env.i(sym(rest))
            want = {0: 0, 1: 1}.get(o, 2)
            if x.op != "agg":
                raise Undecided("padding option")
            return None if x.a[1] == want else "is the padding option %d for the number %d" % (x.a[1], o)
        if k == "some":
            if x.op != "agg" or x.a[1] != 1 or len(x.a[2]) != 1:
                return "isn't a function"
            return self.arg(st, env, self.obj(st, x.a[2][0]), rest, vi, bi, ev)
        if k == "win":
            o = env.i(sym(rest))
            want = {0: "TriangularWindow", 1: "HammingWindow", 2: "BlackmanHarrisWindow"}.get(o, "RectangularWindow")
            got = self.typename(x)
            return None if got == want else "is a %s for the number %d" % (got, o)
        if k == "conv":
            n, ro = rest.split(",")
            o = env.i(sym(n))
            want = "SincFunction" if o == 0 else "RaisedCosineFunction"
            got = self.typename(x)
            if got != want:
                return "is a %s for the number %d" % (got, o)
            if o != 0 and x.op == "op" and [s(y) for y in x.a[1]] != [ro]:
                return "ignores the rolloff"
            return None
        if k in ("fwin", "fconv"):
            p = rest.split(",")
            if x.op != "agg":
                raise Undecided("foreign function")
            want = "ForeignWindowFunction" if k == "fwin" else "ForeignRealConvolutionFunction" if p[3] == "real" \
                else "ForeignComplexConvolutionFunction"
            if last(x.a[0]) != want:
                raise Undecided("foreign function of type " + x.a[0])
            fs = self.foreign()[want]
            for role, n in zip(("function", "data", "symmetric"), p):
                if role in fs and s(x.a[2][fs[role]]) != n:
                    return "uses %s as %s" % (s(x.a[2][fs[role]])[:40], role)
            return None
        if k == "handles":
            return self.handle_list(st, env, x, rest.split(","), vi, ev)
        if k in ("map", "aggr"):
            return self.closure(x, k, rest)
        raise Undecided("atom " + w)

    @staticmethod
    def typename(x):
        if x.op == "agg":
            return last(x.a[0])
        if x.op == "op":
            return re.sub(r"::<.*?>", "", x.a[0]).split("::")[-2]
        raise Undecided("type of " + x.op)

    # ---- lists of handles: the vector of each handle, once, in order
    def handle_list(self, st, env, x, names, vi, ev):
        ptr, ln = names
        if x.op != "slice":
            raise Undecided("list of handles")
        env.opaque = False
        n = env.i(x.a[2])
        if env.opaque:
            raise Undecided("number of handles")
        if n != env.i(sym(ln)):
            return "has %d elements instead of `%s`" % (n, ln)
        push = [z for y in ev if y.op == "loop" for z in body_events(y) if z.op == "ev" and z.a[0] == "push" and z.a[1] is x.a[0]]
        if len(push) != 1:
            raise Undecided("construction of the list of handles")
        p = push[0].a[2]
        if p.op != "ref" or p.a[0][0] != "X" or p.a[0][1].op != "el":
            raise Undecided("element %s" % s(p)[:60])
        el = p.a[0][1]
        if s(el.a[0]) != "&((X,%s),())" % ptr and s(el.a[0]) != ptr:
            return "isn't made of `%s`" % ptr
        if p.a[1] != (("f", vi),):
            return "isn't made of the vectors of the handles"
        ix = el.a[2]
        if ix.op != "kvar":
            return "takes the handle %s" % s(ix)[:40]
        return None

    # ---- closures around the functions of the caller
    def closure(self, x, k, name):
        if x.op != "agg" or not x.a[0].startswith("closure#"):
            raise Undecided("closure")
        inst = int(x.a[0].split("#")[1])
        if not any(s(y) == name for y in x.a[2]):
            return "doesn't use the function which was passed"
        key = (inst, tuple(s(y) for y in x.a[2]), name)
        if key not in self.closures:
            self.closures[key] = self.closure_body(inst, x, name)
        return self.closures[key]

    def closure_body(self, inst, x, name):
        r = self.e.run_root(inst, {0: "me", 1: "p0", 2: "p1", 3: "p2"})
        args = [s(y) for y in r.args[1:3]]
        for v, st in r.outs:
            if v.op != "call" or v.a[0] != "dyn":
                raise Undecided("body of the closure")
            f = re.match(r"(?:deref\(me\)|me)\.(\d+)$", s(v.a[1]))
            if not f:
                raise Undecided("function of the closure")
            if s(x.a[2][int(f.group(1))]) != name:
                return "doesn't call `%s`" % name
            if [s(y) for y in v.a[2:]] != args:
                return "calls `%s` with %s" % (name, [s(y)[:30] for y in v.a[2:]])
        return None

    def foreign(self):
        """which field plays which role, from the methods of the wrappers"""
        if not hasattr(self, "_foreign"):
            self._foreign = {}
            for i, x in enumerate(self.facts["insts"]):
                if x.get("body") is None:
                    continue
                m = re.match(r"<?(?:basic_dsp_interop::)?(Foreign\w+)(?:<.*?>)? as .*>::(\w+)$", x["path"])
                if not m:
                    continue
                out = self._foreign.setdefault(m.group(1), {})
                fn = m.group(2)
                try:
                    r = self.e.run_root(i, {0: "me", 1: "p0", 2: "p1"})
                except Abort:
                    continue
                for v, st in r.outs:
                    if fn == "is_symmetric":
                        f = re.match(r"me\.(\d+)$", s(v))
                        if f:
                            self.role(out, "symmetric", int(f.group(1)), x["path"])
                        continue
                    self.obl += 1
                    if v.op != "call" or v.a[0] != "dyn":
                        self.bad("%s::%s" % (m.group(1), fn), "%s doesn't return what the foreign function returns" % x["path"])
                        continue
                    f, a = v.a[1], v.a[2:]
                    d = a[0]
                    while d.op == "cast":
                        d = d.a[1]
                    for t, role in ((f, "function"), (d, "data")):
                        g = re.match(r"me\.(\d+)$", s(t))
                        if g:
                            self.role(out, role, int(g.group(1)), x["path"])
                    if [s(y) for y in a[1:]] != (["p0", "p1"] if fn == "window" else ["p0"]):
                        self.bad("%s::%s" % (m.group(1), fn), "%s passes %s to the foreign function" % (
                            x["path"], [s(y)[:30] for y in a[1:]]))
        return self._foreign

    def role(self, out, role, idx, path):
        if out.setdefault(role, idx) != idx:
            self.bad(path + ":" + role, "%s uses a different field as %s" % (path, role))

    # ---- functions with rules of their own
    def judge_new(self, name, params, env, v, st, ev, ops):
        h = self.obj(st, v)
        vec = self.field(st, h, "InteropVec", "vec")
        chain = {}
        x = vec
        calls = []
        while x.op == "after":
            c = x.a[0]
            if x.a[1] != 0:
                raise Undecided("vector")
            calls.append(c)
            x = c.a[1][0]
        if x.op != "op" or last(x.a[0]) not in ("to_gen_dsp_vec",):
            return "vector", "the vector isn't created by `to_gen_dsp_vec`"
        data, cx, dom = x.a[1]
        cap = [y for y in ev if y.op == "ev" and y.a[0] == "fill"]
        if data.op != "rvec" or not cap:
            raise Undecided("initial data")
        self.obl += 5
        if env.i(data.a[1]) != env.i(sym("length")) or env.f(cap[0].a[2]) != env.f(sym("init_value")):
            return "data", "the vector doesn't hold `length` times the initial value"
        if env.i(cx) != int(env.i(sym("is_complex")) != 0):
            return "complex", "the number space is %s for is_complex = %d" % (("real", "complex")[env.i(cx)], env.i(sym("is_complex")))
        d = dom.a[1] if dom.op == "agg" else env.i(mk("discr", dom))
        if d != int(env.i(sym("domain")) != 0):
            return "domain", "the domain has the number %d for domain = %d" % (d, env.i(sym("domain")))
        want = {"set_delta": ["delta"]}
        if "core_limit" in params:
            want["set_multicore_settings"] = None
        seen = {}
        for c in calls:
            seen[last(c.a[0])] = c.a[1][1:]
        if set(seen) != set(want):
            return "settings", "the calls on the new vector are %s instead of %s" % (sorted(seen), sorted(want))
        if env.f(seen["set_delta"][0]) != env.f(sym("delta")):
            return "delta", "the sample step isn't `delta`"
        if "core_limit" in params:
            m = seen["set_multicore_settings"][0]
            if m.op != "op":
                raise Undecided("multi core settings")
            wn = "new" if "med_dual_core_threshold" not in params else "with_thresholds"
            ps = params[4:]
            if last(m.a[0]) != wn or [s(y) for y in m.a[1]] != ps:
                return "settings", "the multi core settings are %s(%s) instead of %s(%s)" % (
                    last(m.a[0]), ", ".join(s(y)[:30] for y in m.a[1]), wn, ", ".join(ps))
        return None

    def judge_overwrite(self, env, v, st, ev, ops, fin):
        """either everything is copied, if it fits, or the vector is unchanged and an error is returned"""
        lens = [x.a[3] for x in ops if last(x.a[1]) == "len" and s(x.a[2][0]).startswith("vector.")]
        if not lens:
            raise Undecided("length of the vector")
        n, k = env.i(lens[0]), env.i(sym("len"))
        copies = [x for x in ev if x.op == "ev" and x.a[0] == "copy"]
        c = env.i(self.field(st, v, "VectorInteropResult", "result_code"))
        self.obl += 1
        if k <= n:
            if c != 0 or len(copies) != 1:
                return "fits", "%d values aren't written into a vector of length %d (result code %d)" % (k, n, c)
            dst, src = copies[0].a[1], copies[0].a[2]
            if src.op != "slice" or env.i(src.a[1]) or env.i(src.a[2]) != k or "data" not in s(src.a[0]):
                return "source", "not all of the values are written"
            m = dst.a[0] if dst.op == "slice" else dst
            if m.op != "op" or len(m.a[1]) != 2 or m.a[1][1].op != "agg":
                raise Undecided("range")
            rng = m.a[1][1]
            lo, hi = (env.i(rng.a[2][0]), env.i(rng.a[2][1])) if last(rng.a[0]) == "Range" else \
                (0, env.i(rng.a[2][0])) if last(rng.a[0]) == "RangeTo" else (None, None)
            if lo is None:
                raise Undecided("range")
            return None if (lo, hi) == (0, k) else ("range", "the values are written to %d..%d instead of 0..%d" % (lo, hi, k))
        if copies:
            return "toolong", "%d values are written into a vector of length %d" % (k, n)
        return None if c == 7 else ("code", "the result code is %d instead of 7 if the data doesn't fit" % c)

    def judge_split(self, env, v, st, ev, main):
        c = env.i(v)
        want = 0 if env.ok else env.err + 1
        if env.opaque:
            raise Undecided("result code")
        if c != want:
            return "code", "%d is returned instead of %d if %s" % (c, want, self.why(env))
        if not env.ok:
            return None
        ws = [z for y in ev if y.op == "loop" for z in body_events(y) if z.op == "ev" and z.a[0] == "w"]
        cp = [x for x in ev if x.op == "ev" and x.a[0] == "copy"]
        if not ws and not cp:
            return "result", "the statistics aren't written to the result"
        for n in (0, 2, 5):
            for kv in (n - 1, n):
                env.memo.clear()
                env.kv = kv
                for x in subterms((tuple(st.facts.iv), tuple(st.facts.ne))):
                    if x.op == "len" and inner(x.a[0]) is main:
                        env.ints[s(x)] = n
                ok = Replay(self.e, env).check((st.facts.iv, st.facts.ne, st.facts.b, ()))
                if ws and kv >= 0 and ok != (kv == n):
                    return "count", "%s of %d results are written" % ("less" if ok else "more", n)
        for w in ws:
            self.obl += 1
            if s(w.a[1]) not in ("&((X,data),())", "data"):
                raise Undecided("target")
            val = w.a[4]
            ix = [y for y in subterms(val) if y.op == "kvar"]
            if w.a[3].op != "kvar" or not ix or any(y is not w.a[3] for y in ix) or s(main) not in s(val):
                return "result", "element %s of the result is %s" % (s(w.a[3])[:30], s(val)[:60])
        return None

    # ---- the whole interface
    def run(self):
        roots = {}
        for i in self.facts["roots"]:
            roots[last(self.facts["insts"][i]["path"])] = i
        exported = {f["name"]: f for f in self.facts["fns"] if f["dk"] == "Fn" and "C" in f["abi"]}
        names = set()
        for n, f in sorted(exported.items()):
            if not re.search(r"(32|64)$", n):
                continue
            names.add(n)
            self.obl += 2
            if not f["no_mangle"] or not f["pub"]:
                self.bad(n + ":symbol", "%s is part of the C interface, but isn't exported under its name" % n)
            if n in roots:
                try:
                    self.check(n, roots[n])
                except Abort as x:
                    self.und[n] = "abort: %s" % x
        for n in sorted(self.spec):
            for b in ("32", "64"):
                if n + b not in names and n + ("64" if b == "32" else "32") in names:
                    self.bad(n + b + ":missing", "%s%s is missing from the C interface" % (n, b))
        self.foreign()
        return self


def want_index(args):
    return args.index("buf") + 1 if "buf" in args else None


def last_new(x):
    """a fresh buffer"""
    return x.op == "op" and last(x.a[0]) == "new" and "Buffer" in x.a[0] or x.op == "after" and last_new(x.a[0].a[1][x.a[1]])


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, T):
        if t in seen:
            return
        seen.add(t)
        yield t
        for x in t.a:
            yield from subterms(x, seen)
    elif isinstance(t, tuple):
        for x in t:
            yield from subterms(x, seen)


def body_events(loop):
    out = []
    l = loop.a[1]
    while isinstance(l, T) and l.op == "log" and l.a:
        out.append(l.a[1])
        l = l.a[0]
    return out


def run(facts, opts, seed):
    return Rule(facts, opts, seed).run()


if __name__ == "__main__":
    import sys
    import time
    t0 = time.time()
    r = run(core.extract("interop"), {}, 1)
    for k, m in sorted(r.viol.items()):
        print("VIOL", k, m)
    print({k: v for k, v in list(r.und.items())[:40]}, len(r.und))
    print(r.obl, len(r.functions), time.time() - t0)
    print(r.foreign())
