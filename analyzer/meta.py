"""Contract table of the vector operations: which outcome each call may have and what length / number space /
domain / sample step the vector has afterwards, as a function of the (sampled) state before the call.  The table is
written from the documented behaviour.  Values left out mean `unchanged`."""
from fractions import Fraction as Fr

ANY = object()
CURDELTA = "carried"


class R:
    """result of one specification: allowed outcomes, and the metadata on `ok`"""

    def __init__(self, *outs, n=None, c=None, d=None, delta=None, res=None, subj="v"):
        self.outs = set(outs) or {"ok"}
        self.n, self.c, self.d, self.delta = n, c, d, delta
        self.subj = subj
        self.res = res


OK = R("ok")
INV = R("inv")
SPEC = {}


def op(*names):
    def deco(f):
        for n in names:
            SPEC[n] = f
        return f
    return deco


def err(*e, **kw):
    return R(*["err:" + x for x in e], **kw)


# ---- operations which accept every vector and leave all metadata alone
@op("reverse", "swap_halves", "diff_with_start", "cum_sum", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
    "tanh", "asinh", "acosh", "atanh", "sqrt", "square", "root", "powf", "ln", "exp", "log", "expf", "delta", "len", "points",
    "is_complex", "domain", "get_meta_data", "is_erroneous", "statistics", "statistics_split", "sum", "sum_sq", "statistics_c",
    "statistics_split_c", "sum_c", "sum_sq_c", "data", "data_mut", "data_range", "data_range_mut", "data_full",
    "data_full_mut", "data_from", "data_from_mut", "data_to", "data_to_mut", "datac", "datac_mut", "datac_range",
    "datac_range_mut", "datac_full", "datac_full_mut", "datac_from", "datac_from_mut", "datac_to", "datac_to_mut",
    "statistics_prec", "statistics_split_prec", "sum_prec", "sum_sq_prec", "statistics_prec_c", "statistics_split_prec_c",
    "sum_prec_c", "sum_sq_prec_c", "getf", "split_into", "map_aggregate", "map_aggregate_c")
def _same(x):
    return R("ok", "err", "phi")


@op("clone")
def _clone(x):
    return R("ok", subj="ret")


@op("set_delta")
def _set_delta(x):
    return R(delta=x.f("d"))


@op("diff")
def _diff(x):
    st = 2 if x.v.c else 1
    return R(n=max(x.v.n - st, 0))


# ---- documented for real vectors only: a complex vector gets length 0
@op("abs", "wrap", "unwrap", "ln_approx", "exp_approx", "sin_approx", "cos_approx", "log_approx", "expf_approx",
    "powf_approx", "map_inplace")
def _real_only(x):
    return INV if x.v.c else OK


# scaling and shifting by a real value is valid for both number spaces
@op("scale", "offset")
def _any(x):
    return OK


# ---- documented for complex vectors only: a real vector gets length 0
@op("scale_c", "offset_c", "conj", "multiply_complex_exponential", "map_inplace_c")
def _complex_only(x):
    return OK if x.v.c else INV


@op("magnitude", "magnitude_squared", "to_real", "to_imag", "phase", "magnitude_b", "magnitude_squared_b", "to_real_b",
    "to_imag_b", "phase_b")
def _to_real(x):
    if not x.v.c:
        return R("inv", c=False, subj="ret")
    return R(n=x.v.n // 2, c=False, subj="ret")


@op("to_complex")
def _to_complex(x):
    if x.v.c:
        return R("inv", "err:MustBeReal", c=True, subj="ret")
    return R("ok", "err:NoResize", n=2 * x.v.n, c=True, subj="ret")


@op("to_complex_b")
def _to_complex_b(x):
    if x.v.c:
        return R("inv", c=True, subj="ret")
    return R(n=2 * x.v.n, c=True, subj="ret")


@op("get_real", "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase")
def _getter(x):
    if not x.v.c or x.d.c:
        return R("len0", subj="d")
    return R(n=x.v.n // 2, delta=x.v.delta, subj="d")


@op("get_real_imag", "get_mag_phase")
def _getter2(x):
    if not x.v.c or x.a.c or x.b.c:
        return R("len0", subj="a,b")
    return R(n=x.v.n // 2, delta=x.v.delta, subj="a,b")


@op("set_real_imag", "set_mag_phase")
def _setter(x):
    es = []
    if not x.v.c:
        es.append("MustBeComplex")
    if x.a.c or x.b.c:
        es.append("MetaData")
    if x.a.n != x.b.n:
        es.append("ArgLength")
    if es:
        return err("ArgLength", "MustBeComplex", "MustBeReal", "MetaData")
    return R("ok", n=x.a.n + x.b.n, delta=ANY)


# ---- binary operations
def mismatch(x, domain=True, ratio=True):
    es = []
    if x.v.c != x.o.c or (domain and x.v.d != x.o.d) or (ratio and ratio_bad(x)):
        es.append("MetaData")
    return es


def ratio_bad(x):
    a, b = x.v.delta, x.o.delta
    if not isinstance(a, Fr) or not isinstance(b, Fr) or b == 0:
        return None
    q = a / b
    return q > Fr(11, 10) + Fr(1, 10**6) or q < Fr(9, 10) - Fr(1, 10**6)


@op("add", "sub", "mul", "div")
def _binary(x):
    es = mismatch(x)
    if x.v.n != x.o.n:
        es.append("SameSize")
    return err(*es) if es else OK


@op("add_smaller", "sub_smaller", "mul_smaller", "div_smaller")
def _smaller(x):
    es = mismatch(x)
    if x.o.n == 0 or x.v.n % x.o.n != 0:
        es.append("ArgLength")
    return err(*es) if es else OK


@op("dot_product", "dot_product_prec")
def _dot(x):
    es = mismatch(x, ratio=False)
    if x.v.n != x.o.n:
        es.append("SameSize")
    if x.v.c:
        es.append("MustBeReal")
    return err(*(es + (["MustBeReal", "MetaData"] if x.v.c or x.o.c else []))) if es else OK


@op("dot_product_c", "dot_product_prec_c")
def _dotc(x):
    es = mismatch(x, ratio=False)
    if x.v.n != x.o.n:
        es.append("SameSize")
    if not x.v.c:
        es.append("MustBeComplex")
    return err(*(es + (["MustBeComplex", "MetaData"] if not x.v.c or not x.o.c else []))) if es else OK


# ---- resizing
@op("zero_pad", "zero_pad_b")
def _zero_pad(x):
    p = x.i("points")
    if p < x.v.pts:
        return err("ArgLength")
    if p == x.v.pts:
        return R("ok", "err:ArgLength")
    return R("ok", n=p * (2 if x.v.c else 1))


@op("zero_interleave", "zero_interleave_b")
def _zero_interleave(x):
    f = x.i("factor")
    if f <= 1:
        return OK
    return R(n=x.v.n * f)


@op("resize", "resize_b")
def _resize(x):
    n = x.i("len")
    if x.v.c and n % 2:
        return err("EvenLength")
    return R("ok", n=n)


@op("merge")
def _merge(x):
    return R("ok", "err", n=ANY)


# ---- domain changes
def fft_r(x, window=False, conj=False):
    if x.v.d != 0:
        return R("inv", c=True, d=1, subj="ret")
    return R(n=2 * x.v.pts, c=True, d=1, delta=fmul(x.v.delta, x.v.pts), subj="ret")


def fmul(a, b):
    return a * b if isinstance(a, Fr) else a


@op("plain_fft", "fft", "windowed_fft", "prepare_argument")
def _fft(x):
    return fft_r(x)


@op("prepare_argument_padded")
def _fft_padded(x):
    if x.v.d != 0:
        return R("inv", c=True, d=1, subj="ret")
    if x.v.pts <= 1:
        return R("ok", "any", n=ANY, c=True, d=1, delta=ANY, subj="ret")
    p = 2 * x.v.pts - 1
    return R(n=2 * p, c=True, d=1, delta=fmul(x.v.delta, p), subj="ret")


@op("plain_sfft", "sfft", "windowed_sfft")
def _sfft(x):
    es = []
    if x.v.d != 0 or x.v.c:
        es.append("MustBeTime")
    if x.v.c:
        es.append("MustBeReal")
    if x.v.pts % 2 == 0:
        es.append("OddLength")
    if es:
        return R(*["err:" + e for e in es], n=0, c=True, d=1, delta=ANY, subj="ret")
    return R(n=2 * (x.v.pts // 2 + 1), c=True, d=1, delta=fmul(x.v.delta, x.v.pts), subj="ret")


@op("plain_ifft", "ifft", "windowed_ifft")
def _ifft(x):
    if x.v.d != 1:
        return R("inv", c=True, d=0, subj="ret")
    if not x.v.c:
        # docs: length 0 if not in complex number space; the implementation completes real data with zeros instead
        return R("ok", "inv", n=2 * x.v.pts, c=True, d=0, delta=fmul(x.v.delta, x.v.pts), subj="ret")
    return R(n=2 * x.v.pts, c=True, d=0, delta=fmul(x.v.delta, x.v.pts), subj="ret")


@op("plain_sifft", "sifft", "windowed_sifft")
def _sifft(x):
    if x.v.d != 1 or not x.v.c:
        return R("err:MustBeFreq", "err:MustBeComplex", n=0, c=False, d=0, delta=ANY, subj="ret")
    if x.v.pts == 0:
        return R("ok", "err", n=ANY, c=False, d=0, delta=ANY, subj="ret")
    return R("ok", "err:ConjSym", n=2 * x.v.pts - 1, c=False, d=0, delta=fmul(x.v.delta, 2 * x.v.pts - 1), subj="ret")


# operations whose documentation says both: an error is returned and the vector is emptied
ERR_INVALIDATES = {"correlate", "set_real_imag", "set_mag_phase"}
SPEC_ERR_N = {"plain_sifft": 0, "sifft": 0, "windowed_sifft": 0}


@op("apply_window", "unapply_window")
def _window(x):
    return OK if x.v.d == 0 else INV


@op("mirror")
def _mirror(x):
    if x.v.d != 1 or not x.v.c:
        return INV
    if x.v.n == 0:
        return R("ok", n=ANY)
    return R(n=2 * x.v.n - 2)


@op("fft_shift", "ifft_shift")
def _shift(x):
    return R("ok", "inv") if x.v.d != 1 or not x.v.c else OK


@op("multiply_frequency_response_real")
def _mfr(x):
    return OK if x.v.d == 1 else INV


@op("multiply_frequency_response_complex")
def _mfrc(x):
    return OK if x.v.d == 1 and x.v.c else INV


@op("convolve_real")
def _conv(x):
    return OK if x.v.d == 0 else INV


@op("convolve_complex")
def _convc(x):
    return OK if x.v.d == 0 and x.v.c else INV


@op("convolve_signal")
def _convs(x):
    es = mismatch(x)
    if x.v.d != 0 or x.o.d != 0:
        es.append("MustBeTime")
    if x.o.pts > x.v.pts:
        es.append("ArgLength")
    return err(*es) if es else OK


@op("correlate")
def _corr(x):
    es = []
    if x.v.d != 0 or not x.v.c:
        es += ["MustBeTime", "MustBeComplex"]
    if x.o.d != 1 or not x.o.c:
        es += ["MustBeTime", "MustBeFreq", "MustBeComplex", "MetaData"]
    if not es and x.o.pts < x.v.pts:
        es.append("ArgLength")
    if not es and x.o.pts == x.v.pts:
        return R("ok", "err:ArgLength", n=2 * x.o.pts)
    if es:
        return err(*es, "SameSize")
    return R("ok", n=2 * x.o.pts)


# ---- interpolation
@op("interpolatef")
def _interpolatef(x):
    f = x.f("factor")
    if not isinstance(f, Fr) or f <= 0:
        return R("ok", n=ANY, delta=ANY)
    n = round_half_away(x.v.n * f)
    n += n % 2
    # the sample step isn't mentioned for this operation: kept, or adjusted to the new rate
    return R("ok", n=n, delta=(x.v.delta, x.v.delta / f) if isinstance(x.v.delta, Fr) else None)


def round_half_away(q):
    m = abs(q) + Fr(1, 2)
    m = m.numerator // m.denominator
    return m if q >= 0 else -m


@op("interpolatei")
def _interpolatei(x):
    f = x.i("factor")
    if f <= 1:
        return R("ok", "err:ArgSymmetric")
    return R("ok", "err:ArgSymmetric", n=x.v.n * f, delta=steps(x, Fr(1), Fr(1, f)))


def steps(x, *fs):
    return tuple(x.v.delta * f for f in fs) if isinstance(x.v.delta, Fr) else None


@op("interpolate", "interpft")
def _interpolate(x):
    p = x.i("dest_points")
    st = 2 if x.v.c else 1
    if x.v.pts == 0 or p == 0:
        return R("ok", "err", n=ANY, delta=ANY)
    d = x.v.delta
    return R("ok", "err:ArgSymmetric", n=p * st, delta=d * Fr(x.v.pts, p) if isinstance(d, Fr) else ANY)


@op("decimatei")
def _decimatei(x):
    f, dl = x.i("factor"), x.i("delay")
    if f == 0:
        return R("ok", n=ANY)
    k = max(0, -((dl - x.v.pts) // f))
    return R(n=k * (2 if x.v.c else 1), delta=steps(x, Fr(1), Fr(f)))


@op("interpolate_lin", "interpolate_hermite")
def _ilin(x):
    if x.v.c:
        return INV
    f = x.f("factor")
    if not isinstance(f, Fr) or x.v.n == 0 or f <= 0:
        return R("ok", n=ANY, delta=ANY)
    return R("ok", n=round_half_away((x.v.n - 1) * f) + 1, delta=steps(x, Fr(1), 1 / f))


# ---- conversions between the vector types
def red(c, d):
    def f(x):
        src = x.o if "o" in x.inits else x.v
        if (c is not None and src.c != c) or (d is not None and src.d != d):
            return R("len0", c=c, d=d, delta=ANY, subj="ret")
        return R(n=src.n, c=src.c, d=src.d, delta=src.delta, subj="ret")
    return f


SPEC["rededicate_rt"] = red(False, 0)
SPEC["rededicate_ct"] = red(True, 0)
SPEC["rededicate_rf"] = red(False, 1)
SPEC["rededicate_cf"] = red(True, 1)
REDED = {"gen64": (None, None), "gen32": (None, None), "rt64": (False, 0), "ct64": (True, 0), "rf64": (False, 1), "cf64": (True, 1)}


def spec_for(name):
    mod, o = name.split("::")
    if o == "rededicate_from":
        return red(*REDED[mod])
    return SPEC.get(o)
