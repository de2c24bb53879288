"""Interpolations: the effect summaries are compared with the definition of the interpolation, under valuations which fix the number of
points and the factor (they select the algorithm: scalar sum, registers with shifted copies of the impulse response, or transforms)."""
import math
from fractions import Fraction as Fr

import convrule
import data
from convrule import AnyOf, Alts, zero
from data import Free
from evalr import hf
from terms import mk, s, sym

FREQ = "basic_dsp_vector::conv_types::RealFrequencyResponse::"
TIME = "basic_dsp_vector::conv_types::RealImpulseResponse::"


def calc(env, f, x, tr, name="f"):
    if env.i(mk("call", tr + "is_symmetric", f)):
        x = abs(x)
    return hf(env.salt, "calc", name, x)


def op_interpolatef(c, env, case):
    """out[i] = sum over 2 L + 1 consecutive points n around i / factor of x[n mod N] * h(n - i / factor + delay / delta)"""
    x, cx = c.v.p(), c.v.cx
    n, f = len(x), env.f(sym("factor"))
    L = min(env.i(sym("len")), n // 2)
    d = env.op2("f/", env.f(sym("delay")), c.v.delta)
    floats = round_half(c.v.n * f)
    floats += floats % 2
    out = []
    for i in range(floats // 2 if cx else floats):
        t = i / f
        fl = math.floor(t)
        alts = []
        for a in (fl - L, fl - L + 1, fl - L - 1):
            z = zero(cx)
            for m in range(a, a + 2 * L + 1):
                z = c.op("+", z, c.op("*", x[m % n], calc(env, sym("f"), m - t + d, TIME)))
            alts.append(z)
        out.append(AnyOf(alts))
    return out


def round_half(q):
    return math.floor(q + Fr(1, 2))


def op_lin(c, env, case):
    x, f, d = c.v.p(), env.f(sym("factor")), env.f(sym("delay"))
    if not x:
        return []
    n = round_half((len(x) - 1) * f) + 1
    out = []
    for i in range(n - 1):
        t = i / f + d
        b = math.floor(t)
        if b < 0:
            raise Free
        # the last sample is held
        out.append(c.op("+", x[b], c.op("*", c.op("-", x[b + 1], x[b]), t - b)) if b < len(x) - 1 else x[-1])
    return out + [x[-1]]


def op_hermite(c, env, case):
    """Catmull-Rom spline through the four points around the position, linear extrapolation for the points outside of the vector"""
    x, f, d = c.v.p(), env.f(sym("factor")), env.f(sym("delay"))
    N = len(x)
    n = round_half((N - 1) * f) + 1

    def lin(*ts):
        z = Fr(0)
        for k, v in ts:
            z = c.op("+", z, c.op("*", Fr(k), v))
        return z
    out = []
    for i in range(n):
        t = i / f + d
        b = math.floor(t)
        if not 0 <= b < N:
            raise Free
        y1 = x[b]
        y0 = x[b - 1] if b > 0 else None
        y2 = x[b + 1] if b + 1 < N else lin((2, y1), (-1, y0))
        y3 = x[b + 2] if b + 2 < N else lin((2, y2), (-1, y1))
        if y0 is None:
            y0 = lin((2, y1), (-1, y2))
        u = t - b
        h = Fr(1, 2)
        a0 = lin((-h, y0), (3 * h, y1), (-3 * h, y2), (h, y3))
        a1 = lin((1, y0), (-5 * h, y1), (2, y2), (-h, y3))
        a2 = lin((-h, y0), (h, y2))
        out.append(lin((u ** 3, a0), (u ** 2, a1), (u, a2), (1, y1)))
    return out


def complexed(ps, cx):
    return ps if cx else [("C", p, Fr(0)) for p in ps]


def spread(ps, f):
    z = ("C", Fr(0), Fr(0))
    return [y for p in ps for y in [p] + [z] * (f - 1)]


def respond(c, env, ps, f, name, ratio, delta=0):
    """multiplies a spectrum in transform order with ratio * f(ratio * normalised frequency); `delta`: the negative frequencies are off by this number of points"""
    n = len(ps)
    mx = Fr(n // 2)
    if not mx:
        raise Free
    out = []
    for j, p in enumerate(ps):
        q = j / mx if j <= n // 2 else -(n - j + delta) / mx
        out.append(c.op("*", p, c.op("*", ratio, calc(env, f, q * ratio, FREQ, name))))
    return out


def back(c, ps, n, cx):
    r = [c.op("*", p, Fr(1, n)) for p in data.dft(c, ps, 1)]
    return r if cx else [p[1] for p in r]


def op_interpolatei(c, env, case):
    """zeros between the points, then a multiplication of the spectrum with the frequency response"""
    cx, f = c.v.cx, env.i(sym("factor"))
    if f <= 1:
        return c.v.p()
    if not cx and not env.i(mk("call", FREQ + "is_symmetric", sym("f"))):
        raise Free
    sp = data.dft(c, spread(complexed(c.v.p(), cx), f), 0)
    r = Alts([back(c, respond(c, env, sp, sym("f"), "f", Fr(f)), len(sp), cx)])
    if odd_symmetric(env, sym("f"), len(sp)):
        r.known[ODD] = [back(c, respond(c, env, sp, sym("f"), "f", Fr(f), -1), len(sp), cx)]
    return r


def op_interpolate(c, env, case):
    cx = c.v.cx
    N, n = c.v.pts, env.i(sym("dest_points"))
    d = env.f(sym("delay")) if case["op"] == "interpolate" else Fr(0)
    f = None
    if case["op"] == "interpolate" and env.i(mk("discr", sym("f"))):
        f = mk("fld", mk("var", sym("f"), 1), 0)
        if not cx and not env.i(mk("call", FREQ + "is_symmetric", f)):
            raise Free
    sp = data.dft(c, complexed(c.v.p(), cx), 0)
    turned = [sp]
    if d:
        # x(t + delay): bin k turns by 2 pi k delay / N, the highest frequency of even lengths in either direction
        w = c.op("*", env.f(mk("kf", "3.141592653589793")), 2 * d / c.v.delta / N)
        turned = [[c.op("*", p, env.unit((k if 2 * k < N or 2 * k == N and up else k - N) * w)) for k, p in enumerate(sp)] for up in (0, 1)]
    r = Alts(rescale(c, env, x, N, n, f) for x in turned)
    if f is not None and n > N and odd_symmetric(env, f, n):
        r.known[ODD] = [rescale(c, env, x, N, n, f, -1) for x in turned]
    return r


ODD = "odd number of points and a symmetric function"


def odd_symmetric(env, f, n):
    return n % 2 and env.i(mk("call", FREQ + "is_symmetric", f))


def rescale(c, env, sp, N, n, f, delta=0):
    cx = c.v.cx
    h = (N + 1) // 2
    ratio = Fr(n, N)
    if n > N:
        sp = sp[:h] + [("C", Fr(0), Fr(0))] * (n - N) + sp[h:]
        sp = [c.op("*", p, ratio) for p in sp] if f is None else respond(c, env, sp, f, s(f), ratio, delta)
    elif n < N:
        h = (n + 1) // 2
        sp = [c.op("*", p, ratio) for p in sp[:h] + sp[N - n + h:]]
    return back(c, sp, n, cx)


def case(op, n, cx, extra, what, ints=None, floats=None):
    return {"op": op, "v": n, "cx": cx, "extra": extra, "ints": ints or {}, "floats": floats or {}, "label": "%d%s, %s" % (n, "c" if cx else "", what)}


def pf(n, f, L, cx, extra, delay=Fr(0)):
    return case("interpolatef", n, cx, extra, "factor %s, length %d, delay %s" % (f, L, delay), {"len": L}, {"factor": Fr(f), "delay": delay})


def pi(n, f, cx, extra):
    return case("interpolatei", n, cx, extra, "factor %d" % f, {"factor": f})


def pt(op, n, m, cx, extra, fn=0, delay=0):
    """delay: the lowest frequency turns by this number of quarters of a circle"""
    if op == "interpft":
        return case(op, n, cx, extra, "%d points" % m, {"dest_points": m})
    d = Fr(delay) * n / 4
    r = case(op, n, cx, extra, "%d points%s, delay %s" % (m, ", function" if fn else "", d), {"dest_points": m, "discr(f)": fn}, {"delay": d / 2, "v.delta": Fr(1, 2)})
    r["circle"] = True
    return r


def pl(op, n, f, delay=Fr(0)):
    return case(op, n, False, 0, "factor %s, delay %s" % (f, delay), {}, {"factor": Fr(f), "delay": delay})


H = Fr(1, 2)
OPS = {"interpolatef": (op_interpolatef, [pf(6, 2, 3, True, 2), pf(5, 3, 2, False, 1, Fr(1, 4)), pf(4, Fr(5, 2), 6, False, 0), pf(8, H, 2, True, 0, H),
                                          pf(7, Fr(3, 4), 1, False, 3, -H)]),
       "interpolate_lin": (op_lin, [pl("l", 5, 2), pl("l", 4, Fr(5, 2)), pl("l", 2, 3), pl("l", 7, H), pl("l", 9, 1), pl("l", 6, 4, Fr(1, 8)), pl("l", 5, 3, Fr(3, 4)), pl("l", 0, 2), pl("l", 1, 3)]),
       "interpolate_hermite": (op_hermite, [pl("h", 5, 2), pl("h", 7, Fr(7, 2)), pl("h", 3, 2), pl("h", 8, Fr(9, 4), Fr(1, 4)), pl("h", 6, 3), pl("h", 9, 4), pl("h", 8, 1)]),
       "interpolatei": (op_interpolatei, [pi(4, 2, True, 0), pi(5, 3, True, 2), pi(3, 2, False, 1), pi(4, 3, False, 0), pi(2, 1, True, 0), pi(5, 0, False, 0)]),
       "interpolate": (op_interpolate, [pt("interpolate", a, b, cx, x, k, *d) for a, b, cx, x, k, *d in [
           (4, 8, True, 0, 0, 1), (5, 9, True, 0, 0, 3), (6, 9, False, 0, 1, -2), (3, 3, True, 2, 0, 1), (7, 6, False, 1, 0, -1), (4, 8, True, 0, 0), (5, 7, True, 2, 1), (3, 8, False, 1, 1), (4, 9, False, 0, 0), (8, 5, True, 0, 1), (7, 4, False, 1, 0), (9, 3, True, 2, 0),
           (5, 5, True, 0, 1), (6, 6, False, 2, 0), (4, 8, True, 2, 1)]]),
       "interpft": (op_interpolate, [pt("interpft", a, b, cx, x) for a, b, cx, x in [
           (4, 8, True, 0), (5, 7, True, 2), (3, 8, False, 1), (4, 9, False, 0), (8, 5, True, 0), (7, 4, False, 1), (9, 3, True, 2), (5, 5, True, 0), (6, 6, False, 2)]])}
MORE = {"interpolatef": [pf(1001, 2, 3, False, 1, H), pf(500, 2, 4, True, 0), pf(335, 3, 2, True, 2, Fr(1, 4)), pf(1200, 4, 12, False, 0, H), pf(700, 3, 5, True, 0, -H), pf(12, Fr(7, 4), 5, True, 0, Fr(3, 4)), pf(1000, Fr(9, 4), 3, False, 0, H)],
        "interpolatei": [pi(n, f, cx, x) for n, f, cx, x in [(7, 2, True, 2), (8, 4, False, 1), (6, 5, True, 0), (1, 2, True, 0)]],
        "interpolate": [pt("interpolate", a, b, cx, x) for a, b, cx, x in [(1, 4, True, 0), (2, 5, False, 0), (11, 13, True, 2), (16, 7, False, 1), (13, 11, True, 0)]],
        "interpft": [pt("interpft", a, b, cx, x) for a, b, cx, x in [(1, 4, True, 0), (2, 5, False, 0), (11, 13, True, 2), (16, 7, False, 1), (13, 11, True, 0)]],
        "interpolate_lin": [pl("l", 13, Fr(7, 2)), pl("l", 3, 9, Fr(1, 16))], "interpolate_hermite": [pl("h", 13, Fr(7, 2)), pl("h", 12, 5), pl("h", 9, 2, Fr(3, 4)), pl("h", 4, Fr(1, 2))]}


def check(e, name, r, seed, mode="spec", deep=False):
    return convrule.check(e, name, r, seed, mode, deep, OPS, MORE)


if __name__ == "__main__":
    convrule.cli(OPS, MORE)
