"""Merging and splitting vectors: every sample of every source, every sample of every target, with fixed numbers of vectors and points."""
import convrule
from terms import mk, sym

SRC, DST = "deref(sources[%d;x])", "deref(targets[%d;x])"


def points(env, base, k, m, z):
    """k vectors of m floats -> for each vector its points"""
    return [[("C", env.cell(base % j + ".0", z * i), env.cell(base % j + ".0", z * i + 1)) if z == 2 else env.cell(base % j + ".0", i) for i in range(m // z)] for j in range(k)]


def op_merge(c, env, case):
    """out[i] = source[i mod k][i / k]"""
    k, m = case["k"], case["m"]
    ps = points(env, SRC, k, m, 2 if case["cx"] else 1)
    return [ps[i % k][i // k] for i in range(k * len(ps[0]))]


def op_split(c, env, case):
    """target[j][i] = v[i k + j], all targets in one list"""
    k, ps = case["k"], c.v.p()
    return [ps[i * k + j] for j in range(k) for i in range(len(ps) // k)]


def case(n, k, m, cx, extra, base, stored):
    z = 2 if cx else 1
    ints = {"len(%s)" % base.split("(")[1].split("[")[0]: k}
    for j in range(k):
        ints[base % j + ".4"] = m * z
        ints["len(" + base % j + ".0)"] = stored * z + j
        ints[base % j + ".3.0"] = int(cx)
    return {"v": n, "k": k, "m": m * z, "cx": cx, "extra": extra, "ints": ints, "label": "%d%s, %d vectors of %d points" % (n, "c" if cx else "", k, m)}


def merge(n, k, m, cx, extra):
    return case(n, k, m, cx, extra, SRC, m + 1)


def split(k, m, cx, extra):
    r = case(k * m, k, m, cx, extra, DST, m)
    r["got"] = lambda env, n: [x for p in points(env, DST, k, r["m"], 2 if cx else 1) for x in convrule.flat(p)]
    return r


OPS = {"merge": (op_merge, [merge(3, 2, 4, False, 0), merge(12, 3, 2, True, 2), merge(4, 5, 1, False, 3), merge(2, 1, 3, True, 0), merge(0, 3, 3, False, 0)]),
       "split_into": (op_split, [split(2, 4, False, 0), split(3, 2, True, 2), split(5, 1, False, 1), split(1, 3, True, 0), split(3, 3, False, 2)])}
MORE = {"merge": [merge(1, 7, 3, True, 1), merge(40, 4, 4, False, 0)], "split_into": [split(7, 3, True, 1), split(4, 5, False, 0)]}


def uneven(n, k, m, cx, extra, which, by):
    """merge: one source of another length"""
    r = merge(n, k, m, cx, extra)
    r["ints"][SRC % which + ".4"] += by * (2 if cx else 1)
    r["ints"]["len(" + SRC % which + ".0)"] += max(0, by) * (2 if cx else 1)
    r["label"] += ", vector %d has %d points" % (which, m + by)
    return r


def remainder(n, k, cx, extra):
    """split_into: n points which can't be divided into k vectors"""
    r = split(k, n // k, cx, extra)
    r["v"] = n
    r["label"] = "%d%s, %d vectors" % (n, "c" if cx else "", k)
    return r


def none(op, n, cx):
    b = SRC if op == "merge" else DST
    return {"v": n, "cx": cx, "extra": 0, "ints": {"len(%s)" % b.split("(")[1].split("[")[0]: 0}, "label": "%d%s, no vectors" % (n, "c" if cx else "")}


REJECT = {"merge": (None, [uneven(3, 2, 4, False, 0, 1, 1), uneven(3, 3, 4, False, 0, 2, 1), uneven(2, 3, 2, True, 0, 1, -1), uneven(2, 4, 2, False, 1, 3, -1),
                           uneven(3, 3, 2, True, 0, 0, 1), uneven(1, 5, 3, False, 0, 4, 2), none("merge", 2, False), none("merge", 2, True)]),
          "split_into": (None, [remainder(3, 2, False, 0), remainder(5, 2, True, 2), remainder(7, 3, False, 1), remainder(2, 3, False, 0), remainder(4, 3, True, 0),
                                none("split_into", 2, False), none("split_into", 2, True)])}


def check(e, name, r, seed, mode="spec", deep=False):
    if mode == "reject":
        return convrule.check(e, name, r, seed, mode, deep, REJECT, {})
    return convrule.check(e, name, r, seed, mode, deep, OPS, MORE)


if __name__ == "__main__":
    convrule.cli(OPS, MORE)
