"""usage: main.py <property id>    exit 0: holds, 1: VIOLATION line printed, 2: the check could not do its work"""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
from core import Finding  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
QMODS = ("gen64", "rt64", "ct64", "rf64", "cf64")
TMODS = QMODS + ("gen32",)


def mods():
    return TMODS if TIER == "thorough" else QMODS


def in_mods(n):
    return n.split("::")[0] in mods()


def opts():
    return {"max_steps": 4000000 if TIER == "thorough" else 1000000}


def floors(cov, **f):
    for k, v in f.items():
        if cov.get(k, 0) < v:
            raise core.Broken("only %s %s analysed, at least %s expected: the analysis lost its anchors" % (cov.get(k, 0), k, v))


def run_rule(fn, want=in_mods, harness="vec", **more):
    """-> (results, coverage base)"""
    facts = core.extract(harness)
    res = core.analyse(facts, fn, want, dict(opts(), **more))
    ab = {n: a for n, (o, a, dt) in sorted(res.items()) if a}
    cov = {"entry_points": len(res), "entry_points_decided": len(res) - len(ab)}
    if ab:
        cov["not_analysed"] = ["%s: %s" % (n, a[:160]) for n, a in ab.items()][:40]
    if len(res) and len(ab) * 2 > len(res):
        raise core.Broken("%d of %d entry points could not be analysed, e.g. %s" % (len(ab), len(res), next(iter(ab.items()))))
    return res, cov


# ------------------------------------------------------------------------------------------------ contract table
def contracts(pid, aspects, title, want=None):
    import contracts as C

    n = 40 if TIER == "thorough" else 10

    def fn(e, name, r):
        return C.check_root(e, name, r, n, SEED)
    res, cov = run_rule(fn, want or in_mods)
    fs = []
    tot = {}
    for nme, (o, a, dt) in sorted(res.items()):
        if not o:
            continue
        for k in ("paths", "samples", "obl", "undecided", "unsampled"):
            tot[k] = tot.get(k, 0) + o[k]
        for asp, key, msg in o["viol"]:
            if asp in aspects:
                fs.append(Finding(key, msg, nme))
    cov.update({"exit_paths": tot.get("paths", 0), "valuations": tot.get("samples", 0), "obligations": tot.get("obl", 0),
                "obligations_undecided": tot.get("undecided", 0), "exit_paths_without_valuation": tot.get("unsampled", 0),
                "aspects": list(aspects), "explanation": title})
    return fs, cov, {"entry_points": 350}


def p02():
    """the contract table, and lists of vectors whose lengths don't match"""
    import mergerule
    fs, cov, fl = contracts("P02", ("outcome",), "each exit path of each operation returns the outcome (success, error kind, invalidated vector) which the contract table requires for its inputs")

    def fn(e, name, r):
        return mergerule.check(e, name, r, SEED, "reject", TIER == "thorough")
    res, _ = run_rule(fn, lambda n: in_mods(n) and n.split("::")[-1] in mergerule.REJECT, checks=True)
    n, und = 0, {}
    for nme, (o, a, dt) in sorted(res.items()):
        if not o:
            continue
        n += o["valuations"]
        for k, v in o["undecided"].items():
            und[k] = und.get(k, 0) + v
        for what, msg in o["viol"][:1]:
            fs.append(Finding("%s:%s" % (nme, what), "%s: %s" % (nme, msg), nme))
    cov.update({"lists_of_vectors_rejected": n, "lists_of_vectors_undecided": und})
    return fs, cov, fl


def p01():
    import p01 as P
    ws, ok, bad, errs = P.run()
    fs = [Finding("%s:%s" % (k, w), m, "trait bounds") for k, w, m in bad if w in ("accepted", "result-type")]
    und = [k for k, w, m in bad if w == "broken"]
    cov = {"witnesses": len(ws), "witnesses_confirmed": ok, "witnesses_undecided": und,
           "explanation": "one line programs per (vector type, operation) pair which have to be rejected by the type checker of the current tree (or accepted, for documented result and argument types)"}
    return fs, cov, {"witnesses": 420}


PROPS = {
    "P01": (p01, "other"),
    "P02": (p02, "other"),
    "P03": (lambda: contracts("P03", ("errstate",), "no exit path which returns an error has changed a vector passed by reference"), "other"),
    "P04": (lambda: contracts("P04", ("cx", "dom"), "number space and domain flags on each exit path of each operation agree with the contract table"), "other"),
    "P05": (lambda: contracts("P05", ("delta", "mcs"), "sample step and multi core settings on each exit path of each operation agree with the contract table"), "other"),
    "P06": (lambda: contracts("P06", ("len", "repr"), "vector length on each exit path agrees with the contract table, stays within the storage and is even for complex vectors"), "other"),
}
try:
    import rules_extra
    PROPS.update(rules_extra.PROPS)
except ImportError:
    pass


def main():
    pid = sys.argv[1]
    t0 = time.time()
    f, level = PROPS[pid]
    try:
        fs, cov, fl = f()
        floors(cov, **fl)
    except core.Broken as x:
        print("BROKEN property=%s %s" % (pid, x))
        sys.exit(2)
    core.finish(pid, fs, cov, t0, level)


if __name__ == "__main__":
    main()
