"""Rules on the effect summaries: documented samples, partition independence, stale data, access bounds."""
import re

import convrule
import funrule
import conrule
import core
import data
import datacheck
import interoprule
import interprule
import matrule
import mergerule
import panics
import simdrule
import tiling
from core import Finding


def _main():
    import main
    return main


def want_mods(ops=None):
    """gen64 holds every operation which exists for vectors of any number space and domain; the typed vectors and the vectors in
    single precision add the operations which have code of their own (generic code is analysed once)"""
    M = _main()
    facts = core.extract("vec")
    names = [facts["insts"][i]["path"].split("harness_vec::")[-1] for i in facts["roots"]]
    have = {n.split("::")[-1] for n in names if n.startswith("gen64::")}
    src = core.own_sources(facts)
    own = {n for n in names if not n.startswith("gen64::") and src[n] - src.get("gen64::" + n.split("::")[-1], set())}

    def want(n):
        m, _, op = n.partition("::")
        if not M.in_mods(n) and n not in own or ops is not None and op not in ops:
            return False
        if M.TIER == "thorough":
            return True
        return m == "gen64" or op not in have or n in own
    return want


def total(res, keys):
    tot = {k: 0 for k in keys}
    und = {}
    for nme, (o, a, dt) in res.items():
        if not o:
            continue
        for k in keys:
            tot[k] += o.get(k, 0)
        for k, n in o["undecided"].items():
            und[k] = und.get(k, 0) + n
    return tot, und


def spec_rule(group, text, least):
    def f():
        M = _main()
        more = mergerule.OPS if group == "reorg" else {}
        ops = {o for o, g in data.GROUP.items() if g == group} | set(more)
        n = 16 if M.TIER == "thorough" else 5

        def fn(e, name, r):
            o = datacheck.check_root(e, name, r, n, M.SEED)
            if name.split("::")[-1] in more:
                c = mergerule.check(e, name, r, M.SEED, "spec", M.TIER == "thorough")
                o["viol"] += [(name, x, m, {}) for x, m in c["viol"]]
                for k in ("paths", "valuations", "compared"):
                    o[k] += c[k]
                for k, x in c["undecided"].items():
                    o["undecided"][k] = o["undecided"].get(k, 0) + x
            return o
        res, cov = M.run_rule(fn, want_mods(ops))
        fs = []
        dec = []
        for nme, (o, a, dt) in sorted(res.items()):
            if not o:
                continue
            if o["compared"]:
                dec.append(nme.split("::")[-1])
            seen = set()
            for op, where, msg, sz in o["viol"]:
                k = "%s:%s" % (nme, where)
                if k not in seen:
                    seen.add(k)
                    fs.append(Finding(k, "%s: %s of `%s` for inputs of %s" % (nme, msg, where, sz or "some size"), nme))
        tot, und = total(res, ("paths", "valuations", "compared"))
        cov.update({"operations": sorted(set(dec)), "exit_paths": tot["paths"], "valuations": tot["valuations"],
                    "values_compared": tot["compared"], "undecided": und, "explanation": text})
        return fs, cov, {"values_compared": least}
    return f


def variant_rule(mode, text, least, skip=()):
    def f():
        M = _main()
        n = 12 if M.TIER == "thorough" else 3
        w = want_mods()

        def fn(e, name, r):
            o = datacheck.variants(e, name, r, n, M.SEED, mode)
            for rule in (convrule, interprule, mergerule):
                if name.split("::")[-1] not in rule.OPS:
                    continue
                c = rule.check(e, name, r, M.SEED, mode, M.TIER == "thorough")
                o["viol"] += [(name, x, m, {}) for x, m in c["viol"]]
                for k in ("valuations", "compared"):
                    o[k] += c[k]
                for k, x in c["undecided"].items():
                    o["undecided"][k] = o["undecided"].get(k, 0) + x
            return o
        res, cov = M.run_rule(fn, lambda x: w(x) and x.split("::")[-1] not in skip)
        fs = []
        dec = set()
        for nme, (o, a, dt) in sorted(res.items()):
            if not o:
                continue
            if o["compared"]:
                dec.add(nme.split("::")[-1])
            seen = set()
            for op, where, msg, sz in o["viol"]:
                k = "%s:%s" % (nme, where)
                if k not in seen:
                    seen.add(k)
                    fs.append(Finding(k, "%s: %s" % (nme, msg), nme))
        tot, und = total(res, ("paths", "valuations", "compared"))
        cov.update({"operations": sorted(dec), "exit_paths": tot["paths"], "valuations": tot["valuations"],
                    "values_compared": tot["compared"], "undecided": dict(sorted(und.items())[:40]), "explanation": text})
        return fs, cov, {"values_compared": least}
    return f


def conv_rule(rule, least, text):
    def f():
        M = _main()
        w = want_mods(set(rule.OPS))

        def fn(e, name, r):
            return rule.check(e, name, r, M.SEED, "spec", M.TIER == "thorough")
        res, cov = M.run_rule(fn, lambda n: w(n) or n.split("::")[-1] in rule.OPS and n.startswith("gen32"))
        fs = []
        tot = {k: 0 for k in ("paths", "valuations", "compared")}
        cases, und = {}, {}
        for nme, (o, a, dt) in sorted(res.items()):
            if not o:
                continue
            for k in tot:
                tot[k] += o[k]
            for k, x in o["undecided"].items():
                und[k] = und.get(k, 0) + x
            cases[nme] = {c: d for c, d in sorted(o["cases"].items())}
            seen = set()
            for x, m in o["viol"]:
                if x not in seen:
                    seen.add(x)
                    fs.append(Finding("%s:%s" % (nme, x), m, nme))
        cov.update({"exit_paths": tot["paths"], "valuations": tot["valuations"], "values_compared": tot["compared"], "cases_decided": cases,
                    "undecided": und, "explanation": SUM + text})
        return fs, cov, {"values_compared": least}
    return f


def aux_rule(module, least, text, **more):
    def f():
        M = _main()

        def fn(e, name, r):
            return module.check(e, name, r, M.TIER == "thorough", M.SEED)
        res, cov = M.run_rule(fn, module.want, "aux", **more)
        fs, und, seen = [], {}, set()
        tot = {"exit_paths": 0, "values_compared": 0}
        for nme, (o, a, dt) in sorted(res.items()):
            if not o:
                continue
            tot["exit_paths"] += o["paths"]
            tot["values_compared"] += o["compared"]
            for k, x in o["undecided"].items():
                und[k] = und.get(k, 0) + x
            for x, m in o["viol"]:
                if (nme, x) not in seen:
                    seen.add((nme, x))
                    fs.append(Finding("%s:%s" % (nme, x), m, nme))
        cov.update(tot)
        cov.update({"undecided": und, "explanation": text})
        return fs, cov, {"values_compared": least}
    return f


def tiling_rule(pid_panics=True):
    """the splitting into chunks itself"""
    M = _main()
    res = tiling.run(core.extract("vec"), M.opts(), 3000 if M.TIER == "thorough" else 250, M.SEED)
    fs = []
    cov = {"functions": sorted(res), "inputs": 0, "decided": 0, "calls": 0}
    und = {}
    for m, (o, a) in sorted(res.items()):
        if o is None:
            und[m] = a[:100]
            continue
        for k in ("inputs", "decided", "calls"):
            cov[k] += o[k]
        for k, n in o["undecided"].items():
            und[k] = und.get(k, 0) + n
        for kind, msg in o["viol"]:
            fs.append(Finding("Chunk::%s:%s" % (m, kind), msg, "Chunk::" + m))
    cov["undecided"] = und
    return fs, cov


def with_tiling(f, only=None):
    def g():
        fs, cov, fl = f()
        fs2, cov2 = tiling_rule()
        fs += [x for x in fs2 if only is None or only in x.key]
        cov["splitting_into_chunks"] = cov2
        return fs, cov, fl
    return g


def simd_part(only):
    M = _main()
    o = simdrule.run(core.extract("vec"), M.opts(), 12 if M.TIER == "thorough" else 4, M.SEED)
    fs = [Finding("Simd::" + k, m, "Simd::" + k) for k, m in sorted(o.viol.items()) if only is None or only(k)]
    return fs, {"functions": sorted(o.functions), "values_compared": o.compared, "undecided": o.und}


def with_simd(f, only=None):
    def g():
        fs, cov, fl = f()
        fs2, cov2 = simd_part(only)
        cov["registers_and_partitions"] = cov2
        return fs + fs2, cov, fl
    return g


def simd_rule():
    fs, cov = simd_part(None)
    cov["explanation"] = ("every method of the register types, and the partitioning of a slice into head, registers and tail, is summarised from "
                          "the MIR and compared, lane by lane and position by position, with the scalar operation")
    return fs, cov, {"values_compared": 900}


def simple_rule(harness, module, pick, floor, text):
    def f():
        M = _main()
        r = module.run(core.extract(harness), M.opts(), M.SEED)
        fs = [Finding(k, m, k.split(":")[0]) for k, m in sorted(r.viol.items()) if pick(k)]
        cov = {"functions": sorted(r.functions), "obligations": r.obl, "undecided": r.und, "explanation": text}
        return fs, cov, {"obligations": floor}
    return f


OWN = re.compile(r":(frees|handle|symbol|missing)")

INDEX = {"slice index", "index", "assert:bounds", "copy_from_slice", "split_at", "odd number of floats"}
# the caller's side of the contract: an index argument within the vector, a factor which isn't zero
EXEMPT = {a + b + c for a in ("data", "datac") for b in ("", "_from", "_to", "_range") for c in ("", "_mut")} | {"decimatei", "interpolate_hermite", "interpolate_lin"}


def panic_kind(what):
    return "index" if what in INDEX else what.split(":")[0].split()[0]


def panic_rule(least):
    def f():
        M = _main()
        n = 6 if M.TIER == "thorough" else 2

        def fn(e, name, r):
            return panics.check_root(e, name, r, n, M.SEED)
        w = want_mods()
        res, cov = M.run_rule(fn, lambda x: w(x) and x.split("::")[-1] not in EXEMPT, panics=True)
        fs = []
        tot = {k: 0 for k in ("panics", "sites", "reach", "opaque", "infeasible", "skipped")}
        for nme, (o, a, dt) in sorted(res.items()):
            if not o:
                continue
            for k in tot:
                tot[k] += o[k]
            seen = set()
            for what, where, sz in o["viol"]:
                if what == "odd number of floats" and nme.startswith("gen"):
                    # whether the vector is complex isn't in its type
                    continue
                k = "%s:%s" % (nme.split("::")[-1], panic_kind(what))
                if k not in seen:
                    seen.add(k)
                    fs.append(Finding(k, "%s panics (%s) at %s for inputs with %s" % (nme, what, where, sz), nme))
        cov.update({"panicking_paths": tot["panics"], "panic_sites": tot["sites"], "panicking_paths_refuted": tot["infeasible"],
                    "panicking_paths_undecided": tot["opaque"] + tot["skipped"],
                    "explanation": "the facts of each path of each operation which ends in a panic (index, slice, length or arithmetic check, "
                                   "assertion, unwrap) are searched for an input which satisfies them"})
        return fs, cov, {"panic_sites": least}
    return f


SUM = ("the effect summary of each exit path (positions and values as terms over inputs and loop counters, from the MIR) is "
       "evaluated for arbitrary contents ")
PROPS = {
    "P07": (variant_rule("stale", SUM + "twice, with different contents behind the valid samples and in the buffers: results must agree", 8000,
                         ("resize", "resize_b", "merge")), "other"),
    "P08": (with_simd(variant_rule("bounds", SUM + "and every access to float storage must lie within the slice it goes through", 8000),
                      lambda k: "Edge" in k or "Partition" in k), "other"),
    "P09": (with_tiling(variant_rule("parts", SUM + "with one, two, three and four chunks: results must agree; each function of Chunk hands each element exactly once, with its range, to the function it executes", 4000)), "other"),
    "P22": (with_tiling(panic_rule(300), "panic"), "other"),
    "P10": (with_simd(spec_rule("elem", SUM + "and compared with the documented function of each sample", 4000)), "other"),
    "P11": (simd_rule, "other"),
    "P13": (simple_rule("interop", interoprule, lambda k: not OWN.search(k), 12000,
                        "every exported function is summarised from the MIR with the vector operations left opaque: which operation is called, "
                        "with which of the arguments, and what becomes of its result and of the buffer"), "other"),
    "P14": (simple_rule("interop", interoprule, lambda k: bool(OWN.search(k)), 12000,
                        "the ownership of every handle on every path of every exported function, and the exported symbols of both precisions"), "other"),
    "P15": (simple_rule("mat", matrule, lambda k: True, 6000,
                        "every matrix operation is summarised from the MIR with the operations of the rows left opaque, for MxN matrices of up to "
                        "three rows and the fixed sizes"), "other"),
    "P18": (conv_rule(convrule, 3000, "with fixed numbers of points, and compared with the definition of the circular convolution"), "other"),
    "P21": (conv_rule(interprule, 800, "with fixed numbers of points, factors and delays, and compared with the definition of the interpolation"), "other"),
    "P19": (aux_rule(funrule, 1500, "the value of every path of every window, impulse response and frequency response is a term over its arguments, "
                     "which is compared with the documented formula; lookup tables: " + SUM + "and compared with interpolation and transforms"), "other"),
    "P20": (aux_rule(conrule, 8000, "the result of every constructor and conversion is a term over its arguments and its effects are summarised; both are "
                     "evaluated for lengths, capacities, kinds and valid lengths and compared with what is documented", panics=1), "other"),
    "P12": (spec_rule("reorg", SUM + "and compared with the documented rearrangement", 2000), "other"),
    "P16": (spec_rule("trans", SUM + "and compared with the documented sequence of window, transform, scaling and reordering", 800), "other"),
    "P17": (with_simd(spec_rule("red", SUM + "and compared with the documented reduction", 1000)), "other"),
}
