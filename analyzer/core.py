"""Shared infrastructure: building the MIR facts driver, extracting facts from /repo's current tree, running the
abstract interpreter over roots in parallel, known findings, evidence and exit protocol."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

from terms import T, s, mk, sym, K, F0  # noqa: E402
import engine  # noqa: E402


class Broken(Exception):
    """the check could not do its work (not a violation)"""


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def own_sources(facts, skip=("/meta.rs:", "/simd_extensions/")):
    """for every root: the definitions of the crates of the repository which it can reach (generic code counts once)"""
    body = {b["id"]: b for b in facts["bodies"]}
    insts = facts["insts"]
    calls = {}

    def refs(x, out):
        if isinstance(x, dict):
            if x.get("inst") is not None:
                out.add(x["inst"])
            for v in x.values():
                refs(v, out)
        elif isinstance(x, list):
            for v in x:
                refs(v, out)

    def callees(i):
        if i not in calls:
            o = set()
            if i in body:
                refs(body[i]["blocks"], o)
            calls[i] = o
        return calls[i]
    res = {}
    for r in facts["roots"]:
        seen, todo = {r}, [r]
        while todo:
            for y in callees(todo.pop()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        res[insts[r]["path"].split("harness_vec::")[-1]] = {
            insts[x]["span"] for x in seen if insts[x]["crate"].startswith("basic_dsp") and not any(k in insts[x]["span"] for k in skip)}
    return res


def sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise Broken("nightly toolchain missing: " + o[-300:])
    return o.strip().splitlines()[-1]


def tree_key(dirs):
    m = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    m.update(p.encode())
                    with open(p, "rb") as fh:
                        m.update(hashlib.sha256(fh.read()).digest())
    return m.hexdigest()[:20]


def scratch_root():
    d = os.path.join(VERIF, "target")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.remove(t)
        return d
    except OSError:
        return tempfile.gettempdir()


def driver():
    d = os.path.join(VERIF, "driver")
    key = tree_key([os.path.join(d, "src")]) + "-" + hashlib.sha256(open(os.path.join(d, "Cargo.toml"), "rb").read()).hexdigest()[:8]
    out = os.path.join(scratch_root(), "driver-" + key)
    b = os.path.join(out, "debug", "dspfacts")
    if not os.path.exists(b):
        rc, o = sh(["cargo", "+nightly", "build", "--offline"], cwd=d, env={"CARGO_TARGET_DIR": out, "RUSTFLAGS": ""})
        if rc or not os.path.exists(b):
            raise Broken("driver build failed:\n" + o[-3000:])
    return b


HARNESS = {
    # name: (cwd, crate, extra cargo args, env)
    "vec": (os.path.join(VERIF, "harness/vec"), "harness_vec", [], {"DSPV_TRAITS": "1"}),
    "mat": (os.path.join(VERIF, "harness/mat"), "harness_mat", [], {}),
    "aux": (os.path.join(VERIF, "harness/aux"), "harness_aux", [], {}),
    "nostd": (os.path.join(VERIF, "harness/nostd"), "harness_nostd", [], {}),
    "interop": (os.path.join(REPO, "interop"), "basic_dsp_interop", [], {"DSPV_VTABLES": "1"}),
}


def extract(name):
    """-> facts dict for one harness, from the current /repo tree"""
    cwd, crate, extra, env = HARNESS[name]
    dirs = [REPO, os.path.join(VERIF, "driver/src")] + ([cwd] if not cwd.startswith(REPO) else [])
    key = tree_key(dirs)
    root = scratch_root()
    out = os.path.join(root, "facts-%s-%s.json" % (name, key))
    if not os.path.exists(out):
        for f in os.listdir(root):
            if f.startswith("facts-%s-" % name):
                os.remove(os.path.join(root, f))
        drv = driver()
        tgt = tempfile.mkdtemp(prefix="tgt-%s-" % name, dir=root)
        src = cwd
        try:
            if cwd.startswith(REPO):
                # work on a copy so that nothing is written below /repo
                src = os.path.join(tgt, "src")
                shutil.copytree(REPO, src, ignore=shutil.ignore_patterns("target", ".git"))
                src = os.path.join(src, os.path.relpath(cwd, REPO))
            e = dict(env)
            e.update({"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "DSPV_OUT": out + ".tmp", "DSPV_CRATE": crate,
                      "RUSTC_WORKSPACE_WRAPPER": drv, "CARGO_TARGET_DIR": os.path.join(tgt, "t"),
                      "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -Awarnings"})
            rc, o = sh(["cargo", "+nightly", "check", "--offline"] + extra, cwd=src, env=e)
            if rc or not os.path.exists(out + ".tmp"):
                raise Broken("fact extraction for %s failed:\n%s" % (name, o[-4000:]))
            os.rename(out + ".tmp", out)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
    with open(out) as fh:
        return json.load(fh)


# ------------------------------------------------------------------------------------------------ parallel analysis
_G = {}


def _init(facts, fn, opts):
    _G["e"] = engine.Engine(facts, opts)
    _G["fn"] = fn


def _work(job):
    name, bid = job
    e = _G["e"]
    t = time.time()
    try:
        r = e.run_root(bid)
    except engine.Abort as x:
        return name, None, "abort: %s at %s" % (x, s(e.cur)), time.time() - t
    except RecursionError:
        return name, None, "abort: recursion", time.time() - t
    except Exception as x:  # an analysis gap, never an alarm
        import traceback
        if os.environ.get("DSPV_DEBUG"):
            traceback.print_exc()
        return name, None, "abort: internal %r" % (x,), time.time() - t
    try:
        out = _G["fn"](e, name, r)
    except engine.Abort as x:
        return name, None, "abort in rule: %s" % x, time.time() - t
    except Exception as x:  # an analysis gap, never an alarm
        if os.environ.get("DSPV_DEBUG"):
            raise
        return name, None, "abort in rule: internal %r" % (x,), time.time() - t
    return name, out, None, time.time() - t


def root_name(path, crate):
    return path.split(crate + "::", 1)[-1]


def analyse(facts, fn, want=None, opts=None, procs=8):
    """run `fn(engine, name, result)` for every root (whose name satisfies `want`); -> {name: (out, abort)}"""
    crate = facts["crate"]
    I = facts["insts"]
    jobs = []
    for i in facts["roots"]:
        inst = I[i]
        n = root_name(inst["path"], crate)
        if want is None or want(n):
            jobs.append((n, i))
    heavy = ("interpolatef", "convolve", "interpolate", "ifft", "zero_pad", "correlate")
    jobs.sort(key=lambda j: (not any(h in j[0] for h in heavy), j[0]))
    res = {}
    # fork: workers share the parsed facts
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, max(1, len(jobs))), _init, (facts, fn, opts or {})) as p:
        for n, out, ab, dt in p.imap_unordered(_work, jobs, chunksize=1):
            res[n] = (out, ab, dt)
    return res


# ------------------------------------------------------------------------------------------------ findings
class Finding:
    def __init__(self, key, msg, where=""):
        self.key = key
        self.msg = msg
        self.where = where


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    out = {}
    for x in d["findings"]:
        if x.get("status") == "known":
            out[(x["property"], x["key"])] = x
    return out


def finish(pid, findings, coverage, t0, level, assumptions=None, broken=None):
    """dedupe, compare with known findings, write the evidence file, print the verdict, exit"""
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    uniq = {}
    for f in findings:
        uniq.setdefault(f.key, f)
    kn = known_findings()
    new = [f for k, f in sorted(uniq.items()) if (pid, k) not in kn]
    old = [f for k, f in sorted(uniq.items()) if (pid, k) in kn]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "wall_s": round(time.time() - t0, 2)}
    if assumptions:
        ev["assumptions"] = assumptions
    ev["violations"] = len(new)
    if new:
        ev["coverage"]["violation_list"] = [{"key": f.key, "what": f.msg[:300], "where": f.where} for f in new][:40]
    if old:
        ev["coverage"]["known_findings_seen"] = [f.key for f in old]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")

    def dump():
        return json.dumps(ev, indent=1, sort_keys=True)
    txt = dump()
    while len(txt) > 60000:
        big = max((k for k in ev["coverage"] if isinstance(ev["coverage"][k], (list, dict))),
                  key=lambda k: len(json.dumps(ev["coverage"][k])), default=None)
        if big is None:
            break
        v = ev["coverage"][big]
        ev["coverage"][big] = (v[:len(v) // 2] if isinstance(v, list) else dict(list(v.items())[:len(v) // 2]))
        txt = dump()
    with open(p, "w") as fh:
        fh.write(txt + "\n")
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, f.msg))
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as fh:
            for f in new:
                fh.write("%s\n  key: %s\n  where: %s\n\n" % (f.msg, f.key, f.where))
        for f in new[:12]:
            print("  %s [%s] (%s)" % (f.msg, f.key, f.where))
        if len(new) > 12:
            print("  ... %d more in %s" % (len(new) - 12, rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s (%s)" % (pid, ", ".join("%s=%s" % (k, v) for k, v in sorted(coverage.items()) if isinstance(v, int))))
    sys.exit(0)
