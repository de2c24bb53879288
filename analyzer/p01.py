"""P01: compile-fail witnesses. For every statically typed vector and every operation which is not defined for its
number space or domain a one line function calling it is generated; the type checker has to reject each of them. The
compiling twins are the typed modules of harness/vec, which call the same expressions on the types they are valid for."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import core

TYPES = {
    "rt": ("RealTimeVec", "meta::Real", "meta::Time"),
    "ct": ("ComplexTimeVec", "meta::Complex", "meta::Time"),
    "rf": ("RealFreqVec", "meta::Real", "meta::Freq"),
    "cf": ("ComplexFreqVec", "meta::Complex", "meta::Freq"),
}
REALT = {"rt": "RealTimeVec", "ct": "RealTimeVec", "rf": "RealFreqVec", "cf": "RealFreqVec"}
REALK = {"ct": "rt", "cf": "rf"}
# groups of operations (macros of harness/vec) and the types on which they are defined
ALLOWED = {
    "common": {"rt", "ct", "rf", "cf"},
    "real_ops": {"rt", "rf"},
    "prec64_real": {"rt", "rf"},
    "complex_ops": {"ct", "cf"},
    "prec64_complex": {"ct", "cf"},
    "time_ops": {"rt", "ct"},
    "real_time_ops": {"rt"},
    "complex_time_ops": {"ct"},
    "correlate_ops": {"ct"},
    "freq_ops": {"rf", "cf"},
    "complex_freq_ops": {"cf"},
}
# scaling and shifting a complex vector by a real number is defined
EXCEPT = {("ct", "scale"), ("cf", "scale"), ("ct", "offset"), ("cf", "offset")}

MIX = [
    # binary operations need the same number space and domain
    ("add", "v: &mut {A}, o: &{B}", "let _ = ElementaryOps::add(v, o);"),
    ("sub", "v: &mut {A}, o: &{B}", "let _ = ElementaryOps::sub(v, o);"),
    ("mul", "v: &mut {A}, o: &{B}", "let _ = ElementaryOps::mul(v, o);"),
    ("div", "v: &mut {A}, o: &{B}", "let _ = ElementaryOps::div(v, o);"),
    ("add_smaller", "v: &mut {A}, o: &{B}", "let _ = ElementaryWrapAroundOps::add_smaller(v, o);"),
    ("mul_smaller", "v: &mut {A}, o: &{B}", "let _ = ElementaryWrapAroundOps::mul_smaller(v, o);"),
    ("dot_product", "v: &{A}, o: &{B}", "let _: ScalarResult<f64> = DotProductOps::dot_product(v, o);"),
    ("dot_product_c", "v: &{A}, o: &{B}", "let _: ScalarResult<Complex<f64>> = DotProductOps::dot_product(v, o);"),
    ("convolve_signal", "v: &mut {A}, o: &{B}, b: &mut SingleBuffer<f64>", "let _ = ConvolutionOps::convolve_signal(v, b, o);"),
    ("assign", "v: &mut {A}, o: {B}", "*v = o;"),
]


def bodies(src):
    """(group, op, line) of the harness macros"""
    out = []
    for m in re.finditer(r"macro_rules! (\w+) \{\n(.*?)\n\}\n", src, re.S):
        for ln in m.group(2).splitlines():
            f = re.match(r"\s*pub fn (\w+)", ln)
            if f:
                out.append((m.group(1), f.group(1), ln.strip()))
    return out


def witnesses(src):
    """-> [(key, rust line)]"""
    b = bodies(src)
    w = []
    al = {
        "RealR": "<V as ToRealResult>::RealResult", "FreqR": "<V as ToFreqResult>::FreqResult",
        "TimeR": "<V as ToTimeResult>::TimeResult", "RealTimeR": "<V as ToRealTimeResult>::RealTimeResult",
        "F1": "fn(f64, usize, f64) -> f64", "F2": "fn(f64, f64) -> f64",
        "G1": "fn(Complex<f64>, usize, f64) -> Complex<f64>", "G2": "fn(Complex<f64>, Complex<f64>) -> Complex<f64>",
        "B": "SingleBuffer<f64>",
    }
    for t, (V, N, D) in TYPES.items():
        for g, o, ln in b:
            if g not in ALLOWED or t in ALLOWED[g] or (t, o) in EXCEPT:
                continue
            x = ln.replace("<$F as FreqD>::D", "meta::Freq").replace("$F", "ComplexFreqVec<Vec<f64>, f64>").replace("$T", "f64").replace("$S", "Vec<f64>")
            for a, r in al.items():
                x = re.sub(r"\b%s\b" % a, r, x)
            x = re.sub(r"\bRealA\b", "%s<Vec<f64>, f64>" % REALT[t], x)
            x = re.sub(r"\bV\b", "%s<Vec<f64>, f64>" % V, x)
            x = re.sub(r"(?<=, )N\b", N, x)
            x = re.sub(r"(?<=, )D\b", D, x)
            x = x.replace("pub fn " + o, "pub fn %s_%s" % (t, o), 1)
            w.append(("%s::%s" % (t, o), x))
    for a in TYPES:
        for c in TYPES:
            if a == c:
                continue
            for o, sig, body in MIX:
                A, B = TYPES[a][0] + "<Vec<f64>, f64>", TYPES[c][0] + "<Vec<f64>, f64>"
                w.append(("%s::%s::%s" % (a, o, c), "pub fn mix_%s_%s_%s(%s) { %s }" % (a, o, c, sig.replace("{A}", A).replace("{B}", B), body)))
    # transforms yield the number space and domain of their result: using it as anything else is rejected
    res = {("rt", "fft"): "cf", ("ct", "fft"): "cf", ("cf", "ifft"): "ct", ("rt", "to_complex"): "ct", ("rf", "to_complex"): "cf",
           ("ct", "magnitude"): "rt", ("cf", "magnitude"): "rf", ("ct", "phase"): "rt", ("cf", "phase"): "rf", ("rt", "sfft"): "cf", ("cf", "sifft"): "rt"}
    for (a, o), good in res.items():
        for c in list(TYPES):
            call = {"fft": "v.fft(b)", "ifft": "v.ifft(b)", "to_complex": "v.to_complex().ok().unwrap()", "magnitude": "v.magnitude()",
                    "phase": "v.phase()", "sfft": "v.sfft(b).ok().unwrap()", "sifft": "v.sifft(b).ok().unwrap()"}[o]
            k = "%s::%s-as-%s" % (a, o, c)
            ln = "pub fn res_%s_%s_%s(v: %s<Vec<f64>, f64>, b: &mut SingleBuffer<f64>) { let _r: %s<Vec<f64>, f64> = %s; }" % (a, o, c, TYPES[a][0], TYPES[c][0], call)
            w.append((("+" if c == good else "") + k, ln))
    # an operation is not offered twice on a consumed vector
    w.append(("use-after-transform", "pub fn uat(v: RealTimeVec<Vec<f64>, f64>, b: &mut SingleBuffer<f64>) { let _f = v.fft(b); let _g = v.fft(b); }"))
    w.append(("private-fields", "pub fn pf(v: &mut RealTimeVec<Vec<f64>, f64>) { v.valid_len = 3; }"))
    for a in ("ct", "cf"):
        for c in TYPES:
            good = c == REALK[a]
            A, C = TYPES[a][0] + "<Vec<f64>, f64>", TYPES[c][0] + "<Vec<f64>, f64>"
            for o in ("get_real", "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase"):
                w.append((("+" if good else "") + "%s::%s::%s" % (a, o, c), "pub fn get_%s_%s_%s(v: &%s, d: &mut %s) { ComplexToRealGetterOps::%s(v, d) }" % (a, o, c, A, C, o)))
            for o in ("get_real_imag", "get_mag_phase"):
                w.append((("+" if good else "") + "%s::%s::%s" % (a, o, c), "pub fn get_%s_%s_%s(v: &%s, d: &mut %s, e: &mut %s) { ComplexToRealGetterOps::%s(v, d, e) }" % (a, o, c, A, C, C, o)))
            for o in ("set_real_imag", "set_mag_phase"):
                w.append((("+" if good else "") + "%s::%s::%s" % (a, o, c), "pub fn set_%s_%s_%s(v: &mut %s, d: &%s, e: &%s) { let _ = ComplexToRealSetterOps::%s(v, d, e); }" % (a, o, c, A, C, C, o)))
    for c in TYPES:
        C = TYPES[c][0] + "<Vec<f64>, f64>"
        w.append((("+" if c == "cf" else "") + "ct::correlate::%s" % c, "pub fn corr_%s(v: &mut ComplexTimeVec<Vec<f64>, f64>, b: &mut SingleBuffer<f64>, o: &%s) { let _ = CrossCorrelationOps::correlate(v, b, o); }" % (c, C)))
    return w


HEAD = """#![allow(warnings)]
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use num_complex::Complex;
"""


def compile_errors(lines):
    """type check a crate with these lines; -> {line index: [codes]}, [global messages]"""
    root = core.scratch_root()
    d = tempfile.mkdtemp(prefix="wit-", dir=root)
    try:
        h = os.path.join(core.VERIF, "harness/vec")
        shutil.copy(os.path.join(h, "Cargo.toml"), d)
        shutil.copy(os.path.join(h, "Cargo.lock"), d)
        os.mkdir(os.path.join(d, "src"))
        n0 = HEAD.count("\n") + 1
        with open(os.path.join(d, "src/lib.rs"), "w") as f:
            f.write(HEAD + "\n".join(lines) + "\n")
        p = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "t"), RUSTFLAGS="-Awarnings"), timeout=600)
        errs, glob = {}, []
        for ln in p.stdout.decode("utf-8", "replace").splitlines():
            try:
                m = json.loads(ln)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            msg = m["message"]
            if m.get("target", {}).get("name") != "harness_vec":
                raise core.Broken("the library does not build: " + msg["message"])
            pri = [s for s in msg["spans"] if s["is_primary"]]
            if not pri:
                glob.append(msg["message"])
            for s in pri:
                errs.setdefault(s["line_start"] - n0, []).append(((msg.get("code") or {}).get("code"), msg["message"]))
        return errs, glob, p.returncode, p.stderr.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


TYPE_CODES = {"E0277", "E0308", "E0599", "E0271", "E0382", "E0616", "E0624", "E0603", "E0432", "E0433", "E0283", "E0282", "E0275", "E0451"}


def run():
    src = open(os.path.join(core.VERIF, "harness/vec/src/lib.rs")).read()
    ws = witnesses(src)
    # two phases: type errors first; borrow checking only runs on crates which type check
    errs, glob, rc, log = compile_errors([l for k, l in ws])
    if rc == 0 and not errs:
        pass
    elif not errs:
        raise core.Broken("the witnesses could not be checked: " + log[-1500:])
    bad, ok = [], 0
    late = []
    for i, (k, l) in enumerate(ws):
        e = errs.get(i, [])
        codes = {c for c, _ in e}
        if k.startswith("+"):
            if e:
                bad.append((k[1:], "result-type", "%s no longer has the documented result type: %s" % (k[1:], e[0][1])))
            else:
                ok += 1
        elif k == "use-after-transform":
            late.append((k, l))
        elif not e:
            bad.append((k, "accepted", "the type system accepts %s on a vector for which the operation is not defined" % k))
        elif not codes & TYPE_CODES:
            bad.append((k, "broken", None))
        else:
            ok += 1
    if late:
        e2, _, _, log2 = compile_errors([l for k, l in late])
        for i, (k, l) in enumerate(late):
            if any(c == "E0382" for c, _ in e2.get(i, [])):
                ok += 1
            else:
                bad.append((k, "accepted", "a vector can still be used after a transform consumed it"))
    return ws, ok, bad, errs
