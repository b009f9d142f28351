"""A01-A09: the accuracy of the generated library, on every 32 bit argument of a lattice (thorough: on every one)
and on a structured lattice of 64 bit arguments, against the C library at a higher precision."""
import os, re, shutil, subprocess
import core
from lib_checks import mgen, functions_of, scalar_module, RUSTC, rustc_errors, EVERY

# For each function: the true value (S() picks the C function of the higher precision), where it is judged, and the
# allowed error in units of eps (2^-23 or 2^-52), in terms of x, t (true value), a = |x|. A rule "COND: nan|inf|..."
# says what must come out where COND holds.
# In the bounds, W is 1 for 32 bits and 2 for 64.
UNARY = {
    # --- trigonometric functions
    "sin": dict(t="S(sin)(x)", dom="a <= 1e6", bound="a < 0.5 ? 4*at + DENORM : 4 + 2*a"),
    "cos": dict(t="S(cos)(x)", dom="a <= 1e6", bound="4 + 2*a"),
    "tan": dict(t="S(tan)(x)", dom="a <= 1e5 && (8+4*a)*EPS*(1+t*t) < 0.5*at", bound="a < 0.5 ? 5*at + DENORM : (6+2*a)*(1+t*t)"),
    # --- inverse trigonometric functions
    "asin": dict(t="S(asin)(x)", dom="a <= 1", bound="a < 0.5 ? 7*at + DENORM : 7", rules=["a > 1: nan"]),
    "acos": dict(t="S(acos)(x)", dom="a <= 1", bound="7", rules=["a > 1: nan"]),
    "atan": dict(t="S(atan)(x)", dom="1", bound="a < 0.25 ? (W == 1 ? 4 : 16)*at + DENORM : 3*W+1"),
    # --- exponentials
    "exp2": dict(t="S(exp2)(x)", dom="x >= LOEXP && x <= HIEXP", bound="1.2*at", rules=["x >= HIEXP+1: inf", "x < LOEXP: small"]),
    "exp": dict(t="S(exp)(x)", dom="x >= LOEXP*LN2+1e-3 && x <= HIEXP*LN2-1e-3", bound="(3 + a)*at", rules=["x > (HIEXP+1)*LN2: inf", "x < LOEXP*LN2-1: small"]),
    "exp_m1": dict(t="S(expm1)(x)", dom="x <= HIEXP*LN2-1e-3", bound="3*at + a*(at+1) + 0.1", rules=["x > (HIEXP+1)*LN2: inf"]),
    # --- logarithms
    "log2": dict(t="S(log2)(x)", dom="x >= MINPOS && x <= FMAX", bound="2*FMAX1(at)", rules=["x < 0: nan", "x == 0: -inf", "x > FMAX: inf"]),
    "ln": dict(t="S(log)(x)", dom="x >= MINPOS && x <= FMAX", bound="2*FMAX1(at)", rules=["x < 0: nan", "x == 0: -inf", "x > FMAX: inf"]),
    "log10": dict(t="S(log10)(x)", dom="x >= MINPOS && x <= FMAX", bound="2*FMAX1(at)", rules=["x < 0: nan", "x == 0: -inf", "x > FMAX: inf"]),
    "ln_1p": dict(t="S(log1p)(x)", dom="x > -1 && x <= FMAX", bound="2*FMAX1(at)/(x < 0 ? 1+x : 1)", rules=["x < -1: nan"]),
    # --- hyperbolic functions
    "sinh": dict(t="S(sinh)(x)", dom="a <= (HIEXP+1)*LN2-1e-3", bound="(3 + a)*S(cosh)(x)", rules=["x > (HIEXP+2)*LN2: inf", "x < -(HIEXP+2)*LN2: -inf"]),
    "cosh": dict(t="S(cosh)(x)", dom="a <= (HIEXP+1)*LN2-1e-3", bound="(3 + a)*at", rules=["a > (HIEXP+2)*LN2: inf"]),
    "tanh": dict(t="S(tanh)(x)", dom="1", bound="3"),
    "asinh": dict(t="S(asinh)(x)", dom="a <= SQRTMAX", bound="3*FMAX1(at)"),
    "acosh": dict(t="S(acosh)(x)", dom="x >= 1 && x <= SQRTMAX", bound="x < 2 ? 3 + 2/S(sqrt)(x-1+EPS) : 3*FMAX1(at)", rules=["x < 1: nan"]),
    "atanh": dict(t="S(atanh)(x)", dom="a < 1", bound="5*FMAX1(at)", rules=["a > 1: nan"]),
    # --- reciprocals and roots
    "recip": dict(t="1/(T)x", dom="a >= MINPOS && a <= 1/MINPOS", bound="2*at"),
    "sqrt": dict(t="S(sqrt)(x)", dom="x >= MINPOS && x <= FMAX", bound="1.5*at"),
    "cbrt": dict(t="S(cbrt)(x)", dom="a >= MINPOS && a <= FMAX", bound="1.5*at"),
}
UNARY.update({
    "sin_cos_0": UNARY["sin"], "sin_cos_1": UNARY["cos"],
    "round": dict(t="x", dom="a < (BITS == 32 ? 0x1p30 : 0x1p62)", bound="(g == S(trunc)(g) ? 0.5*(1 + 2*EPS*FMAX1(a)) : 0)/EPS"),
    "recip_approx": dict(t="1/(T)x", dom="a >= MINPOS*2 && a <= 1/(MINPOS*4)", bound="0.07*at/EPS"),
    "sqrt_approx": dict(t="S(sqrt)(x)", dom="x >= MINPOS && x <= FMAX", bound="0.045*at/EPS"),
    "cbrt_approx": dict(t="S(cbrt)(x)", dom="a >= MINPOS && a <= FMAX", bound="0.045*at/EPS"),
    "nextafter": dict(t="NEXT(x)", dom="a < FMAX && x != 0", bound="0"),
})
GROUP = {
    "A01": ["sin", "cos", "tan", "sin_cos_0", "sin_cos_1"], "A02": ["asin", "acos", "atan"], "A03": ["exp2", "exp", "exp_m1"],
    "A04": ["log2", "ln", "log10", "ln_1p"], "A05": ["sinh", "cosh", "tanh", "asinh", "acosh", "atanh"], "A06": ["recip", "sqrt", "cbrt"], "A09": ["round", "recip_approx", "sqrt_approx", "cbrt_approx", "nextafter"],
}
# Functions of several arguments: (C parameters, true value, domain, bound, grid of the arguments)
MULTI = {
    "atan2": dict(args="ff", rules=["isnan(x0) || isnan(x1): nan"], t="S(atan2)(x0, x1)", dom="!(x0 == 0 && (x1 == 0 || signbit(x0) && x1 < 0)) && S(fabs)(x0) <= FMAX/1.4143 && S(fabs)(x1) <= FMAX/1.4143", bound="4*W+4"),
    "powf": dict(args="ff", rules=["isnan(x0) || isnan(x1): nan", "x0 >= MINPOS && x0 <= FMAX && log2l(x0)*x1 > HIEXP+1.01+1.5*PK(x0): inf", "x0 >= MINPOS && x0 <= FMAX && log2l(x0)*x1 < LOEXP-0.01-1.5*PK(x0): small"], t="S(pow)(x0, x1)", dom="x0 >= MINPOS && PK(x0) < 0.5 && S(fabs)(S(log2)(x0)*x1) < HIEXP-1.01-1.5*PK(x0)", bound="expm1l(PK(x0))/EPS*at"),
    "powi": dict(args="fi", rules=["isnan(x0): nan", "MINPOS <= x0 && x0 <= FMAX && log2l(x0)*x1 > HIEXP+1.01+1.5*PK(x0): inf", "-MINPOS >= x0 && x0 >= -FMAX && log2l(-x0)*x1 > HIEXP+1.01+1.5*PK(-x0): inf of x1", "fabs(x0) >= MINPOS && fabs(x0) <= FMAX && log2l(fabs(x0))*x1 < LOEXP-0.01-1.5*PK(fabs(x0)): zero"], t="S(pow)(x0, x1)", dom="S(fabs)(x0) >= MINPOS && PK(S(fabs)(x0)) < 0.5 && S(fabs)(S(log2)(S(fabs)(x0))*x1) < HIEXP-1.01-1.5*PK(S(fabs)(x0))", bound="expm1l(PK(S(fabs)(x0)))/EPS*at",
                 must="x0 < 0 && S(fmod)(x1, 2) != 0 ? g <= 0 : g >= 0"),
    "log": dict(args="ff", rules=["isnan(x0) || isnan(x1): nan", "x0 < 0 || x1 < 0: nan"], t="S(log)(x0)/S(log)(x1)", dom="x0 >= MINPOS && x1 >= MINPOS && x0 <= FMAX && x1 <= FMAX && S(fabs)(S(log2)(x1)) > 0.1", bound="(2*FMAX1(S(fabs)(S(log2)(x0))) + 2*FMAX1(S(fabs)(S(log2)(x1)))*at)/S(fabs)(S(log2)(x1)) + at"),
    "hypot": dict(args="ff", t="S(hypot)(x0, x1)", dom="S(fabs)(x0) <= FMAX/1.4143 && S(fabs)(x1) <= FMAX/1.4143", bound="3*at + MINPOS/EPS", must="g >= 0"),
}

MULTI.update({
    # arg, mean, sigma; the argument as it is, and as that many deviations from the mean
    "dnorm": dict(args="zms", pre="for sh in 0..2 { let a = if sh == 0 { a } else { b + a * c }; ", t="S(dn)(x0, x1, x2)", dom="x2 > 0 && S(fabs)((x0-x1)/x2) < (BITS == 32 ? 12 : 36)", bound="(2.5 + 2.5*(x0-x1)/x2*(x0-x1)/x2)*at + DENORM/(x2 < 1 ? x2 : 1)"),
    "qnorm": dict(args="pms", t="S(qn)(x0, x1, x2)", dom="x0 >= 0.0021 && x0 <= 0.9979 && x2 > 0", bound="qb(x0 > 0.5 ? 1 - (T)x0 : x0) * x2 / EPS + 4*at"),
})
HELPERS = {"round", "recip_approx", "sqrt_approx", "cbrt_approx", "nextafter"}
# How each kind of argument is walked.
KINDS = {"f": "g", "z": "z", "m": "ms", "s": "ss", "p": "ps"}

C_HEAD = r"""
#include <math.h>
#include <stdint.h>
#if BITS == 32
typedef double T;
#define S(f) f
#define EPS 0x1p-23
#define MINPOS 0x1p-126
#define FMAX 0x1.fffffep127
#define SQRTMAX 0x1p62
#define NEXT(x) nextafterf(x, (x) < 0 ? -INFINITY : INFINITY)
#define LOEXP -126
#define HIEXP 127
#define W 1
#else
typedef long double T;
#define S(f) f##l
#define EPS 0x1p-52
#define MINPOS 0x1p-1022
#define FMAX 0x1.fffffffffffffp1023
#define SQRTMAX 0x1p510
#define NEXT(x) nextafter(x, (x) < 0 ? -INFINITY : INFINITY)
#define LOEXP -1022
#define HIEXP 1023
#define W 2
#endif
/* a few of the smallest numbers, in units of eps */
#define DENORM (8*MINPOS)
static double dn(double x, double m, double s) { double z = (x - m) / s; return exp(-z*z/2) / (s * 2.506628274631000502415765284811); }
static long double dnl(long double x, long double m, long double s) { long double z = (x - m) / s; return expl(-z*z/2) / (s * 2.506628274631000502415765284811L); }
/* the inverse of the normal distribution: bisection on erfc */
static long double qnl(long double p, long double m, long double s) { long double lo = -40, hi = 40; int flip = p > 0.5L; long double q = flip ? 1 - p : p;
    for (int i = 0; i < 75; i++) { long double c = (lo + hi) / 2; if (erfcl(-c * 0.70710678118654752440084436210485L) / 2 < q) lo = c; else hi = c; }
    long double z = (lo + hi) / 2; return m + s * (flip ? -z : z); }
static double qn(double p, double m, double s) { return qnl(p, m, s); }
/* the allowed error of the quantile, in standard deviations, for a tail probability q; -1 is not judged */
static T qb(T q) {
    if (BITS == 32) return q >= 0.3L ? 0.0006 : q >= 0.2L ? 0.0013 : q >= 0.1L ? 0.003 : q >= 0.05L ? 0.008 : q >= 0.01L ? 0.032 : q >= 0.005L ? 0.13 : 0.4;
    return q >= 0.3L ? 0.00006 : q >= 0.2L ? 0.00012 : q >= 0.1L ? 0.0004 : q >= 0.05L ? 0.0012 : q >= 0.02L ? 0.0025 : q >= 0.01L ? 0.006 : q >= 0.005L ? 0.024 : 0.031; }
#define LN2 0.693147180559945309417232121458L
/* what a power may be off by, as an exponent of e */
#define PK(v) ((2 + 1.5*S(fabs)(S(log2)(v)*x1) + S(fabs)(x1))*EPS)
#define FMAX1(v) ((v) > 1 ? (v) : 1)
"""


WANT = {"nan": "isnan(g)", "inf": "isinf(g) && g > 0", "-inf": "isinf(g) && g < 0", "small": "g >= 0 && g <= MINPOS*4", "zero": "fabs(g) <= MINPOS*4",
        "inf of x1": "isinf(g) && (g < 0) == (fmod(x1, 2) != 0)"}


def c_judges():
    out = [C_HEAD]
    for f, d in UNARY.items():
        rules = ""
        for r in d.get("rules", []):
            cond, want = r.rsplit(":", 1)
            rules += "if (%s) return (%s) ? 0 : INFINITY; " % (cond, WANT[want.strip()])
        out.append("double j_%s(double x, double g, double *tv) { %sT a = S(fabs)(x); %s T t = %s; *tv = t; T at = S(fabs)(t); if (!(%s)) return -1; "
                   "if (isnan(g)) return INFINITY; T e = (T)g == t ? 0 : S(fabs)((T)g - t) / EPS; if (e == 0) return 0; T b = %s; return e / b; }" % (f, "" if f in HELPERS else "if (isnan(x)) return isnan(g) ? 0 : INFINITY; ", rules, d["t"], d["dom"], d["bound"]))
    for f, d in MULTI.items():
        ps = ", ".join("double x%d" % i for i in range(len(d["args"])))
        rules = ""
        for r in d.get("rules", []):
            cond, want = r.rsplit(":", 1)
            rules += "if (%s) return (%s) ? 0 : INFINITY; " % (cond, WANT[want.strip()])
        out.append("double j_%s(%s, double g, double *tv) { T t = %s; *tv = t; %s T at = S(fabs)(t); if (!(%s)) return -1; if (isnan(g) || !(%s)) return INFINITY; T e = (T)g == t ? 0 : S(fabs)((T)g - t) / EPS; if (e == 0) return 0; T b = %s; return e / b; }"
                   % (f, ps, d["t"], rules, d["dom"], d.get("must", 1), d["bound"]))
    return "\n".join(out)


RUST_HEAD = r"""
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
#[derive(Clone)]
struct Res { f: &'static str, n: u64, judged: u64, worst: f64, at: String, bad: Vec<String> }
static OUT: Mutex<Vec<Res>> = Mutex::new(Vec::new());
fn merge(r: Res) {
    let mut o = OUT.lock().unwrap();
    if let Some(x) = o.iter_mut().find(|x| x.f == r.f) {
        x.n += r.n; x.judged += r.judged; if r.worst > x.worst { x.worst = r.worst; x.at = r.at.clone(); }
        for b in r.bad { if x.bad.len() < 4 { x.bad.push(b); } }
    } else { o.push(r); }
}
const SPECIAL: [f64; 40] = [0.0, 0.25, 0.5, 0.75, 0.7071067811865476, 0.7853981633974483, 1.0, 1.5, 1.5707963267948966, 2.0, 2.356194490192345, 2.5, 3.0, 3.141592653589793, 3.5, 3.9269908169872414, 4.0, 4.71238898038469, 5.0, 5.5,
    6.283185307179586, 7.0, 8.0, 9.42477796076938, 10.0, 12.566370614359172, 16.0, 64.0, 88.0, 88.72283905206835, 100.0, 126.0, 127.0, 128.0, 256.0, 709.0, 709.782712893384, 1000.0, 1022.5, 1023.0];
fn specials() -> Vec<fty> {
    let mut v: Vec<fty> = Vec::new();
    let mut c: Vec<fty> = SPECIAL.iter().map(|x| *x as fty).collect();
    for k in 0..70 { c.push((2.0f64).powi(k) as fty); c.push((2.0f64).powi(-k) as fty); c.push(k as fty + 0.5); c.push(k as fty * 0.7853981633974483); c.push(((k as f64 + 0.5) * 0.6931471805599453) as fty); }
    c.push(fty::MAX); c.push(fty::MIN_POSITIVE); c.push(fty::INFINITY); c.push(fty::EPSILON);
    for x in c { let b = x.to_bits(); for d in 0..257 { let y = fty::from_bits((b + 128).wrapping_sub(d) & !(1 << (BITS - 1))); v.push(y); v.push(-y); }
        // every order of distance from it, on both sides
        for k in 7..BITS - 1 { for m in [4u64, 5, 6, 7] { let d = ((m as u128) << k >> 2) as u64; if (d as u128) < 1u128 << (BITS - 2) {
            for t in [b.wrapping_add(d as _), b.wrapping_sub(d as _)] { let y = fty::from_bits(t & !(1 << (BITS - 1))); v.push(y); v.push(-y); } } } } }
    for k in 0..4097 { let k = k as f64; for y in [k, k / 2.0, k / 10.0, k * 0.39269908169872414, k / 4096.0, k * 1e6 + 1.0, 1.0 / k, k * k, k * k * k] { v.push(y as fty); v.push(-y as fty); } }
    for k in 4097..65600 { let y = k as f64; v.push(y as fty); v.push(-y as fty); v.push((y + 0.5) as fty); v.push((-y - 0.5) as fty); }
    for k in -45..39 { for m in 1..10 { let y = m as f64 * (10.0f64).powi(k); v.push(y as fty); v.push(-y as fty); } }
    v.push(fty::NAN);
    v
}
"""


def unary_source(bits, text, fns, stride):
    F = "f%d" % bits
    src = ["#![allow(warnings)]", "pub trait Unfused {}", "type fty = %s; const BITS: u32 = %d;" % (F, bits), scalar_module("m", text), RUST_HEAD,
           'extern "C" { %s }' % " ".join("fn j_%s(x: f64, g: f64, t: *mut f64) -> f64;" % f for f in fns)]
    src.append("fn main() { let sp = specials(); let next = AtomicUsize::new(0);")
    src.append("let fs: [(&'static str, fn(fty) -> fty, unsafe extern \"C\" fn(f64, f64, *mut f64) -> f64); %d] = [%s];" % (len(fns), ", ".join('("%s", m::%s, j_%s)' % (f, f, f) for f in fns)))
    if bits == 32:
        # 64 slices of the 2^32 patterns, each walked with the stride, and the special points
        walk = """let lo = (part as u64) << 26; let mut p = lo + (%d - lo %% %d) %% %d; while p < lo + (1 << 26) { one(fty::from_bits(p as u32)); p += %d; }""" % (stride, stride, stride, stride)
    else:
        # every exponent, evenly spaced fractions with golden-ratio low bits; more of them in the middle
        walk = """for e in (part as u64 * 32)..(part as u64 * 32 + 32) { let mid = e > 1023 - 40 && e < 1023 + 24; let n = if mid { %d } else { %d };
            for k in 0..n as u64 { let fr = (((k << 32) / n as u64) << 20) ^ ((k + e).wrapping_mul(0x9e3779b97f4a7c15) >> 44); for s in 0..2u64 { one(fty::from_bits(s << 63 | e << 52 | (fr & ((1 << 52) - 1)))); } } }""" % (stride, max(8, stride // 16))
    src.append("""std::thread::scope(|sc| { for _ in 0..8 { sc.spawn(|| loop {
        let j = next.fetch_add(1, Ordering::Relaxed); if j >= fs.len() * 64 { break; }
        let (name, f, judge) = fs[j / 64]; let part = j %% 64;
        let mut r = Res { f: name, n: 0, judged: 0, worst: 0.0, at: String::new(), bad: vec![] };
        let mut one = |x: fty| { let g = f(x); let mut t = 0.0f64; let q = unsafe { judge(x as f64, g as f64, &mut t) }; r.n += 1;
            if q >= 0.0 { r.judged += 1; } if !(q <= r.worst) { r.worst = q; r.at = format!("({:?}) = {:?}, true value {:?}", x, g, t); }
            if !(q <= 1.0) && r.bad.len() < 3 { r.bad.push(format!("{}({:?}) = {:?} where the true value is {:?}: {:.2} times the allowed error", name, x, g, t, q)); } };
        %s
        if part == 0 { for x in &sp { one(*x); } }
        merge(r); }); } });""" % walk)
    src.append("""for r in OUT.lock().unwrap().iter() { println!("RES\\t{}\\t{}\\t{}\\t{}\\t{}", r.f, r.n, r.judged, r.worst, r.at); for b in &r.bad { println!("BAD\\t{}\\t{}", r.f, b); } } }""")
    return "\n".join(src)


def multi_source(bits, text, fns, dense):
    F, I = "f%d" % bits, "i%d" % bits
    src = ["#![allow(warnings)]", "pub trait Unfused {}", "type fty = %s; type ity = %s; const BITS: u32 = %d;" % (F, I, bits), scalar_module("m", text), RUST_HEAD,
           'extern "C" { %s }' % " ".join("fn j_%s(%sg: f64, t: *mut f64) -> f64;" % (f, "".join("x%d: f64, " % i for i in range(len(MULTI[f]["args"])))) for f in fns)]
    src.append("""fn grid() -> Vec<fty> { let mut v: Vec<fty> = vec![0.0, -0.0, fty::MIN_POSITIVE, fty::MAX, 0.1, 0.3, 0.7, 0.9, 1.1, 2.718281828459045 as fty, 3.141592653589793 as fty, 10.0];
        let top = if BITS == 32 { 126 } else { 1020 }; let n = %d;
        for e in -top..top+1i32 { if e.abs() > 12 && e %% (if BITS == 32 { 6 } else { 50 }) != 0 { continue; } let m = if e.abs() <= 4 { n } else { 3 };
            for k in 0..m { v.push(((1.0 + k as f64 / m as f64) * (2.0f64).powi(e)) as fty); } }
        // every order of distance from one, and the neighbours of small integers
        for k in 2..(if BITS == 32 { 24 } else { 53 }) { let d = (2.0f64).powi(-k); for y in [1.0 + d, 1.0 - d, 2.0 + d, 1.5 - d, 0.5 + d] { v.push(y as fty); } }
        for y in [1.0, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0, 100.0, 0.5, 0.25] { let b = (y as fty).to_bits(); v.push(fty::from_bits(b - 1)); v.push(fty::from_bits(b + 1)); v.push(y as fty); }
        let mut w: Vec<fty> = v.iter().map(|x| -*x).collect(); v.append(&mut w); v.push(fty::INFINITY); v.push(-fty::INFINITY); v.push(fty::NAN); v }
    fn zs() -> Vec<fty> { let n = %d; (0..n * 80 + 1).map(|k| (k as f64 / n as f64 - 40.0) as fty).collect() }
    fn ps() -> Vec<fty> { let n = %d; let mut v: Vec<fty> = (1..n).map(|k| (k as f64 / n as f64) as fty).collect();
        for e in 1..40 { for k in 0..8 { let p = (2.0f64).powi(-e) * (1.0 + k as f64 / 8.0) / 2.0; v.push(p as fty); v.push((1.0 - p) as fty); } } v }""" % (dense, dense * 8, dense * 100))
    src.append("""fn main() { let g = grid(); let z = zs(); let ps = ps(); let ms: Vec<fty> = vec![0.0, 1.0, -2.5, 10.0, 1000.0, -12345.0, 1e6, 1e-9, -3e12]; let mut ss: Vec<fty> = vec![1.0, 0.5, 3.0, 10.0, 0.01, 700.0, 1e-6, 1e5, 1e-12, 1e12, 1e-21, 1e21, 1e-30, 1e30];
        if BITS == 64 { for k in [-290, -160, -100, 100, 160, 290] { ss.push((10.0f64).powi(k) as fty); } }
        let mut ns: Vec<ity> = (-300..301).collect(); for k in 9..(if BITS == 32 { 31 } else { 53 }) { for d in -2..3 { ns.push((1 << k) + d); ns.push(-(1 << k) - d); } } let next = AtomicUsize::new(0); let jobs: Vec<Box<dyn Fn(usize) -> Res + Send + Sync>> = vec![""")
    for f in fns:
        ks = MULTI[f]["args"]
        names = "abc"[:len(ks)]
        loops = ""
        for i, (n, k) in enumerate(zip(names, ks)):
            if k == "i":
                loops += "for &%s in ns.iter() { " % n
            else:
                loops += "for %s&%s in %s.iter()%s { " % ("(i, " if i == 0 else "", n + (")" if i == 0 else ""), KINDS[k], ".enumerate()" if i == 0 else "")
            if i == 0:
                loops += "if i % 64 != part { continue; } "
        loops += MULTI[f].get("pre", "")
        args, wide, show = ", ".join(names), ", ".join(n + " as f64" for n in names), ", ".join("{:?}" for _ in names)
        src.append("""Box::new({ let (g, z, ps, ms, ss, ns) = (g.clone(), z.clone(), ps.clone(), ms.clone(), ss.clone(), ns.clone()); move |part: usize| { let mut r = Res { f: "%s", n: 0, judged: 0, worst: 0.0, at: String::new(), bad: vec![] };
            %s let got = m::%s(%s); let mut t = 0.0f64; let q = unsafe { j_%s(%s, got as f64, &mut t) }; r.n += 1;
            if q >= 0.0 { r.judged += 1; } if !(q <= r.worst) { r.worst = q; r.at = format!("(%s) = {:?}, true value {:?}", %s, got, t); }
            if !(q <= 1.0) && r.bad.len() < 3 { r.bad.push(format!("%s(%s) = {:?} where the true value is {:?}: {:.2} times the allowed error", %s, got, t, q)); } %s r } }),""" % (
                f, loops, f, args, f, wide, show, args, f, show, args, "}" * (len(ks) + ("pre" in MULTI[f]))))
    src.append("""]; std::thread::scope(|sc| { for _ in 0..8 { sc.spawn(|| loop { let j = next.fetch_add(1, Ordering::Relaxed); if j >= jobs.len() * 64 { break; } merge(jobs[j / 64](j % 64)); }); } });""")
    src.append("""for r in OUT.lock().unwrap().iter() { println!("RES\\t{}\\t{}\\t{}\\t{}\\t{}", r.f, r.n, r.judged, r.worst, r.at); for b in &r.bad { println!("BAD\\t{}\\t{}", r.f, b); } } }""")
    return "\n".join(src)


def build_run(ctx, wd, tag, bits, source):
    path = os.path.join(wd, tag)
    with open(path + ".c", "w") as f:
        f.write("#define BITS %d\n%s\n" % (bits, c_judges()))
    g = subprocess.run(["gcc", "-O2", "-w", "-c", path + ".c", "-o", path + ".o"], capture_output=True, text=True)
    if g.returncode:
        raise core.CheckError("the oracle does not compile: " + g.stderr[:500])
    with open(path + ".rs", "w") as f:
        f.write(source)
    g = subprocess.run(RUSTC + ["-C", "opt-level=2", "-C", "target-cpu=native", "-C", "link-arg=" + path + ".o", "-C", "link-arg=-lm", "-o", path, path + ".rs"], capture_output=True, text=True)
    if g.returncode:
        ctx.violation("%d bit: the generated library does not compile: %s" % (bits, "; ".join(m for _, m in rustc_errors(g.stderr)[:3]) + g.stderr[:200]))
        return None
    g = subprocess.run([path], capture_output=True, text=True, timeout=20000)
    if g.returncode:
        ctx.violation("%d bit: the generated library ends the program with %s: %s" % (bits, g.returncode, g.stderr[-300:]))
        return None
    return g.stdout


def accuracy(ctx, pid, fns, multi):
    wd = core.workdir("%s-%s" % (pid.lower(), ctx.tier))
    for bits in (32, 64):
        r = mgen(["-f", EVERY, "--num-bits", str(bits)])
        if r.rc != 0:
            ctx.violation("libmgen --num-bits %d ends with %s" % (bits, r.rc))
            continue
        have = functions_of(bits, EVERY, ctx)
        text = r.out
        if "sin_cos" in have:
            text += "\npub fn sin_cos_0(x: fty) -> fty { sin_cos(x).0 } pub fn sin_cos_1(x: fty) -> fty { sin_cos(x).1 }"
            have.update(sin_cos_0=None, sin_cos_1=None)
        gone = [f for f in fns + multi if f not in have]
        for f in gone:
            ctx.violation("%d bit: the library lacks %s" % (bits, f))
        f1, f2 = [f for f in fns if f in have], [f for f in multi if f in have]
        outs = []
        if f1:
            stride = (13 if ctx.quick else 1) if bits == 32 else (80000 if ctx.quick else 400000)
            outs.append(build_run(ctx, wd, "u%d" % bits, bits, unary_source(bits, text, f1, stride)))
        if f2:
            outs.append(build_run(ctx, wd, "m%d" % bits, bits, multi_source(bits, text, f2, 72 if ctx.quick else 160)))
        for o in outs:
            if o is None:
                continue
            got = 0
            for line in o.split("\n"):
                w = line.split("\t")
                if w[0] == "RES":
                    got += 1
                    n, judged = int(w[2]), int(w[3])
                    ctx.count(states=n, transitions=judged, traces=judged)
                    ctx.note("worst_%s_%d" % (w[1], bits), "%.3f of the bound at %s" % (float(w[4]), w[5][:90]))
                    if judged * 50 < n:
                        raise core.CheckError("%s: only %d of %d points are judged" % (w[1], judged, n))
                elif w[0] == "BAD":
                    ctx.violation("%d bit: %s" % (bits, w[2]), key="%s:%d" % (w[1], bits))
            if not got:
                raise core.CheckError("no results")
    ctx.sample({"functions": fns + multi, "32 bit": "every %s pattern" % ("13th" if ctx.quick else "")})
    ctx.assumptions.append("the C library at the next higher precision is right to a small fraction of the allowed error")
    shutil.rmtree(wd, ignore_errors=True)


def check_A01(ctx):
    accuracy(ctx, "A01", GROUP["A01"], [])


def check_A02(ctx):
    accuracy(ctx, "A02", GROUP["A02"], ["atan2"])


def check_A03(ctx):
    accuracy(ctx, "A03", GROUP["A03"], ["powf", "powi"])


def check_A04(ctx):
    accuracy(ctx, "A04", GROUP["A04"], ["log"])


def check_A05(ctx):
    accuracy(ctx, "A05", GROUP["A05"], [])


def check_A06(ctx):
    accuracy(ctx, "A06", GROUP["A06"], ["hypot"])


def check_A07(ctx):
    accuracy(ctx, "A07", [], ["dnorm", "qnorm"])


# ---------------------------------------------------------------- A08
RANDOM = r"""
fn reference(i: u64, min: fty, max: fty) -> fty {
    // splitmix64.c of Vigna, state seeded with 0: the output number i
    let mut s = 0u64; s = s.wrapping_add(0x9e3779b97f4a7c15u64.wrapping_mul(i + 1));
    let mut z = s; z ^= z >> 30; z = z.wrapping_mul(0xbf58476d1ce4e5b9); z ^= z >> 27; z = z.wrapping_mul(0x94d049bb133111eb); z ^= z >> 31;
    let unit = if BITS == 32 { ((z >> 2) & 0x7fffff) as f64 / 8388608.0 } else { ((z >> 2) & 0xfffffffffffff) as f64 / 4503599627370496.0 };
    (unit as fty) * (max - min) + min
}
fn main() {
    let n: usize = @N@;
    let mut bad = 0; let mut runs = 0u64;
    let mut say = |s: String| { bad += 1; if bad < 6 { println!("BAD\t{}", s); } };
    let ranges: [(fty, fty); 7] = [(0.0, 1.0), (-1.0, 1.0), (5.0, 6.0), (0.000001, 0.999999), (-1e6, 3.0), (2.0, 2.0), (1.0, 0.0)];
    // the first indexes, every power of two and its neighbours, and a lattice of the rest
    let mut idx: Vec<u64> = (0..n as u64).collect();
    for k in 0..64 { for d in 0..33u64 { idx.push((1u64 << k).wrapping_add(d).wrapping_sub(16)); } }
    for k in 0..100000u64 { idx.push(k.wrapping_mul(0xd1342543de82ef95)); }
    idx.retain(|i| *i != u64::MAX);
    for (min, max) in ranges { for &i in &idx {
        let y = m::runif(i as usize, min, max); let t = reference(i, min, max); runs += 1;
        if y.to_bits() != t.to_bits() { say(format!("runif({}, {:?}, {:?}) = {:?} where SplitMix64 gives {:?}", i, min, max, y, t)); }
        let (lo, hi) = if min <= max { (min, max) } else { (max, min) };
        if !(y >= lo && y <= hi) || (min == 0.0 && y >= max) { say(format!("runif({}, {:?}, {:?}) = {:?} is out of range", i, min, max, y)); }
    } }
    // the distribution of the first indexes: buckets, successive pairs, bits, mean
    let mut b = vec![0u64; 1024]; let mut p = vec![0u64; 64 * 64]; let (mut s, mut s2) = (0.0f64, 0.0f64); let mut last = 0usize;
    let mut bits = [0u64; 20];
    for i in 0..n { let y = m::runif(i, 0.0, 1.0) as f64; b[(y * 1024.0) as usize % 1024] += 1; let k = (y * 64.0) as usize % 64; p[last * 64 + k] += 1; last = k; s += y; s2 += y * y;
        let w = (y * 1048576.0) as u64; for j in 0..20 { bits[j] += w >> j & 1; } runs += 1; }
    let nf = n as f64;
    let chi = |v: &Vec<u64>| -> f64 { let e = nf / v.len() as f64; let c: f64 = v.iter().map(|x| (*x as f64 - e) * (*x as f64 - e) / e).sum(); (c - v.len() as f64) / (2.0 * v.len() as f64).sqrt() };
    if !(chi(&b).abs() < 6.0) { say(format!("runif: {} indexes fill 1024 buckets unevenly, {:.1} standard deviations", n, chi(&b))); }
    if !(chi(&p).abs() < 6.0) { say(format!("runif: successive values are not independent, {:.1} standard deviations", chi(&p))); }
    for j in 0..20 { if (bits[j] as f64 - nf / 2.0).abs() > 6.0 * (nf / 4.0).sqrt() { say(format!("runif: bit {} is set {} times of {}", j, bits[j], n)); } }
    if (s / nf - 0.5).abs() > 6.0 * (1.0 / 12.0 / nf).sqrt() || (s2 / nf - 1.0 / 3.0).abs() > 6.0 * (4.0 / 45.0 / nf).sqrt() { say(format!("runif: mean {} and mean square {}", s / nf, s2 / nf)); }
    // rnorm is the quantile of the uniform value of the same index
    for (mean, sd) in [(0.0 as fty, 1.0 as fty), (10.0, 0.5), (-3.0, 4.0)] { let mut below = [0u64; 41];
        for (k, &i) in idx.iter().enumerate() {
            let y = m::rnorm(i as usize, mean, sd); runs += 1;
            let u = reference(i, 0.000001, 0.999999); let t = m::qnorm(u, mean, sd);
            let near = (y - t).abs() <= 1e-4 * sd;
            if u > 0.01 && u < 0.99 && !near { say(format!("rnorm({}, {:?}, {:?}) = {:?} where the quantile of its uniform value {:?} is {:?}", i, mean, sd, y, u, t)); }
            if k < n { let z = ((y - mean) / sd) as f64; for j in 0..41 { if z <= (j as f64 - 20.0) / 10.0 { below[j] += 1; } } }
        }
        for j in 0..41 { let z = (j as f64 - 20.0) / 10.0; let want = CDF[j]; let got = below[j] as f64 / nf;
            if !((got - want).abs() < 0.002 + 5.0 / nf.sqrt() / 2.0) { say(format!("rnorm: {} of the values are below {} standard deviations, {} expected", got, z, want)); } }
    }
    println!("RUNS\t{}", runs);
}
"""


def check_A08(ctx):
    from mpmath import ncdf
    wd = core.workdir("a08-" + ctx.tier)
    n = 1 << (20 if ctx.quick else 22)
    for bits in (32, 64):
        r = mgen(["-f", "rnorm,runif,qnorm,dnorm", "--num-bits", str(bits)])
        if r.rc != 0:
            ctx.violation("libmgen -f rnorm --num-bits %d ends with %s" % (bits, r.rc))
            continue
        src = "\n".join(["#![allow(warnings)]", "pub trait Unfused {}", "type fty = f%d; const BITS: u32 = %d;" % (bits, bits), scalar_module("m", r.out),
                         "const CDF: [f64; 41] = [%s];" % ", ".join("%r" % float(ncdf((j - 20) / 10)) for j in range(41)), RANDOM.replace("@N@", str(n))])
        out = build_run(ctx, wd, "r%d" % bits, bits, src)
        if out is None:
            continue
        runs = 0
        for line in out.split("\n"):
            w = line.split("\t")
            if w[0] == "BAD":
                ctx.violation("%d bit: %s" % (bits, w[1]))
            elif w[0] == "RUNS":
                runs = int(w[1])
        if not runs:
            raise core.CheckError("no results")
        ctx.count(states=runs, transitions=runs, traces=runs)
    ctx.sample("runif and rnorm at the indexes 0..%d, around every power of two, and a lattice of 64 bit indexes" % n)
    ctx.assumptions.append("the index 2^64-1 is left out")
    shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------- A09
def constants(bits):
    from mpmath import mp, mpf, pi, log, log10, sqrt, tan
    mp.prec = 300
    p, bias = (23, 127) if bits == 32 else (52, 1023)
    return {
        "LOG2_SHIFT": p, "LOG2_OFFSET": bias, "MIN_POSITIVE": mpf(2) ** (1 - bias), "ONE_MASK": (1 << p) - 1, "ONE_BITS": bias << p,
        "EXP2_ONE": mpf(bias << p), "EXP2_SCALE": mpf(1 << p), "EXP2_MIN": mpf(-bias), "EXP2_MAX": mpf(bias), "ONE_THIRD": mpf(1) / 3, "TWO_THIRDS": mpf(2) / 3,
        "PI": +pi, "PI_BY_2": pi / 2, "TAN_PI_BY_8": tan(pi / 8), "PI_BY_8": pi / 8, "LOG2_E": 1 / log(2), "RECIP_LOG2_E": log(2), "RECIP_LOG2_10": log10(2),
        "RECIP_PI": 1 / pi, "RECIP_2PI": 1 / (2 * pi), "SQRT_RECIP_2PI": 1 / sqrt(2 * pi),
    }


def check_A09(ctx):
    from gentest_checks import round_to
    accuracy(ctx, "A09", GROUP["A09"], [])
    wd = core.workdir("a09c-" + ctx.tier)
    for bits in (32, 64):
        want = constants(bits)
        for nt in ("decimal", "hex"):
            r = mgen(["-f", ",".join(["all"] + list(want) + ["negate_on_odd", "NAN", "INFINITY"]), "--num-bits", str(bits), "--number-type", nt])
            if r.rc != 0:
                ctx.violation("libmgen -f all --num-bits %d --number-type %s ends with %s" % (bits, nt, r.rc))
                continue
            here = [n for n in want if re.search(r"\bconst\s+%s\b" % n, r.out)]
            for n in set(want) - set(here):
                ctx.violation("%d bit %s: the library lacks the constant %s" % (bits, nt, n))
            text = "pub trait Bits { fn b(&self) -> u64; } impl Bits for f32 { fn b(&self) -> u64 { self.to_bits() as u64 } } impl Bits for f64 { fn b(&self) -> u64 { self.to_bits() } } impl Bits for i32 { fn b(&self) -> u64 { *self as u64 } } impl Bits for i64 { fn b(&self) -> u64 { *self as u64 } } impl Bits for u32 { fn b(&self) -> u64 { *self as u64 } } impl Bits for u64 { fn b(&self) -> u64 { *self } }"
            text += "\npub fn consts() -> Vec<(&'static str, u64)> { vec![%s] } pub fn odd() -> (bool, bool) { (NAN.is_nan(), INFINITY > fty::MAX) }" % ", ".join('("%s", (%s).b())' % (n, n) for n in here)
            src = "\n".join(["#![allow(warnings)]", "pub trait Unfused {}", "type fty = f%d; const BITS: u32 = %d;" % (bits, bits), scalar_module("m", r.out, extra=text), r"""
fn main() {
    for (n, b) in m::consts() { println!("CONST\t{}\t{}", n, b); }
    if m::odd() != (true, true) { println!("BAD\tNAN or INFINITY is another number"); }
    let mut runs = 0u64;
    let mut xs: Vec<i64> = (-70000..70001).collect();
    for k in 16..(BITS - 1) { for d in -40..41i64 { xs.push((1i64 << k) + d); xs.push(-(1i64 << k) + d); } }
    let ys: [fty; 12] = [0.0, 1.0, 1.5, 1e-30, 1e30, fty::MAX, fty::MIN_POSITIVE, fty::INFINITY, 3.0, 0.1, 1e-40, 7.0];
    let mut shown = 0;
    for i in xs { let x = i as fty; if (x as f64).abs() >= (2.0f64).powi(BITS as i32 - 1) { continue; } let odd = (x as i128) & 1 != 0;
        for y in ys { for y in [y, -y] { let g = m::negate_on_odd(x, y); let t = if odd { -y } else { y }; runs += 1;
            if g.to_bits() != t.to_bits() { shown += 1; if shown < 4 { println!("BAD\tnegate_on_odd({:?}, {:?}) = {:?}", x, y, g); } } } } }
    println!("RUNS\t{}", runs);
}"""])
            out = build_run(ctx, wd, "c%d%s" % (bits, nt), bits, src)
            if out is None:
                continue
            for line in out.split("\n"):
                w = line.split("\t")
                if w[0] == "CONST":
                    v = want[w[1]]
                    good = v if isinstance(v, int) else round_to(v, bits)[0] if v > 0 else round_to(-v, bits)[0] | 1 << (bits - 1)
                    if int(w[2]) != good:
                        ctx.violation("%d bit %s: %s has the bits %x and not %x" % (bits, nt, w[1], int(w[2]), good), key="const:%d:%s" % (bits, w[1]))
                    ctx.count(states=1, transitions=1, traces=1)
                elif w[0] == "BAD":
                    ctx.violation("%d bit %s: %s" % (bits, nt, w[1]))
                elif w[0] == "RUNS":
                    ctx.count(states=int(w[1]), transitions=int(w[1]), traces=int(w[1]))
    shutil.rmtree(wd, ignore_errors=True)
