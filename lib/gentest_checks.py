"""L07: what the generated tests accept and reject, and that the generated library passes them.

The function under test is replaced by a stand-in that first records the arguments the test uses, then answers from a
table of correctly rounded values with one chosen fault; nothing is assumed about how the test is written."""
import os, re, shutil, struct, subprocess
import mpmath
from mpmath import mp, mpf
import core
from lib_checks import mgen, par, items_of, functions_of, RUSTC, rustc_errors

mp.prec = 220
# function: (value, {test: (limit in units of 2^-23, of 2^-53)}, lowest and highest argument tested)
PI = mpmath.pi
TESTED = {
    "asin": (mpmath.asin, {"test_asin": (2, 2), "test_asin2": (6, 6)}, (-1, 1)),
    "acos": (mpmath.acos, {"test_acos": (6, 6), "test_acos2": (3, 3)}, (-1, 1)),
    "exp2": (lambda x: mpf(2) ** x, {"test_exp2_1": (1, 1), "test_exp2_2": (2, 2)}, (-1, 1)),
    "exp": (mpmath.exp, {"test_exp_1": (1, 1), "test_exp_2": (4, 4), "test_exp_3": (16, 16)}, (-1, 2)),
    "exp_m1": (mpmath.expm1, {"test_exp_m1_1": (1, 1), "test_exp_m1_2": (4, 4)}, (-1, 1)),
    "log2": (lambda x: mpmath.log(x) / mpmath.log(2), {"test_log2_1": (1.5, 1.5), "test_log2_2": (2, 2)}, (0.7, 2)),
    "ln_1p": (mpmath.log1p, {"test_ln_1p_1": (2, 2)}, (1, 2)),
    "ln": (mpmath.log, {"test_ln_1": (1.5, 1.5), "test_ln_2": (2, 2)}, (0.7, 2)),
    "log10": (mpmath.log10, {"test_log10_1": (1.5, 1.5), "test_log10_2": (2, 2)}, (0.1, 10)),
    "log": (mpmath.log10, {"test_log_1": (1.5, 1.5), "test_log_2": (2, 2)}, (0.1, 10)),
    "dnorm": (lambda x: mpmath.npdf(x), {"test_dnorm_1": (1, 1)}, (-1, 1)),
    "qnorm": (lambda x: mpmath.sqrt(2) * mpmath.erfinv(2 * x - 1), {"test_qnorm_1": (1e6, 1e6)}, (0.0001, 0.999)),
    "sin": (mpmath.sin, {"test_sin": (9, 9), "test_sini": (2, 2), "test_sin2": (3, 3), "test_sin3": (2, 2)}, (-PI, PI)),
    "cos": (mpmath.cos, {"test_cos": (6, 8), "test_cos2": (2, 2), "test_cos3": (1, 1)}, (-PI, PI)),
    "nextafter": (lambda x: x, {"test_nextafter": (1, 1)}, (0, 1)),
    "tan": (mpmath.tan, {"test_tan": (2, 2), "test_tan2": (6, 6)}, (-1.1, 1.1)),
}
# the arguments after the first one that the tests are about
EXTRAS = {"log": (10,), "dnorm": (0, 1), "qnorm": (0, 1), "runif": (0, 1), "rnorm": (0, 1)}
# While the points are recorded the stand-in gives a good answer, so that a test that stops at the first error goes on.
GOOD = {"log2": "x.log2()", "log": "x.log10()", "dnorm": "(-x * x * 0.5).exp() * 0.3989422804014327", "qnorm": "quantile(x)", "nextafter": "x"}
HIST = {"runif": (0.0, 1.0), "rnorm": (-2.0, 2.0)}
KINDS = [0.0, 0.5, -0.5, 0.8, -0.8, 1.2, -1.2, 2.0, -2.0, 16.0, -16.0]

RUST = r"""
use std::cell::RefCell;
use std::collections::HashMap;
#[derive(Default, Clone)] pub struct H(u64);
impl std::hash::Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) {} fn write_u64(&mut self, x: u64) { self.0 = x.wrapping_mul(0x9e3779b97f4a7c15); } }
type Fast = std::hash::BuildHasherDefault<H>;
#[derive(Clone, Copy, PartialEq)]
enum Mode { Real, Record, Table }
struct St { mode: Mode, seen: Vec<fty>, table: HashMap<u64, fty, Fast>, at: Vec<(u64, fty)>, all: fty }
thread_local! { static ST: RefCell<St> = RefCell::new(St { mode: Mode::Real, seen: Vec::new(), table: HashMap::default(), at: Vec::new(), all: 0.0 }); }
fn quantile(p: f64) -> f64 {
    let mut z = 0.0f64;
    for _ in 0..60 {
        let (mut t, mut s, mut n) = (z, z, 0.0);
        while t.abs() > 1e-18 { n += 1.0; t *= z * z / (2.0 * n + 1.0); s += t; }
        let d = (-z * z * 0.5).exp() * 0.3989422804014327;
        let e = 0.5 + d * s - p;
        z -= e / d;
        if e.abs() < 1e-17 { break; }
    }
    z
}
fn good(x: f64) -> f64 { @GOOD@ }
fn mock(x: fty, rest: &[f64], real: impl Fn() -> fty) -> fty {
    ST.with(|s| { let mut s = s.borrow_mut();
        match s.mode { Mode::Real => real(), Mode::Record => { s.seen.push(x); good(x as f64) as fty },
            Mode::Table => { if rest != EXTRAS { return fty::NAN; } let k = x.to_bits() as u64; for a in &s.at { if a.0 == k { return a.1; } } match s.table.get(&k) { Some(y) => *y + s.all, None => fty::NAN } } } })
}
"""
MAIN_TABLE = r"""
fn passes(f: fn()) -> bool { std::panic::catch_unwind(f).is_ok() }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let tests: Vec<(&str, fn())> = vec![@TESTS@];
    if a[1] == "record" {
        for (name, f) in &tests {
            ST.with(|s| { let mut s = s.borrow_mut(); s.mode = Mode::Record; s.seen.clear(); });
            let _ = std::panic::catch_unwind(*f);
            let seen = ST.with(|s| { let mut s = s.borrow_mut(); s.mode = Mode::Real; s.seen.clone() });
            print!("SEEN {} {}", name, passes(*f)); for x in seen { print!(" {}", x.to_bits()); } print!("\n");
        }
        return;
    }
    // lines: test limit, then rows "x y residual", then END
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut cur: Option<(String, f64)> = None; let mut rows: Vec<(u64, fty, f64)> = Vec::new();
    let mut n = 0u64;
    for line in text.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        if w[0] == "T" { cur = Some((w[1].to_string(), w[2].parse().unwrap())); rows.clear(); continue; }
        if w[0] == "R" { rows.push((w[1].parse().unwrap(), fty::from_bits(w[2].parse::<u64>().unwrap() as _), w[3].parse().unwrap())); continue; }
        let (name, limit) = cur.clone().unwrap();
        let f = tests.iter().find(|t| t.0 == name).unwrap().1;
        ST.with(|s| { let mut s = s.borrow_mut(); s.mode = Mode::Table; s.table = rows.iter().map(|r| (r.0, r.1)).collect(); s.at.clear(); s.all = 0.0; });
        let show = |x: u64| fty::from_bits(x as _);
        let err = |r: &(u64, fty, f64), y: fty| ((y as f64 - r.1 as f64) - r.2).abs() / limit;
        let mut say = |want: bool, at: Vec<(u64, fty)>, all: fty, what: String| {
            n += 1;
            let q = at.clone();
            ST.with(|s| { let mut s = s.borrow_mut(); s.at = at; s.all = all; });
            if passes(f) != want { print!("BAD {} {} {} {}\n", name, if want { "rejects" } else { "accepts" }, what, q.iter().map(|p| format!("({:?}) = {:?}", show(p.0), p.1)).collect::<Vec<_>>().join(", ")); }
        };
        say(true, vec![], 0.0, "a correctly rounded function".to_string());
        for r in &rows {
            for k in [@KINDS@] {
                let y = (r.1 as f64 + (k as f64) * limit) as fty;
                let e = err(r, y);
                if e <= 0.9 { say(true, vec![(r.0, y)], 0.0, format!("an error of {:.2} limits at", e)); }
                if e >= 1.1 { say(false, vec![(r.0, y)], 0.0, format!("an error of {:.2} limits at", e)); }
            }
            for y in [fty::NAN, -fty::NAN, fty::INFINITY, fty::NEG_INFINITY, fty::MAX] { say(false, vec![(r.0, y)], 0.0, "".to_string()); }
            if err(r, -r.1) >= 1.1 { say(false, vec![(r.0, -r.1)], 0.0, "the wrong sign at".to_string()); }
        }
        // two faults at once: neither hides the other
        let st = std::cmp::max(1, rows.len() / @PAIRS@);
        for i in (0..rows.len()).step_by(st) { for j in (0..rows.len()).step_by(st) { if rows[i].0 != rows[j].0 {
            let big = (rows[j].1 as f64 + 8.0 * limit) as fty;
            if err(&rows[j], big) < 1.1 { continue; }
            say(false, vec![(rows[i].0, fty::NAN), (rows[j].0, big)], 0.0, "two faults:".to_string());
            say(false, vec![(rows[i].0, rows[i].1), (rows[j].0, big)], 0.0, "".to_string());
        } } }
        // the same small or large error everywhere
        for k in [@KINDS@] { let d = ((k as f64) * limit) as fty;
            let es: Vec<f64> = rows.iter().map(|r| err(r, r.1 + d)).collect();
            if es.iter().all(|e| *e <= 0.9) { say(true, vec![], d, format!("an error of {} limits everywhere", k)); }
            if es.iter().any(|e| *e >= 1.1) { say(false, vec![], d, format!("an error of {} limits everywhere", k)); }
        }
        say(false, rows.iter().map(|r| (r.0, fty::NAN)).collect(), 0.0, "NaN everywhere".to_string());
    }
    print!("RUNS {}\n", n);
}
"""
MAIN_HIST = r"""
fn passes(f: fn()) -> bool { std::panic::catch_unwind(f).is_ok() }
thread_local! { static FAULT: RefCell<(u32, usize, Vec<f64>)> = RefCell::new((0, 0, Vec::new())); }
thread_local! { static CALLS: std::cell::Cell<u64> = std::cell::Cell::new(0); }
fn sample(i: usize, rest: &[f64], real: impl Fn() -> fty) -> fty {
    CALLS.with(|c| c.set(c.get() + 1));
    FAULT.with(|s| { let s = s.borrow();
        if s.0 == 0 { return real(); }
        if rest != EXTRAS { return fty::NAN; }
        let u = ((i as f64 + 0.5) * 0.6180339887498949).fract();
        let n = s.2.len() - 1;
        let t = u * n as f64; let k = t as usize;
        let y = s.2[k] + (s.2[k + 1] - s.2[k]) * (t - k as f64);
        let (lo, hi) = (@LO@, @HI@);
        let w = (hi - lo) / 32.0;
        let b = lo + w * s.1 as f64;
        let inside = y >= b && y < b + w;
        let r = match s.0 {
            1 => y,                                             // exact
            2 => if inside { hi + 10.0 } else { y },             // a bucket is empty
            3 => if inside { if s.1 == 31 { y - w } else { y + w } } else { y }, // a bucket is emptied into the next
            4 => if inside && i % 2 == 0 { hi + 1.0 } else { y }, // half of a bucket is lost
            5 => b + w / 2.0,                                    // one value only
            6 => f64::NAN,
            7 => hi + 10.0,
            8 => if i % 4 == 0 { b + w / 2.0 } else { y },       // a quarter of all in one bucket
            9 => if y < b { y } else { y + 2.0 * (hi - lo) },    // nothing above
            10 => if inside { f64::NAN } else { y },             // in place of a bucket, not a number
            _ => y,
        };
        r as fty
    })
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let tests: Vec<(&str, fn())> = vec![@TESTS@];
    let q: Vec<f64> = vec![@QUANTILES@];
    let mut n = 0u64;
    for (name, f) in &tests {
        FAULT.with(|s| *s.borrow_mut() = (0, 0, q.clone()));
        CALLS.with(|c| c.set(0));
        let real = passes(*f);
        if CALLS.with(|c| c.get()) == 0 { continue; }
        print!("REAL {} {}\n", name, real);
        FAULT.with(|s| *s.borrow_mut() = (1, 0, q.clone())); n += 1;
        if !passes(*f) { print!("BAD {} rejects an exact distribution\n", name); }
        for kind in 2..11u32 { for b in 0..32usize {
            if kind == 9 && b > 28 { continue; }
            if kind == 10 && b == 0 { continue; } // it may count as the first
            if (kind == 6 || kind == 7) && b > 0 { continue; }
            if @STEP@ > 1 && b % @STEP@ != 0 && b != 31 { continue; }
            FAULT.with(|s| { let mut s = s.borrow_mut(); s.0 = kind; s.1 = b; }); n += 1;
            if passes(*f) { print!("BAD {} accepts a distribution with fault {} at bucket {}\n", name, kind, b); }
        } }
    }
    print!("RUNS {}\n", n);
}
"""

MAIN_PLOT = r"""
fn passes(f: fn()) -> bool { std::panic::catch_unwind(f).is_ok() }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let tests: Vec<(&str, fn())> = vec![@TESTS@];
    if a[1] == "record" {
        for (name, f) in &tests {
            ST.with(|s| { let mut s = s.borrow_mut(); s.mode = Mode::Record; s.seen.clear(); });
            let ok = passes(*f);
            let seen = ST.with(|s| { let mut s = s.borrow_mut(); s.mode = Mode::Real; s.seen.clone() });
            print!("SEEN {} {}", name, ok); for x in seen { print!(" {}", x.to_bits()); } print!("\n");
        }
        return;
    }
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut cur: Option<(String, f64)> = None; let mut rows: Vec<(u64, fty, f64)> = Vec::new();
    let mut n = 0u64;
    for line in text.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        if w[0] == "T" { cur = Some((w[1].to_string(), w[2].parse().unwrap())); rows.clear(); continue; }
        if w[0] == "R" { rows.push((w[1].parse().unwrap(), fty::from_bits(w[2].parse::<u64>().unwrap() as _), w[3].parse().unwrap())); continue; }
        let (name, limit) = cur.clone().unwrap();
        let f = tests.iter().find(|t| t.0 == name).unwrap().1;
        ST.with(|s| { let mut s = s.borrow_mut(); s.mode = Mode::Table; s.table = rows.iter().map(|r| (r.0, r.1)).collect(); s.at.clear(); s.all = 0.0; });
        let file = format!("{}.csv", name);
        let mut bad = 0;
        let mut check = |at: Vec<(u64, fty)>, all: fty, want: bool| {
            n += 1;
            ST.with(|s| { let mut s = s.borrow_mut(); s.at = at.clone(); s.all = all; });
            let _ = std::fs::remove_file(&file);
            let got = passes(f);
            if got != want { if bad < 3 { print!("BAD {} {} {:?} {}\n", name, if want { "rejects" } else { "accepts" }, at, all); } bad += 1; return; }
            if !want { return; }
            let mut say = |what: String| { if bad < 3 { print!("BAD {} plot: {} (one value changed: {:?}, all by {})\n", name, what, at, all); } bad += 1; };
            let text = match std::fs::read_to_string(&file) { Ok(t) => t, Err(e) => { say(format!("no file {}: {}", file, e)); return; } };
            let mut lines = text.lines();
            match lines.next() { Some(h) if h.split(',').count() == 4 && h.split(',').all(|w| w.trim().parse::<f64>().is_err() && !w.trim().is_empty()) => (), h => { say(format!("heading {:?}", h)); return; } }
            let mut k = 0;
            for l in lines {
                if k == rows.len() { say("more rows than points".to_string()); return; }
                let r = rows[k]; k += 1;
                let v: Vec<Option<fty>> = l.split(',').map(|w| w.trim().parse().ok()).collect();
                if v.len() != 4 || v.iter().any(|x| x.is_none()) { say(format!("row {:?}", l)); return; }
                let (x, yref, y, e) = (v[0].unwrap(), v[1].unwrap(), v[2].unwrap(), v[3].unwrap());
                let wanty = at.iter().find(|p| p.0 == r.0).map(|p| p.1).unwrap_or(r.1 + all);
                let true_e = (wanty as f64 - r.1 as f64 - r.2).abs();
                if x.to_bits() as u64 != r.0 { say(format!("row {} has x = {:?}, the point is {:?}", k, x, fty::from_bits(r.0 as _))); return; }
                if yref != r.1 { say(format!("row {} has yref = {:?}, the reference is {:?}", k, yref, r.1)); return; }
                if y != wanty { say(format!("row {} has ycalc = {:?}, the function gave {:?}", k, y, wanty)); return; }
                if !((e as f64 - true_e).abs() <= 4.0 * fty::EPSILON as f64 * (true_e + r.2.abs()) + if std::mem::size_of::<fty>() == 4 { 1e-18 } else { 1e-38 }) { say(format!("row {} has eref = {:?}, the error is {:?}", k, e, true_e)); return; }
            }
            if k != rows.len() { say(format!("{} rows for {} points", k, rows.len())); }
        };
        let err = |r: &(u64, fty, f64), y: fty| ((y as f64 - r.1 as f64) - r.2).abs() / limit;
        check(vec![], 0.0, true);
        for i in (0..rows.len()).filter(|i| i % @STEP@ == 0 || *i + 3 > rows.len()) {
            let r = rows[i];
            for k in [0.7f64, -0.7] {
                let y = (r.1 as f64 + k * limit) as fty;
                if err(&r, y) <= 0.9 { check(vec![(r.0, y)], 0.0, true); }
            }
            check(vec![(r.0, fty::NAN)], 0.0, false);
            check(vec![(r.0, (r.1 as f64 + 4.0 * limit) as fty + fty::MIN_POSITIVE)], 0.0, err(&r, (r.1 as f64 + 4.0 * limit) as fty) <= 0.9);
        }
        for k in [0.3f64, -0.3, 0.6, -0.6] {
            let d = (k * limit) as fty;
            if rows.iter().all(|r| err(r, r.1 + d) <= 0.9) { check(vec![], d, true); }
        }
        let _ = std::fs::remove_file(&file);
    }
    print!("RUNS {}\n", n);
}
"""


def round_to(v, bits):
    """The bit pattern of v correctly rounded, and the float."""
    if bits == 64:
        s = mp.prec
        f = float(v)
        return struct.unpack("<Q", struct.pack("<d", f))[0], f
    p = 24
    if v == 0:
        return 0, 0.0
    man, e = mpmath.frexp(v)
    e = max(int(e), -125)
    f = float(mpmath.nint(mpmath.ldexp(v, p - e)))
    f = f * 2.0 ** (e - p)
    return struct.unpack("<I", struct.pack("<f", f))[0], f


def to_float(b, bits):
    return struct.unpack("<d", struct.pack("<Q", b))[0] if bits == 64 else struct.unpack("<f", struct.pack("<I", b))[0]


def prepare(ctx, wd, f, bits, nt, hist, plots=False):
    """Compile the tests of f with the stand-in; (path, names of tests) or None."""
    r = mgen(["-f", f, "--generate-tests", "--num-bits", str(bits), "--number-type", nt] + (["--generate-plots"] if plots else []), keep=False)
    tag = "%s%d%s%s" % (f, bits, nt[:3], "p" if plots else "")
    if r.rc != 0:
        ctx.violation("libmgen -f %s --generate-tests --num-bits %d --number-type %s ends with %s" % (f, bits, nt, r.rc), key="%s:run" % tag)
        return None
    it = items_of([r.out])[0]
    if it is None:
        ctx.violation("libmgen -f %s --generate-tests --num-bits %d: not Rust" % (f, bits), key="%s:run" % tag)
        return None
    tests, sig = [], None
    for kind, name, tokens in it:
        if kind == "fn" and re.search(r"# \[ ?test ?\]", tokens):
            tests.append(name)
        elif kind == "fn" and name == f:
            m = re.search(r"fn %s \((.*?)\) -> (\w+)" % f, tokens)
            sig = m and [a.strip() for a in m.group(1).split(",") if a.strip()]
    if not tests or not sig:
        ctx.violation("libmgen -f %s --generate-tests --num-bits %d: no test or no function" % (f, bits), key="%s:none" % tag)
        return None
    # the text again, without the attribute and with the function renamed, item by item
    body = []
    for kind, name, tokens in it:
        if name in tests and kind == "fn":
            tokens = re.sub(r"# \[ ?test ?\]", "", tokens)
        elif kind == "fn" and name == f:
            tokens = re.sub(r"fn %s \(" % f, "fn %s_real (" % f, tokens, count=1)
        body.append(tokens)
    sig = [re.sub(r"^mut ", "", a) for a in sig]
    first = sig[0].split(":")[0].strip()
    args = ", ".join(s.split(":")[0].strip() for s in sig)
    body.append("pub fn %s(%s) -> fty { %s(%s, &[%s], || %s_real(%s)) }\nconst EXTRAS: &[f64] = &[%s];" % (
        f, ", ".join(sig), "sample" if hist else "mock", first, ", ".join("%s as f64" % s.split(":")[0].strip() for s in sig[1:]), f, args,
        ", ".join("%d.0" % e for e in EXTRAS.get(f, ()))))
    src = ["#![allow(warnings)]", "macro_rules! println { ($($t:tt)*) => { { let _ = format!($($t)*); } } }", "\n".join(body), RUST,
           (MAIN_PLOT if plots else MAIN_HIST if hist else MAIN_TABLE).replace("@TESTS@", ", ".join('("%s", %s as fn())' % (t, t) for t in tests))]
    text = "\n".join(src)
    text = text.replace("@GOOD@", "0.0" if hist else GOOD.get(f, "x.%s()" % f))
    if hist:
        lo, hi = HIST[f]
        n = 2000
        if f == "runif":
            qs = [i / n for i in range(n + 1)]
        else:
            qs = [-4.5] + [float(mpmath.sqrt(2) * mpmath.erfinv(2 * mpf(i) / n - 1)) for i in range(1, n)] + [4.5]
        text = (text.replace("@LO@", "%r" % lo).replace("@HI@", "%r" % hi).replace("@QUANTILES@", ", ".join("%r" % q for q in qs))
                .replace("@STEP@", "13" if ctx.quick else "1"))
    else:
        text = text.replace("@KINDS@", ", ".join("%r" % k for k in ([0.5, -0.8, 1.2, -1.2, 16.0] if ctx.quick else KINDS))).replace("@PAIRS@", "12" if ctx.quick else "80").replace("@STEP@", "29" if ctx.quick else "2")
    path = os.path.join(wd, tag)
    with open(path + ".rs", "w") as fh:
        fh.write(text)
    g = subprocess.run(RUSTC + ["-C", "opt-level=1", "-C", "target-cpu=native", "-o", path, path + ".rs"], capture_output=True, text=True)
    if g.returncode:
        ctx.violation("%s: the generated tests do not compile with a function of the same signature: %s" % (tag, "; ".join(m for _, m in rustc_errors(g.stderr)[:3])), key="%s:compile" % tag)
        return None
    return path, tests


def run(cmd, timeout=1500, cwd=None):
    g = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace")
    return g.returncode, g.stdout.split("\n")


def one(ctx, wd, f, bits, nt):
    tag = "%s%d%s" % (f, bits, nt[:3])
    hist = f in HIST
    p = prepare(ctx, wd, f, bits, nt, hist)
    if p is None:
        return
    path, tests = p
    if hist:
        rc, lines = run([path])
        report(ctx, bits, f, nt, rc, lines)
        return
    fn, limits, (lo, hi) = TESTED[f]
    rc, lines = run([path, "record"])
    seen = {}
    for l in lines:
        w = l.split()
        if l.startswith("SEEN"):
            xs = [int(b) for b in w[3:]]
            if xs:
                seen[w[1]] = xs
                if w[2] != "true":
                    ctx.violation("%d bit: the library fails its own test %s" % (bits, w[1]), key="fails:%d:%s" % (bits, w[1]))
    if rc:
        ctx.violation("%s: the program with the tests ends with %s" % (tag, rc), key="%s:rc" % tag)
        return
    if not seen:
        ctx.violation("%s: no generated test calls %s" % (tag, f), key="%s:calls" % tag)
        return
    # the points span the range the tests are for
    pts = sorted(to_float(b, bits) for xs in seen.values() for b in xs)
    span = float(hi) - float(lo)
    gap = max([b - a for a, b in zip(pts, pts[1:])] + [0])
    if abs(pts[0] - float(lo)) > 0.02 * span or abs(pts[-1] - float(hi)) > 0.02 * span or gap > 0.02 * span or len(pts) < 200:
        ctx.violation("%s: the test points of %s are %d from %r to %r with gaps up to %r" % (tag, f, len(pts), pts[0], pts[-1], gap), key="%s:points" % tag)
    with open(path + ".tab", "w") as fh:
        for t, xs in seen.items():
            lim = limits.get(t) or max(limits.values())
            limit = lim[0] * 2.0 ** -23 if bits == 32 else lim[1] * 2.0 ** -53
            fh.write("T %s %r\n" % (t, limit))
            for b in dict.fromkeys(xs):
                v = fn(mpf(to_float(b, bits)))
                yb, y = round_to(v, bits)
                fh.write("R %d %d %r\n" % (b, yb, float(v - mpf(y))))
            fh.write("E\n")
    rc, lines = run([path, path + ".tab"])
    report(ctx, bits, f, nt, rc, lines)
    ctx.sample("%s: %d points of %s" % (tag, len(pts), ", ".join(seen)))


def one_plot(ctx, wd, f, bits, nt):
    tag = "%s%d%s" % (f, bits, nt[:3])
    wd = os.path.join(wd, tag)
    os.makedirs(wd, exist_ok=True)
    a, b = (prepare(ctx, wd, f, bits, nt, False, plots) for plots in (False, True))
    if a is None or b is None:
        return
    if a[1] != b[1]:
        ctx.violation("%s: the tests with plots are %s, without %s" % (tag, b[1], a[1]), key="%s:tests" % tag)
        return
    fn, limits, _ = TESTED[f]
    real = []
    for path in (a[0], b[0]):
        rc, lines = run([path, "record"], cwd=wd)
        seen = {}
        for l in lines:
            w = l.split()
            if l.startswith("SEEN") and len(w) > 3:
                xs = [int(x) for x in w[3:]]
                h = len(xs) // 2
                seen[w[1]] = xs[:h] if len(xs) % 2 == 0 and xs[:h] == xs[h:] else xs
        real.append(seen)
    if real[0] != real[1] or not real[0]:
        ctx.violation("%s: the points of the tests with plots are others than without" % tag, key="%s:points" % tag)
        return
    with open(b[0] + ".tab", "w") as fh:
        for t, xs in real[0].items():
            lim = limits.get(t) or max(limits.values())
            fh.write("T %s %r\n" % (t, lim[0] * 2.0 ** -23 if bits == 32 else lim[1] * 2.0 ** -53))
            for x in xs:
                v = fn(mpf(to_float(x, bits)))
                yb, y = round_to(v, bits)
                fh.write("R %d %d %r\n" % (x, yb, float(v - mpf(y))))
            fh.write("E\n")
    rc, lines = run([b[0], b[0] + ".tab"], cwd=wd)
    runs, bad = 0, {}
    for l in lines:
        if l.startswith("BAD"):
            bad.setdefault(l.split(" ", 2)[1], []).append(l.split(" ", 2)[2])
        elif l.startswith("RUNS"):
            runs = int(l.split()[1])
    for t, l in bad.items():
        ctx.violation("%d bit %s with plots: %s %s (and %d more)" % (bits, nt, t, l[0][:300], len(l) - 1), key="plot:%d:%s" % (bits, t))
    if rc or not runs:
        ctx.violation("%s: the program with the tests and plots ends with %s" % (tag, rc), key="plotrc:%d:%s" % (bits, f))
    left = [n for n in os.listdir(wd) if n.endswith(".csv") and n[:-4] not in b[1]]
    if left:
        ctx.violation("%s: files of no test: %s" % (tag, left), key="%s:files" % tag)
    ctx.count(states=runs, transitions=runs, traces=runs)
    ctx.sample("%s: %s" % (tag, ", ".join("%s %d rows" % (t, len(x)) for t, x in real[0].items())))


def check_L08(ctx):
    wd = core.workdir("l08-" + ctx.tier)
    jobs = [(f, b, nt) for f in TESTED for b in (64, 32) for nt in (("hex" if b == 64 else "decimal",) if ctx.quick else ("decimal", "hex"))]
    par(lambda j: one_plot(ctx, wd, *j), jobs)
    ctx.note("libraries", len(jobs))
    ctx.assumptions.append("the error of a row is judged to four roundings")
    shutil.rmtree(wd, ignore_errors=True)


def report(ctx, bits, f, nt, rc, lines):
    runs = 0
    bad = {}
    for l in lines:
        if l.startswith("BAD"):
            w = l.split(" ", 3)
            bad.setdefault((w[1], w[2]), []).append(w[3])
        elif l.startswith("REAL") and l.split()[2] != "true":
            ctx.violation("%d bit: the library fails its own test %s" % (bits, l.split()[1]), key="fails:%d:%s" % (bits, l.split()[1]))
        elif l.startswith("RUNS"):
            runs = int(l.split()[1])
    for (t, how), l in bad.items():
        ctx.violation("%d bit %s: %s %s %s (and %d more)" % (bits, nt, t, how, l[0][:200], len(l) - 1), key="%s:%d:%s" % (how, bits, t))
    if rc or not runs:
        ctx.violation("%d bit %s: the program with the tests of %s ends with %s" % (bits, nt, f, rc), key="rc:%d:%s" % (bits, f))
    ctx.count(states=runs, transitions=runs, traces=runs)


def check_L07(ctx):
    wd = core.workdir("l07-" + ctx.tier)
    jobs = [(f, b, nt) for f in list(HIST) + list(TESTED) for b in (64, 32) for nt in (("decimal" if b == 64 else "hex",) if ctx.quick else ("decimal", "hex"))]
    par(lambda j: one(ctx, wd, *j), jobs)
    ctx.note("functions", len(TESTED) + len(HIST))
    ctx.note("libraries", len(jobs))
    ctx.assumptions.append("an error within a tenth of the tolerance is not judged, as the comparison itself is rounded")
    shutil.rmtree(wd, ignore_errors=True)
