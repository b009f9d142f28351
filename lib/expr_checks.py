"""E01-E14: expression algebra, decided by exhaustive enumeration against the model in rexpr.py."""
import itertools, struct, sys
from collections import Counter
from fractions import Fraction as F
import mpmath
import core, gen, rexpr
from gen import NUM, VAR, trees, upto
from rexpr import parse, show, show_min, strip, value, EvalError, to_mp, MPF

ARITH = ("+", "-", "*", "/")
CMP = ("<", ">", "<=", ">=", "==", "!=")
sys.setrecursionlimit(20000)


def long_texts(a, b, ops=("+", "-", "*"), sizes=(5, 9, 17, 33, 60), call="abs"):
    """What is long or deep: chains of every operator and of all in turn, and each kind of nesting."""
    for n in sizes:
        for op in ops:
            yield (" %s " % op).join(([a, b] * n)[:n])
            yield ("%s %s (" % (a, op)) * n + b + ")" * n
            yield "(" * n + a + (" %s %s)" % (op, b)) * n
        yield a + "".join(" %s %s" % (ops[i % len(ops)], (a, b)[i % 2]) for i in range(n))
        yield a + "".join(" %s %s" % (ops[i * i % len(ops)], ("-" + b, a)[i % 3 % 2]) for i in range(n))
        yield "(" * n + a + ")" * n
        yield "-(" * n + a + " - " + b + ")" * n
        yield "- " * n + a
        if call:
            yield "(%s - %s)" % (a, b) + (".%s()" % call) * n
            yield ("(%s - " % a) * n + b + (").%s()" % call) * n


def sgn(x):
    return (x > 0) - (x < 0)


def text_value(s):
    """Value of a text the library printed (None if it does not read as an expression)."""
    return value(parse(s))


# ---------------------------------------------------------------- E01
class Iv:
    """A value known up to the allowed rounding: [lo, hi]; exact when lo == hi."""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def iv_eval(e, half):
    """Interval of results when every product and quotient is rounded to the nearest
    multiple of 2*half (half away or to even alike)."""
    k = e[0]
    if k == "num":
        v = rexpr.literal(e[1])
        return Iv(v, v)
    if k == "paren":
        return iv_eval(e[1], half)
    if k == "un":
        v = iv_eval(e[2], half)
        if isinstance(v, (bool, type(None))):
            return v
        return Iv(-v.hi, -v.lo)
    if k == "bin":
        a, b = iv_eval(e[2], half), iv_eval(e[3], half)
        op = e[1]
        if op == "+":
            return Iv(a.lo + b.lo, a.hi + b.hi)
        if op == "-":
            return Iv(a.lo - b.hi, a.hi - b.lo)
        if op == "*":
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        elif op == "/":
            if b.lo == 0 == b.hi:
                raise EvalError("zero division")
            if b.lo <= 0 <= b.hi:
                raise OverflowError
            c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
        elif op in CMP:
            if a.lo == a.hi and b.lo == b.hi:
                x, y = a.lo, b.lo
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
            if a.hi < b.lo:
                return op in ("<", "<=", "!=")
            if a.lo > b.hi:
                return op in (">", ">=", "!=")
            raise OverflowError
        lo, hi = min(c), max(c)
        unit = 2 * half
        if lo == hi and (lo / unit).denominator == 1:
            return Iv(lo, hi)
        # the nearest multiple of the unit is at most half a unit away
        return Iv(lo - half, hi + half)
    raise EvalError(k)


def check_E01(ctx):
    forms = ["0", "1", "2", "3", "7", "0.5", "0.1", "10", "1e3", "2.5e-3", "0.0625", "1_000.25", "0x1f", "3f32", "4.5f64", "12u8",
             "0b101", "0o17", "1.", "9.99999999999999999999999"]
    batches = []
    # every literal form on its own and negated, then all pairs, under every operator
    L = [NUM(f) for f in forms]
    batches.append(list(upto(1, L, ARITH + CMP, ("-",))))
    L3 = [NUM(x) for x in (("0", "1", "3", "0.1", "7") if ctx.quick else ("0", "1", "3", "0.1", "7", "0.0625", "12u8"))]
    batches.append(list(trees(2, L3, ARITH, ("-",))))
    L4 = [NUM(x) for x in (("2", "0.3", "7") if ctx.quick else ("2", "0.3", "7", "0"))]
    batches.append(list(trees(3, L4, ARITH, ("-",))))
    if not ctx.quick:
        batches.append(list(trees(4, [NUM("3"), NUM("0.7")], ARITH, ("-",))))
    # comparisons of compound operands
    small = list(upto(1, [NUM("1"), NUM("0.3"), NUM("3")], ARITH, ("-",)))
    batches.append([parse(t) for a, b in (("1.5", "0.7"), ("2", "3")) for t in long_texts(a, b, ARITH, call=None)])
    batches.append([("bin", c, a, b) for c in CMP for a in small for b in small])
    digits = (0, 3, 20, 40, 80, 130) if ctx.quick else (0, 1, 3, 10, 20, 40, 80, 99, 101, 130, 250)
    reqs, meta = [], []
    seen = set()
    for b, batch in enumerate(batches):
        for e in batch:
            texts = {show_min(e)}
            if b != 2 or not ctx.quick:
                texts.add(show(e, True))
            for t in texts:
                if t in seen:
                    continue
                seen.add(t)
                for d in digits if b in (0, 1, 4) else (20,):
                    reqs.append(["eval", t, d])
                    meta.append((e, d))
    skipped = 0
    outcomes = set()
    for q, (e, d), r in zip(reqs, meta, core.vh(reqs)):
        half = F(1, 2 * 10 ** d)
        try:
            want = iv_eval(e, half)
        except EvalError:
            want = None
        except OverflowError:
            skipped += 1
            continue
        if want is None:
            ok = r.status == "ERR"
            desc = "an error"
        elif r.status != "OK":
            ok, desc = False, "a value"
        elif isinstance(want, bool):
            ok, desc = r[0] == str(want).lower(), str(want)
        else:
            try:
                got = text_value(r[0])
                ok = not isinstance(got, bool) and want.lo <= got <= want.hi and r[1] == "11"
            except (ValueError, EvalError):
                ok = False
            desc = "%s..%s" % (float(want.lo), float(want.hi))
        outcomes.add(desc if want is None or isinstance(want, bool) else r[0] if r else "")
        if not ok:
            ctx.violation("%s evaluated with %d digits gives %s %s, expected %s" % (q[1], d, r.status, list(r), desc), requests=[q])
    ctx.count(states=len(seen), transitions=len(reqs), traces=len(reqs) - skipped)
    ctx.note("undetermined_by_rounding", skipped)
    ctx.note("distinct_results", len(outcomes))
    for q in reqs[:: max(1, len(reqs) // 8)]:
        ctx.sample(q)
    ctx.assumptions.append("the value of + and - is exact; every product and quotient may be off by half a unit of the last requested decimal")


# ---------------------------------------------------------------- E02
def dec(k, den):
    """k/den as a decimal text (den a power of two or ten)."""
    from decimal import Decimal, getcontext
    getcontext().prec = 60
    return format(Decimal(k) / Decimal(den), "f")


def scale_of(e, w):
    """How much a rounding of one unit in the last decimal of an operand or of an inner
    logarithm may be magnified in the result: the condition of the function."""
    name = e[2]
    x = to_mp(value(e[1]))
    a = [to_mp(value(v)) for v in e[3]]
    big = max(1, abs(w))
    if name == "tan":
        return big * (1 + w * w) ** MPF("0.5")
    if name == "exp2":
        return big * max(1, abs(x))
    if name in ("powf", "powi"):
        return big * max(1, abs(a[0]))
    if name in ("log", "log2", "log10"):
        return big * max(1, 1 / abs(mpmath.ln(a[0])) ** 2 if a else 1)
    if name in ("dnorm", "pnorm"):
        return big * max(1, 1 / abs(a[1]))
    if name == "qnorm":
        z = qn = (w - a[0]) / a[1]
        return big + abs(a[1]) / (mpmath.exp(-z * z / 2) / mpmath.sqrt(2 * mpmath.pi))
    if name == "recip":
        return big
    return big


def check_E02(ctx):
    step = 16 if ctx.quick else 64
    lim = 160 if ctx.quick else 640
    args = [dec(k, step) for k in range(-lim, lim + 1)]
    args += ["0.001", "-0.001", "1e-10", "0.3333333333333333333333", "15", "20", "-20", "12.7", "0.99", "0.999", "-0.999",
             "1.0001", "100", "1000", "0.00012345", "0.70710678118654752440084436210484903928", "-0.9999999999",
             "2.718281828459045235360287471352662497757247093", "1.6487212707001281468486507878141635716537",
             "-0.60653065971263342360379953499118045344", "1e-25", "30.123456789", "-30.123456789", "50", "-50", "-30.0001", "-29.9999", "-60.1", "-59.9", "-120.5", "-119", "-1000", "-123456.7", "5.5", "-5.5", "7.7459", "7.746", "10.9544", "10.9545"]
    one = ["sqrt", "exp", "exp2", "ln", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "erf", "erfc", "recip", "abs", "signum"]
    digits = (0, 1, 2, 3, 6, 20, 40, 50) if ctx.quick else (0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 30, 40, 50, 60)
    cases = []
    for f in one:
        for a in args:
            v = abs(float(a))
            if f in ("sin", "cos", "tan") and v > 100 or f in ("exp", "exp2") and float(a) > 100:
                continue
            cases.append("(%s).%s()" % (a, f))
    bases = ["0.1", "0.5", "0.9", "1", "1.5", "2", "3", "10", "2.71828182845904523536", "123.456"]
    exps = ["-3", "-1", "-0.5", "0", "0.1", "0.5", "1", "2", "3.7", "10", "-10", "0.333333333333333333333", "7.25"]
    for b in bases + ["0", "-2"]:
        for x in exps:
            cases += ["(%s).powf(%s)" % (b, x), "(%s).powi(%s)" % (b, x)]
        for y in bases + ["0", "-2"]:
            cases.append("(%s).log(%s)" % (b, y))
    for mean in ("0", "2", "-1.5"):
        for sd in ("1", "3", "0.25", "0"):
            for k in range(-12, 13):
                x = F(mean) + F(sd) * F(k, 2)
                t = dec(x.numerator, x.denominator)
                cases += ["(%s).dnorm(%s, %s)" % (t, mean, sd), "(%s).pnorm(%s, %s)" % (t, mean, sd)]
            for p in ["0.001", "0.01", "0.1", "0.2", "0.25", "0.3", "0.4", "0.5", "0.6", "0.75", "0.9", "0.99", "0.999", "0", "1", "1.5", "-0.5"]:
                cases.append("(%s).qnorm(%s, %s)" % (p, mean, sd))
    small = ["-0.9", "0", "0.5", "1", "1.7"] if ctx.quick else ["-0.9", "-0.5", "-0.125", "0", "0.1", "0.5", "0.75", "1", "1.7", "2.5"]
    composed = ["(%s).%s().%s()" % (a, g, f) for f in one for g in one for a in small]
    cases += composed
    # the inner value of a composition is rounded: with few digits its slope says nothing
    composed = set(composed)
    reqs = [["eval", t, d] for d in digits for t in cases if t not in composed or d >= 6 and (d in (20, 40) or not ctx.quick)]
    # more digits than the division and the root of the number type keep by themselves
    mpmath.mp.dps = 330
    for i, d in enumerate((75, 99, 101, 130, 200)):
        reqs += [["eval", t, d] for t in cases[i:: 61 if ctx.quick else 7]]
    refs = {}
    worst = {}
    for q, r in zip(reqs, core.vh(reqs, stall=120)):
        t, d = q[1], q[2]
        e = parse(t)
        if t not in refs:
            try:
                w = to_mp(value(e))
                sc = scale_of(e, w)
                if e[1][0] == "call":  # composed: the inner error is magnified by the slope
                    x = to_mp(value(e[1]))
                    h = MPF(10) ** -50
                    slope = 0
                    for dx in (h, -h):
                        try:
                            slope = max(slope, abs(to_mp(rexpr.method(e[2], x + dx, [])) - w) / h)
                        except (EvalError, ZeroDivisionError):
                            slope = None
                            break
                    if slope is None or slope > 1e6:
                        refs[t] = ("skip", 0)
                        continue
                    sc = sc * (1 + slope) * scale_of(e[1], x)
                refs[t] = (w, sc)
            except (EvalError, ZeroDivisionError):
                refs[t] = (None, 0)
        w, sc = refs[t]
        if isinstance(w, str):
            continue
        if w is None:
            # Outside the domain: an error, never a number.
            if r.status != "ERR":
                ctx.violation("%s has no value but evaluates (%d digits) to %s %s" % (t, d, r.status, list(r)[:1]), requests=[q])
            continue
        if r.status != "OK" or r[1] != "11":
            ctx.violation("%s with %d digits: %s %s, expected %s" % (t, d, r.status, list(r)[:1], mpmath.nstr(w, 20)), requests=[q])
            continue
        got = to_mp(text_value(r[0]))
        err = abs(got - w) / sc * MPF(10) ** d
        k = (e[2], d)
        worst[k] = max(worst.get(k, 0), float(err))
        if err > 3:
            ctx.violation("%s with %d digits is %s, true value %s: off by %s units of the last decimal" % (
                t, d, r[0][:60], mpmath.nstr(w, d + 10), mpmath.nstr(err, 4)), requests=[q])
    # PI
    for d in list(range(0, 131)) + [150, 200, 250, 300]:
        pq = (["pi", d], ["eval", "PI", d])
        for q, r in zip(pq, core.vh(pq)):
            ok = r.status == "OK" and abs(to_mp(text_value(r[0])) - mpmath.pi) <= 3 * MPF(10) ** -d
            reqs.append(q)
            if not ok:
                ctx.violation("pi to %d digits: %s" % (d, list(r)), requests=[q])
    ctx.count(states=len(cases), transitions=len(reqs), traces=len(reqs))
    ctx.note("worst_error_in_units", {"%s/%d" % k: round(v, 3) for k, v in sorted(worst.items()) if k[1] == 20})
    ctx.note("worst_overall", max(worst.values()))
    for t in cases[:: max(1, len(cases) // 8)]:
        ctx.sample(t)
    ctx.assumptions.append("mpmath at 130 digits gives the true values")


# ---------------------------------------------------------------- E03
def check_E03(ctx):
    nums = ["0", "1", "2", "0.5", "1.5", "100", "1e-30", "0.1234567890123456789", "7u8", "3.25f32", "0x1f", "1_0.0_1", "1.",
            "123456789012345678901234567890", "340282366920938463463374607431768211456"]
    odd = ["true", '"s"', "'c'", "b'a'", 'b"x"', "x", "PI", "a::b", "std::f64::consts::PI", "x.y", "x.0", "f(1)", "[1, 2]", "(1, 2)", "()",
           "if true { 1 } else { 2 }", "{ 1 }", "x as f64", "1 as f64", "|x| x", "a[0]", "1..2", "&1", "*x", "!1", "!true", "loop {}", "1?",
           "x = 1", "x += 1", "return 1", "m!(1)", "S { a: 1 }", "match x { _ => 1 }", "unsafe { 1 }", "while x {}", "break", "1 << 2",
           "1 & 3", "1 | 2", "1 ^ 2", "5 % 3", "5.5 % 0", "1 && 2", "true || false", "true < false", "1 < 2", "(1 < 2) < 3",
           "(1 < 2) + 1", "-(1 < 2)", "-true", "--1", "-(-(1))", "((1))", "1 / 0", "0 / 0", "0.0 / 0.000", "1 / (1 - 1)", "- x", "<T as U>::C", "x::<f64>",
           "x.sqrt::<f64>()", "1.0e400", "1e-400", "00", "0_", "0e0", "1e0", "1E5", "0b0", "0o17", "0xffffffffffffffffffffffffffffffff"]
    leaves = nums + odd
    methods = ["abs", "signum", "recip", "round", "powi", "powf", "sqrt", "exp", "exp2", "ln", "log", "log2", "log10", "sin", "cos", "tan",
               "asin", "acos", "atan", "erf", "erfc", "dnorm", "pnorm", "qnorm", "round_ieee", "floor", "mul_add", "nonsense", "max", "sinh"]
    texts = list(leaves)
    texts += [t for a, b in (("1.5", "0.7"), ("x", "2")) for t in long_texts(a, b, ARITH)]
    texts += ["(%s).qnorm(%s)" % (p, m) for p in ("0.3", "0.001", "0.9999", "1 / 3", "0.1 + 0.2") for m in ("0, 1", "-2, 0.5", "1 / 7, 3")]
    small = ["0", "1", "-1", "2", "-2.5", "0.5", "10", "1e-30", "x", "true", "(1 < 2)", "(1 / 0)", "[1]", "32", "64"]
    for m in methods:
        for r in leaves + ["-1", "-2", "-0.5", "-1e-30", "-100", "1e-300"]:
            if r.startswith(("12345", "34028", "1.0e400", "0xfff", "1E5")) and m in ("exp", "exp2", "sin", "cos", "tan", "powf", "powi"):
                continue  # the series of an enormous argument is allowed to be slow
            texts.append("(%s).%s()" % (r, m))
        for r in small:
            for a in small:
                if m in ("powf", "powi") and a in ("32", "64") and r in ("32", "64", "10"):
                    pass
                texts.append("(%s).%s(%s)" % (r, m, a))
                for b in (small if not ctx.quick else ["0", "-2.5", "x"]):
                    texts.append("(%s).%s(%s, %s)" % (r, m, a, b))
        texts.append("(1).%s(1, 2, 3)" % m)
    binops = list(ARITH) + list(CMP) + ["%", "<<", ">>", "&", "|", "^", "&&", "||", "=", "+=", "-=", "*=", "/="]
    for i, l in enumerate(leaves):
        for j, r in enumerate(leaves):
            for b in (binops if not ctx.quick else ["+", "/", "<"] if i < len(nums) and j < len(nums) else ["*", "=="]):
                texts.append("(%s) %s (%s)" % (l, b, r))
        for u in ("-", "!", "*", "- -"):
            texts.append("%s (%s)" % (u, l))
    # only what reads as an expression counts
    core_texts = set(leaves) | {t for t in texts if "," not in t and (").") in t} | set(texts[::7])
    pr = core.vh([["parse", t] for t in texts])
    good, lost = [], 0
    for t, r in zip(texts, pr):
        if r.status == "OK":
            good.append(t)
        else:
            lost += 1
            if r.status not in ("ERR",):
                ctx.violation("reading %r: %s %s" % (t, r.status, list(r)), requests=[["parse", t]])
    reqs = []
    for t in good:
        for d in ((0, 20) if ctx.quick and t in core_texts else (20,) if ctx.quick else (-3, 0, 1, 20, 40) if t in core_texts else (0, 20)):
            reqs.append(["eval", t, d])
    reqs += [["eval", t, 120] for i, t in enumerate(good) if i % (5 if ctx.quick else 2) == 0 or "qnorm" in t]
    ops = ["expand", "paren", "collect|x", "subst|x|1", "subst|x|(x + 1)|y|-2", "unt|decimal|32", "unt|hex|64", "unt|hex|32", "unt|decimal|64",
           "unt|decimal|16", "unt|other|32"]
    for t in good:
        for o in ops if not ctx.quick and t in core_texts else ["expand", "paren", "subst|x|(x + 1)|y|-2", "unt|hex|64"]:
            reqs.append(["seq", t, o])
    bits = lambda x: struct.unpack("<Q", struct.pack("<d", x))[0]
    for t in leaves + ["x * x", "1 / x", "x.ln()", "x.sqrt()", "(1 / x).recip()", "x < 1", "x.asin()", "y", "x + y"]:
        if core.vh([["parse", t]])[0].status != "OK":
            continue
        for n in (0, 1, 2, 3, 4):
            for lo, hi in ((0.0, 1.0), (-1.0, 1.0), (1.0, 1.0), (1.0, 0.5), (float("nan"), 1.0), (0.0, float("inf")), (5e-324, 1e-300)):
                for p in ("odd", "even", "neither"):
                    reqs.append(["approx", t, n, bits(lo), bits(hi), "x", p, 20])
    for a in leaves:
        for b in leaves:
            for o in ARITH:
                reqs.append(["op", o, a, b])
    # the argument of an overloaded operator must parse
    ok = set(good)
    reqs = [q for q in reqs if q[0] != "op" or (q[2] in ok and q[3] in ok)]
    kinds = {}
    for q, r in zip(reqs, core.vh(reqs, stall=60)):
        kinds[(q[0], r.status)] = kinds.get((q[0], r.status), 0) + 1
        if r.status not in ("OK", "ERR"):
            ctx.violation("%s: %s %s" % (q, r.status, list(r)[:2]), key="%s(%s)" % (q[0], q[1]), requests=[q])
        elif r.noise:
            ctx.violation("%s prints %r to standard output" % (q, r.noise[:200]), requests=[q])
        elif q[0] == "eval" and r.status == "OK":
            lit = r[1][0] == "1" or r[0].startswith("-")
            if not lit:
                ctx.violation("%s evaluates to %r, which is not a literal" % (q[1], r[0]), requests=[q])
    ctx.count(states=len(good), transitions=len(reqs), traces=len(reqs))
    ctx.note("outcomes", {"%s:%s" % k: v for k, v in sorted(kinds.items())})
    ctx.note("texts_not_expressions", lost)
    for t in good[:: max(1, len(good) // 10)]:
        ctx.sample(t)


# ---------------------------------------------------------------- E04
ENVS = [{"x": F(3, 2), "y": F(-7, 5), "a": F(11, 4), "b": F(2, 9)},
        {"x": F(-5, 3), "y": F(13, 8), "a": F(-1, 7), "b": F(19, 6)},
        {"x": F(1, 97), "y": F(101), "a": F(4, 3), "b": F(-17, 11)}]


def values(tree, envs=ENVS):
    out = []
    for env in envs:
        try:
            out.append(value(tree, env))
        except (EvalError, ZeroDivisionError):
            out.append(None)
    return out


def same_values(a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            continue  # a rewriting may divide differently only where a division by zero is involved
        if isinstance(x, bool) or isinstance(y, bool):
            if x is not y:
                return False
        elif isinstance(x, F) and isinstance(y, F):
            if x != y:
                return False
        else:
            x, y = to_mp(x), to_mp(y)
            if abs(x - y) > MPF(10) ** -90 * max(1, abs(x)):
                return False
    return True


REPLACEMENTS = [("x", "a - b"), ("y", "-a"), ("x", "y"), ("y", "x * 2"), ("x", "-1.5")]


def check_E04(ctx):
    """Breadth-first search over sequences of rewriting operations on the real objects.
    State: the text of the current expression and the pending substitutions, reached by
    replaying the whole history in memory; invariant: its value."""
    starts = []
    x, y, one = VAR("x"), VAR("y"), NUM("1")
    leaves = (x, y, NUM("2.5"))
    for e in itertools.chain(upto(2, leaves, ("+", "-", "*", "/"), ("-",), (("abs", 0), ("recip", 0), ("mul_add", 2))),
                             trees(3, (x, one), ("-", "*", "/"), ("-",)) if not ctx.quick else ()):
        starts.append(e)
    curated = [parse(t) for t in [
        "(x + 1) * (y - 2) * (x - y)", "-(x - (y - (2 - x)))", "x - (y + 1) / 2", "(x + y) / (x - y) * x", "x / (y / (x + 1))",
        "-(-(-(x + 1)))", "(x - 1).abs() * (y - 1)", "((x))", "((x + 1))", "-(x * -(y - 1))", "x * (y / (x - 1))", "(x * y) / (x * y)",
        "2 * -(x)", "(-(x)).abs()", "((x + 1).recip() - 1) * (x - -(y))", "x.mul_add(y + 1, -x) * (1 - x)", "x < y", "x + 1 >= y * 2",
        "PI * x", "-x.abs()", "(x - y) * (x - y)", "x - y - 1 - (x - y - 1)", "x / y / 2", "x * y / 2 * x", "-x / y", "-(x / y)",
        "(x + 1).powf(y) - 2", "(y - x).powi(3) - x.powi(2)", "x.exp() * (y - 1)", "(x - y).abs().ln() - x", "x.signum() * (x - 1)", "(x * y).round() - 1", "x.sin() / (y.cos() - 1)",
        "(x - y).abs().powf(x - 1)", "(x * x + 1).sqrt() - x.atan()", "x.abs().log(2) * -y", "x.dnorm(y - 1, 2) * (x + 1)", "x.erf() - (y.erfc() - 1)"]]
    starts += curated
    deep = {show_min(e) for e in curated} | {show_min(e) for e in upto(1, leaves, ("+", "-", "*", "/"), ("-",))}
    def terms(e):
        if not isinstance(e, tuple) or not e:
            return 1
        if e[0] == "bin" and e[1] in "+-":
            return terms(e[2]) + terms(e[3])
        if e[0] == "bin" and e[1] in "*/":
            return terms(e[2]) * terms(e[3])
        return max(terms(c) for c in e)
    starts += [e for e in map(parse, long_texts("x", "y", ARITH, (5, 9, 17))) if terms(e) <= 40]
    base = ["expand", "paren", "reparse", "collect|x", "into", "unt|decimal|64"]
    substs = ["subst|%s|%s" % (n, r) for n, r in REPLACEMENTS]
    depth = 3 if ctx.quick else 4
    # history -> (text, model tree); the model only follows substitutions
    frontier = [((show_min(e),), e, 0) for e in starts]
    seen = set()
    first = core.vh([["seq", h[0]] for h, _, _ in frontier])
    for (h, e, _), r in zip(frontier, first):
        seen.add((r[0], show(strip(e), True)))
    transitions = 0
    levels = []
    everything = list(frontier)
    for level in range(depth):
        nxt, reqs = [], []
        for h, model, nsub in frontier:
            for op in base + (substs if nsub < (1 if ctx.quick else 2) and h[0].count("*") + h[0].count("/") < 7 else []):
                if level and h[-1] == op and op in ("reparse", "collect|x", "into", "unt|decimal|64"):
                    continue
                reqs.append(["seq", h[0]] + list(h[1:]) + [op])
                nxt.append((h + (op,), model, nsub, op))
        transitions += len(reqs)
        new = []
        for q, (h, model, nsub, op), r in zip(reqs, nxt, core.vh(reqs)):
            if r.status != "OK":
                ctx.violation("%s: %s %s" % (q, r.status, list(r)[:1]), requests=[q])
                continue
            text = r[-1]
            if text.startswith("!ERR:"):
                if op == "reparse" or op == "into" or not any(s in h[0] for s in ("<", "PI")):
                    ctx.violation("%s fails: %s" % (q, text), requests=[q])
                continue
            m = model
            ns = nsub
            if op.startswith("subst"):
                _, n, rep = op.split("|")
                m = substitute(model, {n: parse(rep)})
                ns += 1
            key = (text, show(strip(m), True))
            if key in seen:
                continue
            seen.add(key)
            try:
                got = parse(text)
            except ValueError as ex:
                ctx.violation("%s prints %r, which cannot be read: %s" % (q, text, ex), requests=[q])
                continue
            if not same_values(values(m), values(got)):
                ctx.violation("%s: value changed: %s is %s, expected that of %s" % (q[1:], text, [str(v) for v in values(got)], show_min(m)), requests=[q])
                continue
            new.append((h, m, ns))
        levels.append(len(new))
        everything += new
        frontier = new
        if ctx.quick and level == 1:
            frontier = [f for f in new if f[0][0] in deep]
    # the tree in memory has the value of its text
    ev, exp = [], []
    for h, m, ns in everything[:: (12 if ctx.quick else 4)]:
        if any(t in h[0] for t in ("<", ">", "mul_add")):
            continue  # not numbers, or not a function the evaluator knows
        env = ENVS[0]
        v = values(m, [env])[0]
        if v is None:
            continue
        s = "subst" + "".join("|%s|%s" % (n, "(%s) / %s" % (val.numerator, val.denominator)) for n, val in env.items())
        ev.append(["seq", h[0]] + list(h[1:]) + [s, "eval|60"])
        exp.append(v)
    for q, v, r in zip(ev, exp, core.vh(ev)):
        ok = r.status == "OK" and not r[-1].startswith("!ERR:")
        if ok:
            g = to_mp(text_value(r[-1]))
            ok = abs(g - to_mp(v)) < MPF(10) ** -50
        if not ok:
            ctx.violation("%s: evaluates to %s, expected %s" % (q[1:], list(r)[-1:], mpmath.nstr(to_mp(v), 20)), requests=[q])
    ctx.count(states=len(seen), transitions=transitions + len(ev), traces=transitions + len(ev))
    ctx.note("start_expressions", len(starts))
    ctx.note("new_states_per_level", levels)
    ctx.note("depth", depth)
    ctx.note("evaluated_in_memory", len(ev))
    for h, m, ns in frontier[:: max(1, len(frontier) // 8)]:
        ctx.sample(list(h))


def substitute(e, env):
    """Simultaneous substitution on trees (the model)."""
    k = e[0]
    if k == "path":
        return env.get(e[1], e)
    if k == "paren":
        return ("paren", substitute(e[1], env))
    if k == "un":
        return ("un", e[1], substitute(e[2], env))
    if k == "bin":
        return ("bin", e[1], substitute(e[2], env), substitute(e[3], env))
    if k == "call":
        return ("call", substitute(e[1], env), e[2], tuple(substitute(a, env) for a in e[3]))
    if k == "field":
        return ("field", substitute(e[1], env), e[2])
    return e


# ---------------------------------------------------------------- E05
def monomials(e, sign=1):
    """The signed products of a division-free expression, multiplied out."""
    e = strip(e)
    k = e[0]
    if k == "bin" and e[1] in "+-":
        return monomials(e[2], sign) + monomials(e[3], sign if e[1] == "+" else -sign)
    if k == "un" and e[1] == "-":
        return monomials(e[2], -sign)
    if k == "bin" and e[1] == "*":
        return [(s1 * s2, tuple(sorted(f1 + f2))) for s1, f1 in monomials(e[2], sign) for s2, f2 in monomials(e[3])]
    return [(sign, (show(e, True),))]


def not_multiplied_out(e):
    """A product or negation of a sum (or of a product, for negation outside the first factor) left in a text."""
    while e[0] == "paren":
        e = e[1]
    k = e[0]
    if k == "bin" and e[1] in "+-":
        return not_multiplied_out(e[2]) or not_multiplied_out(e[3])

    def has_sum(t):
        t = strip(t)
        if t[0] == "bin" and t[1] in "+-":
            return True
        if t[0] == "bin" and t[1] == "*":
            return has_sum(t[2]) or has_sum(t[3])
        if t[0] == "un" and t[1] == "-":
            return has_sum(t[2])
        return False
    if k == "un" and e[1] == "-" or k == "bin" and e[1] == "*":
        return has_sum(e)
    return False


def check_E05(ctx):
    x, y, one, two = VAR("x"), VAR("y"), NUM("1"), NUM("2.5")
    sets = []
    sets.append(upto(3, (x, y, one), ("+", "-", "*"), ("-",)))
    sets.append(trees(4, (x, one), ("+", "-", "*"), ("-",)) if not ctx.quick else trees(4, (x,), ("+", "-", "*"), ("-",)))
    sets.append(upto(3, (x, y), ("+", "*", "/"), ("-",)))
    sets.append(trees(2, (x, two, ("call", x, "abs", ())), ("+", "-", "*"), ("-",), (("recip", 0),)))
    if not ctx.quick:
        sets.append(trees(5, (x,), ("+", "-", "*"), ("-",)))
    # wide: products of sums of up to four terms, three factors deep
    wide = []
    sums = ["(x + 1)", "(x - y)", "(x - y - 1)", "(1 - (x - y))", "(x + y * 2 - 1)", "(-x)", "(-x - 1)", "x", "(-(x + 1))", "((x + y))", "(x / 2)",
            "(x - y / 2)", "((x - 1) * (y + 1))", "(x - (y - (1 - x)))"]
    for a in sums:
        for b in sums:
            wide += [a + " * " + b, "-" + a + " * " + b, a + " - " + b, a + " * -" + b]
            if not ctx.quick or len(a + b) < 18:
                for c in sums:
                    wide += [a + " * " + b + " * " + c, a + " * (" + b + " * " + c + ")", a + " - " + b + " * " + c]
    for n in range(2, 7):
        wide += [" * ".join((["(x - 1)", "(y + x)"] * n)[:n]), " * ".join(["(x - y)"] * n), "x * " * (3 * n) + "(x - 1)", "(1 - y)" + " * x" * (3 * n), "-(1 - x)" + " * -(x - y)" * (n - 1)]
    wide += [t for t in long_texts("x", "y", call=None) if not (t.count("*") > 6 and "(" in t and t.count("-") + t.count("+") > 6)]
    for n in (7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 47, 63, 64, 65, 66, 100, 127, 128, 129, 200) + (() if ctx.quick else (255, 256, 257, 300)):
        long = "(" + "x" + "".join(" %s %s" % ("-+"[i % 3 % 2], ("y", "1", "x", "x * y", "-y")[i % 5]) for i in range(n - 1)) + ")"
        wide += ["y * " + long, long + " * y", "(x - 1) * " + long, long + " * (x - 1)", "-" + long, "y - " + long, "x - (y - 1) * " + long, "x - " + long + " * -(y - 1)", "x * " * (n - 1) + "(y - 1)",
                 "x" + " * y" * (n - 1) + " * (1 - x)"]
        if n <= 34:
            wide += [long + " * " + long, "-(" + long + " * (x - y)) * y"]
    sets.append([parse(t) for t in wide])
    reqs, models, seen = [], [], set()
    for batch in sets:
        for e in batch:
            for t in (show_min(e), "(" + show(e, True) + ")"):
                if t not in seen:
                    seen.add(t)
                    reqs.append(["seq", t, "expand"])
                    models.append(parse(t))
    terms = 0
    for q, m, r in zip(reqs, models, core.vh(reqs)):
        text = r[-1]
        if r.status != "OK" or text.startswith("!ERR:"):
            ctx.violation("expand of %s: %s %s" % (q[1], r.status, text), requests=[q])
            continue
        try:
            got = parse(text)
        except ValueError as ex:
            ctx.violation("expand of %s prints %r, which cannot be read: %s" % (q[1], text, ex), requests=[q])
            continue
        if not_multiplied_out(got):
            ctx.violation("expand of %s gives %s: a product or negation of a sum is left" % (q[1], text), requests=[q])
            continue
        if "/" in q[1] or "abs" in q[1] or "recip" in q[1]:
            ok = same_values(values(m), values(got))
        else:
            a, b = sorted(monomials(m)), sorted(monomials(got))
            terms += len(a)
            ok = a == b
        if not ok:
            ctx.violation("expand of %s gives %s, which is not the sum of its products" % (q[1], text), requests=[q])
    ctx.count(states=len(seen), transitions=len(reqs), traces=len(reqs))
    ctx.note("terms_compared", terms)
    for q in reqs[:: max(1, len(reqs) // 8)]:
        ctx.sample(q[1])


METHODS = ("abs signum recip round powi powf sqrt exp exp2 ln log log2 log10 sin cos tan asin acos atan erf erfc dnorm pnorm qnorm round_ieee floor mul_add min max "
           "copysign select to_bits from_bits other x y").split()


# ---------------------------------------------------------------- E06
def bare_operand(e):
    """An operator that is a direct, unparenthesised operand of another, if any."""
    k = e[0]
    if k == "paren":
        return bare_operand(e[1])
    if k == "un":
        return e if e[2][0] in ("un", "bin") else bare_operand(e[2])
    if k == "bin":
        for s in e[2:]:
            if s[0] in ("un", "bin"):
                return e
        return bare_operand(e[2]) or bare_operand(e[3])
    if k == "call":
        for s in (e[1],) + e[3]:
            b = bare_operand(s)
            if b:
                return b
    if k == "field":
        return bare_operand(e[1])
    return None


def check_E06(ctx):
    x, y = VAR("x"), VAR("y")
    allops = ("+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "==", "!=", "<", ">", "<=", ">=", "&&", "||")
    sets = [upto(2, (x, NUM("1.5")), allops, ("-", "!", "*")),
            upto(3, (x,), ("+", "-", "*", "/"), ("-",)), upto(4, (x,), ("-", "*", "<") if ctx.quick else ("+", "-", "*", "/", "<", "&&"), ("-",)),
            trees(3, (x,), ("-", "*", "<", "&&", "|"), ("-", "!")),
            trees(2, (x, y), ("+", "*"), ("-",), (("abs", 0), ("powf", 1), ("mul_add", 2))),
            trees(3, (x,), ("-", "*"), ("-",), (("abs", 0), ("powf", 1)))]
    if not ctx.quick:
        sets += [trees(5, (x,), ("-", "*"), ("-",)), trees(3, (x,), allops, ("-", "!")), trees(4, (x,), ("-", "<", "|"), ("!",))]
    ms = []
    for m in METHODS:
        ms += ["-x.%s()" % m, "(-x).%s() * x" % m, "x.%s(-y)" % m, "x.%s(-(-y))" % m, "x.%s(x * y - 1) - 1" % m, "1 - x.%s(1 - y.%s(-x * y) - 1)" % (m, m), "(x - y - 1).%s()" % m,
               "x.%s(x + y * x, -x * y)" % m, "(x * y + x).%s(1, x - y - 1).%s()" % (m, m), "x.%s(x < y - 1)" % m, "- - x.%s(! ! y)" % m]
    ms += list(long_texts("x", "y", ("-", "*", "/", "<<", "&&", "|")))
    sets.append([parse(t) for t in ms])
    reqs, seen = [], set()
    for batch in sets:
        for e in batch:
            for t in (show_min(e), "(" + show_min(e) + ")", show(e, True)):
                if t in seen:
                    continue
                seen.add(t)
                reqs.append(["seq", t, "paren", "paren", "reparse"])
    good = core.vh([["parse", q[1]] for q in reqs])
    n = 0
    for q, g, r in zip(reqs, good, core.vh(reqs)):
        if g.status != "OK":
            continue
        n += 1
        if r.status != "OK" or r[-1].startswith("!ERR:") or len(r) != 4:
            ctx.violation("paren of %s: %s %s" % (q[1], r.status, list(r)), requests=[q])
            continue
        try:
            src, once = parse(r[0]), parse(r[1])
        except ValueError as ex:
            ctx.violation("paren of %s prints %r: %s" % (q[1], r[1], ex), requests=[q])
            continue
        b = bare_operand(once)
        if b:
            ctx.violation("paren of %s gives %s: the operands of %s are not in parentheses" % (q[1], r[1], show(b)), requests=[q])
        elif strip(src) != strip(once):
            ctx.violation("paren of %s gives %s: not the same expression" % (q[1], r[1]), requests=[q])
        elif r[1] != r[2]:
            ctx.violation("paren of %s twice gives %s, once gives %s" % (q[1], r[2], r[1]), requests=[q])
        elif r.noise:
            ctx.violation("paren of %s prints %r" % (q[1], r.noise[:200]), requests=[q])
    ctx.count(states=len(seen), transitions=3 * n, traces=n)
    for q in reqs[:: max(1, len(reqs) // 8)]:
        ctx.sample(q[1])


# ---------------------------------------------------------------- E07
def check_E07(ctx):
    nums = ["0", "1", "2", "3", "0.5", "0.1", "1.234", "1e3", "2.5e-3", "7u8", "3f32", "0x1f", "1_000", "1e-30", "12345678901234567890123", "99.99",
            "100", "0.25f64", "0.0"]
    syms = ["x", "-x", "x + 1", "x - 1", "x * y", "x / y", "x.abs()", "(x)", "-(x - 1)", "PI", "x - y - 1", "x / y / 2", "-1.5", "-x * y", "x.mul_add(y, 1)",
            "-x.abs()", "(x - 1) * (y + 1)"]
    allv = nums + syms
    reqs = [["op", o, a, b] for o in ARITH for a in allv for b in allv]
    chain = []
    c1 = ["2", "0.5", "x", "x - 1", "-y", "x / y", "0", "x * y", "1e-3", "y + 1"] + ([] if ctx.quick else ["-2.5", "(x + 1)", "x.sqrt()", "12u8", "-(x - y)"])
    for a in c1:
        for o1 in ARITH:
            for b in c1:
                for o2 in ARITH:
                    for c in c1:
                        for side in ("op", "rop"):
                            chain.append(["seq", a, "op|%s|%s" % (o1, b), "%s|%s|%s" % (side, o2, c), "reparse"])
    long_chains = [["seq", a] + ["%s|%s|%s" % (sides[i % len(sides)], os[i % len(os)], cs[i % len(cs)]) for i in range(n)] + ["reparse"]
                   for a in ("2", "x") for n in (8, 16, 30) for sides in (("op",), ("rop",), ("op", "rop")) for os in (("+",), ("-",), ("*",), ("/",), ("-", "/"), ("*", "-", "+"), ("/", "*"))
                   for cs in (("x - 1",), ("0.5", "3"), ("x", "2", "-y"))]
    for q, r in zip(long_chains, core.vh(long_chains)):
        m = parse(q[1])
        for st in q[2:-1]:
            side, o, c = st.split("|")
            m = ("bin", o, m, parse(c)) if side == "op" else ("bin", o, parse(c), m)
        ok = r.status == "OK" and not r[-1].startswith("!ERR:")
        if ok:
            vs = [[v if v is None else to_mp(v) for v in values(e)] for e in (m, parse(r[-1]))]
            ok = all((a is None) == (b is None) and (a is None or abs(a - b) <= abs(a) * MPF(10) ** -80) for a, b in zip(*vs))
        if not ok:
            ctx.violation("%s gives %s" % (q[1:6], [t[:200] for t in list(r)[-1:]]), requests=[q])
    chain_n = len(long_chains)
    n_exact = 0
    for q, r in zip(reqs, core.vh(reqs)):
        o, a, b = q[1:]
        ta, tb = parse(a), parse(b)
        if r.status != "OK":
            ctx.violation("%s %s %s: %s %s" % (a, o, b, r.status, list(r)), requests=[q])
            continue
        try:
            got = parse(r[0])
        except ValueError:
            ctx.violation("(%s) %s (%s) prints %r, which cannot be read" % (a, o, b, r[0]), requests=[q])
            continue
        m = ("bin", o, ta, tb)
        if a in nums and b in nums and not (o == "/" and value(tb) == 0):
            n_exact += 1
            w, g = value(m), value(got)
            ok = r[1] == "11" and (g == w if o != "/" else abs(g - w) <= abs(w) * F(1, 10 ** 90))
            if not ok:
                ctx.violation("%s %s %s is %s" % (a, o, b, r[0]), requests=[q])
        elif not same_values(values(m), values(got)) or values(m)[0] is None and not (o == "/" and strip(got)[:2] == ("bin", "/")):
            ctx.violation("(%s) %s (%s) is %s: not that value" % (a, o, b, r[0]), requests=[q])
        elif r[2] != "true":
            ctx.violation("(%s) %s (%s) is %s, which reads back as another expression" % (a, o, b, r[0]), requests=[q])
    for q, r in zip(chain, core.vh(chain)):
        a = parse(q[1])
        _, o1, b = q[2].split("|")
        side, o2, c = q[3].split("|")
        m = ("bin", o1, a, parse(b))
        m = ("bin", o2, m, parse(c)) if side == "op" else ("bin", o2, parse(c), m)
        ok = r.status == "OK" and not r[-1].startswith("!ERR:")
        if ok:
            v1, v2 = values(m), values(parse(r[-1]))
            if "/" in q[2] + q[3]:  # numbers are divided to a hundred digits
                v1, v2 = [v if v is None else to_mp(v) for v in v1], [v if v is None else to_mp(v) for v in v2]
            ok = same_values(v1, v2)
        if not ok:
            ctx.violation("%s gives %s" % (q[1:4], list(r)[-1:]), requests=[q])
    ctx.count(states=len(allv) + len(c1), transitions=len(reqs) + 2 * len(chain), traces=len(reqs) + len(chain) + chain_n)
    ctx.note("numeric_pairs", n_exact)
    for q in (reqs + chain)[:: max(1, len(reqs + chain) // 8)]:
        ctx.sample(q)


# ---------------------------------------------------------------- E08
def check_E08(ctx):
    x, y = VAR("x"), VAR("y")
    allops = ("+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "==", "!=", "<", ">", "<=", ">=", "&&", "||")
    sets = [upto(2, (x, NUM("1.5")), allops, ("-", "!", "*")),
            trees(3, (x,), allops[:14] if ctx.quick else allops, ("-", "!")),
            trees(2, (x, NUM("1"), NUM("1.")), ("+", "*"), ("-",), (("abs", 0), ("powf", 1), ("mul_add", 2))),
            trees(3, (x,), ("-", "*"), ("-",), (("abs", 0), ("powf", 1))),
            trees(4, (x,), ("-", "*"), ("-", "!"))]
    texts = set()
    for b in sets:
        for e in b:
            texts.add(show_min(e))
            texts.add(show(e, True))
    # every literal form and every kind of expression, alone and in each kind of place
    atoms = ["0", "1", "00", "1_0", "0x1F", "0xdead_beefu64", "0b10_1", "0o17i8", "1u8", "1usize", "1.0", "1.", "1e5", "1E5", "1e+5", "1.5e-5f32", "1f32",
             "1_0.0_1", "1e400", "123456789012345678901234567890", "0.1f64", "true", "false", '"a b"', '"a\\"b\\n"', "'c'", "'\\''", "b'a'", 'b"ab"',
             'r"raw"', "r#\"ra\"w\"#", "x", "_x", "r#type", "a::b", "::a::b", "a::<f64>::b", "<T>::C", "<T as U>::C", "Vec::<f64>::new",
             "f()", "f(1)", "f(1, x)", "a::b(x)", "f(1,)", "x.y", "x.0", "x.0.1", "x.y.z", "x.m()", "x.m(1, y)", "x.m::<f64>(1)", "x?", "x.await",
             "[]", "[1]", "[1, 2, x]", "[0.0; 4]", "()", "(1,)", "(1, 2)", "(x)", "((x))", "x[0]", "x[i + 1]", "x as f64", "x as u8 as f64",
             "&x", "&mut x", "*x", "!x", "-x", "--x", "-1.5", "!-x", "|x| x", "|x, y| x + y", "move || 1", "|x: f64| -> f64 { x }",
             "{ 1 }", "{ let a = 1; a }", "{ f(); }", "if a { 1 } else { 2 }", "if a { 1 } else if b { 2 } else { 3 }", "if let Some(q) = x { q } else { 0 }",
             "match x { 0 => 1, _ => 2 }", "match x { Some(y) if y > 0 => { y } None => 0, _ => 1 }", "loop { break 1 }", "while a { b }", "for i in 0..4 { f(i) }",
             "unsafe { x }", "0..1", "0..=1", "..", "..1", "1..", "..=1", "x = 1", "x += 1", "x <<= 1", "return", "return 1", "break", "continue",
             "m!(1, 2)", "m![1]", "S { a: 1 }", "S { a, ..b }", "'a: loop { break 'a }", "async { 1 }", "x as fty", "f32::from_bits(0x3f800000u32)"]
    # what a string holds is no code, however much it looks like it
    bits = [" . ", " ; ", " , ", "( ", " )", " :: ", "  ", " -> ", " & ", " ! ", " + 1", "// ", "/* */", " { ", " } ", "\\n", "\\t", "1.50", "x y", " < ", " > ", "' '", " [ ", " ] ", " - ", "e0 ", " . (", ") . "]
    atoms += ['"%s%s%s"' % (a, b, c) for a in ("", "a") for b in bits for c in ("", "b")] + ['r"%s"' % b for b in bits if "\\" not in b] + ['b"%s"' % b for b in bits]
    places = ["%s", "(%s)", "(%s) + 1", "1 - (%s)", "-(%s)", "(%s).abs()", "f(%s)", "x.powf(%s)", "[%s]", "x[%s]", "(%s) as f64", "{ %s }", "(%s, 1)",
              "if (%s) { 1 } else { 2 }", "|q| (%s)", "m!(%s)", "(%s)[0]", "(%s).y"]
    for a in atoms:
        for p in places:
            texts.add(p % a)
            for p2 in places:
                texts.add(p2 % (p % a))
                if not ctx.quick:
                    for p3 in places:
                        texts.add(p3 % (p2 % (p % a)))
    for a, b in (("x", "1.5"), ("f(x)", "x.y"), ("-1", "a[0]")):
        texts |= set(long_texts(a, b, ("-", "*", "/", "<<", "&&", "|")))
    for n in (9, 17, 40, 80):
        texts |= {"f(%s)" % ", ".join(["x", "1.5"] * n), "[%s]" % ", ".join(["-1"] * n), "x.m(%s)" % ", ".join("a%d" % i for i in range(n)), "::".join("p%d" % i for i in range(n)), "[" * n + "x" + "]" * n,
                  "f(" * n + "x" + ")" * n, "{ " * n + "x" + " }" * n, "7" * n * 4, "0." + "123456789" * n, "x" * n * 3, '"%s"' % ("ab " * n), "x as f64" + " as f32" * n, "if a { " * n + "x" + " } else { y }" * n}
    texts = sorted(texts)
    ok = [r.status == "OK" for r in core.vh([["parse", t] for t in texts])]
    reqs = [["roundtrip", t] for t, k in zip(texts, ok) if k]
    n = 0
    for q, r in zip(reqs, core.vh(reqs)):
        if r.status != "OK" or r[0] != "true" or r[1] != r[2]:
            ctx.violation("%s prints %r, which reads back as %s (%s)" % (q[1], r[1] if len(r) > 1 else "", r[2] if len(r) > 2 else r.status, r[0] if r else ""), requests=[q])
            continue
        # the model agrees that it is the same expression
        if any(w in q[1] for w in ("move", "return", "break", "async", "r#", "continue", ".0.1")):
            continue  # keywords the model does not read
        try:
            a = parse(q[1])
        except ValueError:
            continue
        n += 1
        try:
            same = strip(parse(r[1])) == strip(a) and parse(r[1]) == a
        except ValueError:
            same = False
        if not same:
            ctx.violation("%s prints %r: another expression" % (q[1], r[1]), requests=[q])
    ctx.count(states=len(texts), transitions=len(reqs), traces=len(reqs))
    ctx.note("compared_with_the_model", n)
    ctx.note("texts_not_expressions", len(texts) - len(reqs))
    for q in reqs[:: max(1, len(reqs) // 10)]:
        ctx.sample(q[1])


# ---------------------------------------------------------------- E09
def check_E09(ctx):
    reqs = []
    m64 = [0, 1, 2, 3, 0x8000000000000, 0xfffffffffffff, 0xffffffffffffe, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x123456789abcd, 0x999999999999a]
    m64 += [1 << i for i in range(2, 52)]
    for ex in range(0, 2047):
        for m in m64:
            for s in (0, 1):
                reqs.append(["from64", (s << 63) | (ex << 52) | m])
    m32 = [0, 1, 2, 3, 0x400000, 0x7fffff, 0x7ffffe, 0x555555, 0x2aaaaa, 0x123456, 0x19999a] + [1 << i for i in range(2, 22)]
    for ex in range(0, 255):
        for m in m32:
            for s in (0, 1):
                reqs.append(["from32", (s << 31) | (ex << 23) | m])
    for i in range(-2000, 2001):
        reqs.append(["from64", struct.unpack("<Q", struct.pack("<d", i / 8))[0]])
        reqs.append(["from64", struct.unpack("<Q", struct.pack("<d", i / 1000))[0]])
    n = len(reqs)
    for q, r in zip(reqs, core.vh(reqs)):
        bits = 64 if q[0] == "from64" else 32
        v = rexpr.float_value(q[1], bits)
        if r.status != "OK":
            ctx.violation("%s %#x: %s %s" % (q[0], q[1], r.status, list(r)), requests=[q])
            continue
        t = r[0]
        neg = t.startswith("-")
        try:
            lit = rexpr.literal(t.lstrip("- ").strip())
        except ValueError:
            lit = None
        back = int(r[1])
        if r[2] != r[1]:
            back = int(r[2])
        want = q[1] if v != 0 else 0
        isfloat = "." in t or "e" in t or "f" in t
        if lit is None or not isfloat or rexpr.round_float(-lit if neg else lit, bits) != want or back != want:
            ctx.violation("%s %#x (%s) becomes %s and comes back as %#x" % (q[0], q[1], float(v), t[:60], back), requests=[q])
    # whole sweeps inside the server
    sweeps = []
    if ctx.quick:
        for k in range(8):
            sweeps.append(["sweep32", 0x9e3779b1 * k & 0xffffffff, 65537 * 3 + 2, 12000])
            sweeps.append(["sweep64", (0x9e3779b97f4a7c15 * k) & (2 ** 64 - 1), 0x0005_0123_4567_89ab + k, 6000])
    else:
        # every f32 of 24 binades (both sides of the exponent's shape) and a lattice over the rest
        for ex in (0, 1, 2, 50, 90, 100, 110, 118, 120, 122, 124, 125, 126, 127, 128, 130, 134, 140, 149, 150, 151, 152, 200, 254):
            for part in range(8):
                sweeps.append(["sweep32", (ex << 23) + part * (1 << 20), 1, 1 << 20])
        for k in range(64):
            sweeps.append(["sweep64", (0x9e3779b97f4a7c15 * k) & (2 ** 64 - 1), 0x0005_0123_4567_89ab + k, 60000])
    for q, r in zip(sweeps, core.vh(sweeps, stall=600, chunk=1)):
        if r.status == "OK":
            n += int(r[0])
        if r.status != "OK" or len(r) > 1:
            ctx.violation("%s: %s" % (q[0], r.status + " " + (hex(int(r[1])) if len(r) > 1 else "") + " does not survive conversion"), requests=[q])
    # decimals and literals
    decs = []
    for s in range(0, 9):
        for k in list(range(0, 120)) + [10 ** i for i in range(0, 40, 4)] + [999999999, 123456789, 2 ** 64, 2 ** 64 + 1, 5 ** 30]:
            for sg in ("", "-"):
                decs.append("%s%de-%d" % (sg, k, s * 5))
                decs.append("%s%de%d" % (sg, k, s * 5))
    rq = [["frombd", d] for d in decs]
    for q, r in zip(rq, core.vh(rq)):
        if r.status != "OK" or r[1] != "true" or r[2] != "true" or "." not in r[0]:
            ctx.violation("decimal %s becomes %s: %s" % (q[1], r.status, list(r)), requests=[q])
    lits = ["0", "1", "7u8", "1_000", "0x1f", "0b101", "0o17", "1.", "1.5", "1e3", "1.5e-3", "1_0.0_1", "3f32", "0.1f32", "0.1", "16777217.0", "1e-46", "5e-324", "1e39",
            "9007199254740993", "0.30000000000000004", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880.0"]
    # every form of literal: digits, point, exponent, suffix
    for m in ("0", "1", "10", "100", "1.0", "1.50", "10.0", "100.00", "0.10", "0.05", "1_000.0", "2.5", "120", "0.0", "00.10", "9007199254740993.0", "123456789.123456789", "16777217", "99999999999999999999.5"):
        for ex in ("", "e0", "e1", "e10", "e20", "e-10", "e-1", "e-20", "e+10", "E10", "e100", "e-100", "e30", "e-30", "e05", "e-05", "e1_0", "e_1"):
            for sf in ("", "f32", "f64"):
                lits.append(m + ex + sf)
    lits += ["1.", "10.", "100.", "1_0.", "7u8", "70u64", "100i32", "0x10", "0x100u32", "0b100", "0o70", "1000000", "1_000_000"]
    rq = [["tonum", t] for t in lits]
    for q, r in zip(rq, core.vh(rq)):
        v = rexpr.literal(q[1])
        w64, w32 = rexpr.round_float(v, 64), rexpr.round_float(v, 32)
        w64 = 0x7ff0000000000000 if w64 is None else w64
        w32 = 0x7f800000 if w32 is None else w32
        ok = r.status == "OK" and r[2] != "-" and F(r[2]) == v and r[0] == str(w64) and r[1] == str(w32)
        if not ok:
            ctx.violation("the literal %s has the numbers %s" % (q[1], list(r)), requests=[q])
    for t in ['"s"', "x", "1 + 1", "true", "(1)", "-1", "'c'"]:
        r = core.vh([["tonum", t]])[0]
        if r.status != "OK" or list(r) != ["-", "-", "-"]:
            ctx.violation("%s is no literal number but converts to %s" % (t, list(r)), requests=[["tonum", t]])
    ctx.count(states=n, transitions=n + len(rq) + len(decs), traces=n)
    ctx.note("floats", n)
    for q in reqs[:: len(reqs) // 8]:
        ctx.sample("%s %#x" % (q[0], q[1]))


# ---------------------------------------------------------------- E10
def exact_decimal(v):
    """A Fraction with a power-of-two denominator as an exact decimal text."""
    n, d = v.numerator, v.denominator
    k = d.bit_length() - 1
    assert d == 1 << k
    digits = str(abs(n) * 5 ** k)
    if k:
        digits = digits.rjust(k + 1, "0")
        digits = digits[:-k] + "." + digits[-k:]
    else:
        digits += ".0"
    return digits


def float_texts(bits, quick):
    """Literals at, and just beside, floats and midpoints between neighbouring floats of every size."""
    mant = 23 if bits == 32 else 52
    maxe = 254 if bits == 32 else 2046
    ms = [0, 1, (1 << mant) - 1, 1 << (mant - 1), (0x5555555555555555 >> (64 - mant))]
    exps = list(range(0, maxe + 1)) if bits == 32 else sorted(set(range(0, maxe + 1, 31 if quick else 3)) | set(range(960, 1090)) | {0, 1, 2, maxe - 1, maxe})
    for ex in exps:
        for m in ms:
            enc = (ex << mant) | m
            a = rexpr.float_value(enc, bits)
            if ex == maxe and m == (1 << mant) - 1:
                b = a + (a - rexpr.float_value(enc - 1, bits))
            else:
                b = rexpr.float_value(enc + 1, bits)
            mid = (a + b) / 2
            t = exact_decimal(mid)
            yield exact_decimal(a)
            yield t
            yield t + "00001"                      # just above the midpoint
            q = a + (b - a) * F((1 << 70) - 1, 1 << 71)  # just below
            yield exact_decimal(q)


def check_E10(ctx):
    texts = []
    for bits in (32, 64):
        texts += list(float_texts(bits, ctx.quick))
    texts += ["0.0", "1.0", "0.1", "1e-400", "1e-46", "1e38", "3.4028236e38", "1e39", "1e308", "1e309", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "7e-46",
              "1.5f32", "1.5f64", "0.1f32", "1_0.5", "1.", "1e5", "3.14159265358979323846264338327950288"]
    ints = [str(i) for i in range(0, 300)] + [str((1 << k) + d) for k in range(10, 130) for d in (-1, 0, 1)] + ["0x10", "7u8", "0b11", "1_000", "0o17", "16777217", "16777219"]
    for m, e in ((24, 104), (53, 971)):  # about the largest number of each size, and far beyond
        top = ((1 << m) - 1) << e
        ints += [str(top), str(top + (1 << e - 1) - 1), str(top + (1 << e - 1)), str(top + (1 << e)), str(10 ** 39), str(10 ** 308), str(10 ** 309), str(1 << 1023), str(10 ** 400)]
    texts = list(dict.fromkeys(texts + ints))
    modes = [("decimal", 32), ("decimal", 64), ("hex", 32), ("hex", 64)]
    reqs = [["seq", t, "unt|%s|%d" % m, "reparse"] for t in texts for m in modes]
    meta = [(t, m) for t in texts for m in modes]
    over = 0
    for q, (t, (ty, bits)), r in zip(reqs, meta, core.vh(reqs)):
        v = rexpr.literal(t)
        want = rexpr.round_float(v, bits)
        text = r[1] if len(r) > 1 else r.status
        if want is None:
            over += 1
            if not text.startswith("!ERR:"):
                ctx.violation("%s as %s %d is %s, but it is too large for that type" % (t[:60], ty, bits, text[:80]), requests=[q])
            continue
        ok = r.status == "OK" and not text.startswith("!ERR:")
        if ok:
            try:
                e = parse(text)
                if ty == "hex":
                    ok = e[0] == "fn" and e[1] == ("path", "f%d::from_bits" % bits) and len(e[2]) == 1 and rexpr.literal(e[2][0][1]) == want \
                        and not e[2][0][1].endswith(("f32", "f64"))
                else:
                    ok = e[0] == "num" and e[1].endswith("f%d" % bits) and rexpr.round_float(rexpr.literal(e[1]), bits) == want
            except (ValueError, IndexError, TypeError):
                ok = False
        if not ok:
            ctx.violation("%s as %s %d is %s; the nearest value has the bits %#x" % (t[:80], ty, bits, text[:120], want), requests=[q])
    # in place: only the numbers change
    forms = ["x + %s", "(%s) * x", "-%s", "x.mul_add(%s, y)", "%s", "f64::consts::PI * %s", "-(%s - x.y)", "x < %s", "x.powf(-%s)"]
    forms += [f.replace("$", m) for m in METHODS for f in ("x.$(%s)", "(%s).$()", "x.$(%s, y)", "x.$(y, %s)", "x - y.$(-%s * x)", "x.$(y.$(%s))")]
    forms += [u % (a % b) for u in ("%s", "-%s", "x - %s", "%s * x", "y.m(%s)", "(%s)", "-(%s)", "(%s).z") for a in ("(%s)", "-(%s)", "((%s))", "(-(%s))", "-(-(%s))", "!(%s)", "-(%s).abs()", "(%s).x")
              for b in ("%s", "-%s", "(%s)", "x", "x.y", "x.abs()", "x * %s", "-x") if "%s" in b] + [
        a % b + " + %s" for a in ("(%s)", "-(%s)", "((%s))", "-(-(%s))", "!(%s)", "(%s).abs()", "y.m((%s))", "x.m(-(%s))") for b in ("x", "x.y", "x.abs()", "x * y", "-x", "!x", "x::y", "true", "'a'")]
    nums = ["0.1", "1", "16777217", "2.5", "1e-3", "0.1f64", "3f32"]
    rq, mt = [], []
    for f in forms:
        for n in nums:
            for m in modes:
                rq.append(["seq", f % n, "unt|%s|%d" % m])
                mt.append((f, n, m))
    for q, (f, n, (ty, bits)), r in zip(rq, mt, core.vh(rq)):
        w = rexpr.round_float(rexpr.literal(n), bits)
        got = parse(r[1]) if r.status == "OK" and not r[1].startswith("!ERR:") else None
        found = []

        def blank(e):
            if e[0] == "num":
                found.append(rexpr.round_float(rexpr.literal(e[1]), bits) if e[1].endswith("f%d" % bits) else None)
                return ("num", "@")
            if e[0] == "fn":
                found.append(int(rexpr.literal(e[2][0][1])) if e[1][1] == "f%d::from_bits" % bits else None)
                return ("num", "@")
            return tuple(blank(c) if isinstance(c, tuple) and c and isinstance(c[0], str) else
                         tuple(blank(d) for d in c) if isinstance(c, tuple) else c for c in e)
        ok = got is not None and blank(got) == blank(parse(f % "1")) and found[:1] == [w]
        if not ok:
            ctx.violation("%s as %s %d is %s" % (q[1], ty, bits, list(r)[1:]), requests=[q])
    # every number of a long expression
    lt = [t for n in ("0.1", "7") for t in long_texts(n, "x")] + ["x.m(%s)" % ", ".join(["x", "0.1"] * n) for n in (9, 40)]
    lr = [["seq", t, "unt|%s|%d" % m] for t in lt for m in modes]
    for q, r in zip(lr, core.vh(lr)):
        bits = int(q[2].split("|")[2])
        src = parse(q[1])
        found = []

        def all_numbers(e):
            if isinstance(e, tuple) and e and e[0] == "num":
                found.append(rexpr.round_float(rexpr.literal(e[1]), bits) if e[1].endswith("f%d" % bits) else None)
            elif isinstance(e, tuple) and e and e[0] == "fn" and e[1][1] == "f%d::from_bits" % bits:
                found.append(int(rexpr.literal(e[2][0][1])))
            elif isinstance(e, tuple):
                for c in e:
                    all_numbers(c)
        want = []

        def wanted(e):
            if isinstance(e, tuple) and e and e[0] == "num":
                want.append(rexpr.round_float(rexpr.literal(e[1]), bits))
            elif isinstance(e, tuple):
                for c in e:
                    wanted(c)
        wanted(src)
        if r.status == "OK" and not r[1].startswith("!ERR:"):
            all_numbers(parse(r[1]))
        if found != want or not want:
            ctx.violation("%s as %s is %s" % (q[1][:150], q[2], list(r)[1:2]), requests=[q])
    ctx.count(states=len(texts), transitions=len(reqs) + len(rq) + len(lr), traces=len(reqs) + len(rq) + len(lr))
    ctx.note("too_large", over)
    for t in texts[:: max(1, len(texts) // 8)]:
        ctx.sample(t[:100])


# ---------------------------------------------------------------- E11
def bits64(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def poly_of(e, var="x"):
    """Coefficients (low to high) of a printed polynomial."""
    k = e[0]
    if k == "paren":
        return poly_of(e[1], var)
    if k == "num":
        return [rexpr.literal(e[1])]
    if k == "path":
        if e[1] != var:
            raise EvalError(e[1])
        return [F(0), F(1)]
    if k == "un":
        return [-c for c in poly_of(e[2], var)]

    def add(a, b):
        n = max(len(a), len(b))
        return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]

    def mul(a, b):
        out = [F(0)] * (len(a) + len(b) - 1)
        for i, p in enumerate(a):
            for j, q in enumerate(b):
                out[i + j] += p * q
        return out
    if k == "bin":
        a, b = poly_of(e[2], var), poly_of(e[3], var)
        if e[1] == "+":
            return add(a, b)
        if e[1] == "-":
            return add(a, [-c for c in b])
        if e[1] == "*":
            return mul(a, b)
    if k == "call" and e[2] == "mul_add":
        a, b, c = poly_of(e[1], var), poly_of(e[3][0], var), poly_of(e[3][1], var)
        return add(mul(a, b), c)
    raise EvalError("not a polynomial: " + show(e))


def horner(c, x):
    y = F(0)
    for t in reversed(c):
        y = y * x + t
    return y


def check_E11(ctx):
    mpmath.mp.dps = 190
    cases = []
    ivs = [(0.0, 1.0), (-1.0, 1.0), (-0.5, 0.5), (0.25, 3.0), (-2.0, -0.5), (0.1, 0.7), (-1.0, 3.0), (-2.5, 0.5)]
    # polynomials of low degree are reproduced
    polys = ["1", "x", "x * x - 2", "1 - x * 3 + x * x * x / 2", "0.1 * x - 0.5", "x * x * x * x - x", "2.5", "(x - 1) * (x + 2) * (x - 3)", "x * (x * x - 0.3)",
             "x * x * x * x * 0.125 + x * x", "-x", "(0.3 - x) / 7"]
    deg = {"1": 0, "2.5": 0, "x": 1, "0.1 * x - 0.5": 1, "-x": 1, "(0.3 - x) / 7": 1, "x * x - 2": 2, "1 - x * 3 + x * x * x / 2": 3, "x * x * x * x - x": 4,
           "(x - 1) * (x + 2) * (x - 3)": 3, "x * (x * x - 0.3)": 3, "x * x * x * x * 0.125 + x * x": 4}
    for p in polys:
        for n in range(deg[p] + 1 if deg[p] else 2, 9):
            if n < 2:
                continue
            for lo, hi in ivs:
                for d in (20, 40):
                    for par in ("neither", "odd", "even"):
                        cases.append((p, n, lo, hi, par, d, True))
    fns = ["x.sin()", "x.cos()", "x.exp()", "(x + 3).ln()", "1 / (x + 4)", "(x + 3).sqrt()", "x.exp2()", "x.atan()", "x.sin() * x", "x.dnorm(0, 1)",
           "x.tan() / 2", "(x / 4).asin()"]
    for f in fns:
        for n in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12) if ctx.quick else (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20):
            for lo, hi in ivs + [(-1.5, 1.5)]:
                if "tan" in f and "atan" not in f and max(abs(lo), abs(hi)) > 1:
                    continue
                for par in ("neither", "odd", "even"):
                    for d in ((20, 40) if not ctx.quick else (20,) if (n // 2 + len(f)) % 2 else (40,)) + ((75, 120) if n in (3, 6, 9) else ()):
                        cases.append((f, n, lo, hi, par, d, False))
    bad = []
    for n in (0, 1):
        bad.append(("x", n, 0.0, 1.0, "neither", 20))
    for lo, hi in ((1.0, 1.0), (float("nan"), 1.0), (0.0, float("inf")), (float("-inf"), 0.0)):
        bad.append(("x + 1", 3, lo, hi, "neither", 20))
    for n, par in ((3, "odd"), (5, "odd"), (2, "even"), (4, "even")):
        bad.append(("x.sin()", n, -1.0, 1.0, par, 20))
    for f in ("x.ln()", "1 / x", "y + x", "x.nonsense()", "f(x)", "x < 1"):
        bad.append((f, 3, 0.0, 1.0, "neither", 20))
    reqs = [["approx", f, n, bits64(lo), bits64(hi), "x", par, d] for f, n, lo, hi, par, d, _ in cases]
    worst = worst_p = 0
    trees = {}
    ref = {}
    whole = {}
    for q, (f, n, lo, hi, par, d, is_poly), r in zip(reqs, cases, core.vh(reqs, stall=120)):
        if f not in trees:
            trees[f] = parse(f)
        tag = "approx of %s with %d terms on [%s, %s], %s, %d digits" % (f, n, lo, hi, par, d)
        if par == "odd" and n % 2 or par == "even" and n % 2 == 0:
            if r.status != "ERR":
                ctx.violation("%s: %s, expected an error about the number of terms" % (tag, r.status), requests=[q])
            continue
        if r.status != "OK":
            ctx.violation("%s: %s %s" % (tag, r.status, list(r)), requests=[q])
            continue
        try:
            c = poly_of(parse(r[0]))
        except (ValueError, EvalError) as ex:
            ctx.violation("%s gives %s: %s" % (tag, r[0][:100], ex), requests=[q])
            continue
        if len([1 for t in c[n:] if t]) or par == "odd" and any(c[0::2]) or par == "even" and any(c[1::2]):
            ctx.violation("%s: the coefficients %s do not have that shape" % (tag, [float(t) for t in c]), requests=[q])
            continue
        # one parity is what is left of the whole polynomial without the other powers
        if par == "neither":
            whole[f, n, lo, hi, d] = c
        elif (f, n, lo, hi, d) in whole:
            far = [k for k in range(n) if k % 2 == (par == "odd") and abs(([*c, *[0] * n][k]) - ([*whole[f, n, lo, hi, d], *[0] * n][k])) > F(10) ** (8 - d)]
            if far:
                ctx.violation("%s: its coefficient of power %d is not that of the polynomial through the Chebyshev points" % (tag, far[0]), requests=[q])
                continue
        # reference: the interpolating polynomial through Chebyshev-Lobatto points, as values
        key = (f, n, lo, hi)
        if key not in ref:
            a, b = (MPF(lo) + MPF(hi)) / 2, (MPF(hi) - MPF(lo)) / 2
            nodes = [a - b * mpmath.cos(mpmath.pi * i / (n - 1)) for i in range(n)]
            fv = [to_mp(value(trees[f], {"x": t})) for t in nodes]
            # barycentric weights of these points
            w = [(-1) ** i * (MPF(1) / 2 if i in (0, n - 1) else 1) for i in range(n)]
            grid = [MPF(lo) + (MPF(hi) - MPF(lo)) * k / 17 for k in range(18)]
            pv = []
            for g in grid:
                num = den = MPF(0)
                hit = None
                for t, y, ww in zip(nodes, fv, w):
                    if abs(g - t) < MPF(10) ** -100:
                        hit = y
                        break
                    num += ww * y / (g - t)
                    den += ww / (g - t)
                pv.append(hit if hit is not None else num / den)
            tv = [to_mp(value(trees[f], {"x": g})) for g in grid]
            ferr = max(abs(p - t) for p, t in zip(pv, tv))
            ref[key] = (grid, pv, tv, ferr)
        grid, pv, tv, ferr = ref[key]
        if par != "neither" and not (lo == -hi):
            continue  # keeping one parity is only meaningful on a symmetric range
        if par != "neither":
            m = -1 if par == "odd" else 1
            sym = all(abs(to_mp(value(trees[f], {"x": -g})) - m * t) < MPF(10) ** -60 for g, t in zip(grid, tv))
            if not sym:
                continue
        # rounding to d decimals is magnified by the differences of close points
        gap = min(MPF(1), (MPF(hi) - MPF(lo)) / 2)
        tol = MPF(10) ** -d * 100 * n * (4 / gap) ** n
        for g, p, t in zip(grid, pv, tv):
            got = to_mp(horner(c, F(int(mpmath.nint(g * 2 ** 600)), 2 ** 600)))
            lim = tol if is_poly else tol + ferr * 2
            err = abs(got - t)
            if not is_poly:
                worst = max(worst, float(err / lim))
            if err > lim:
                ctx.violation("%s: at %s it is %s, the function is %s (allowed error %s)" % (tag, mpmath.nstr(g, 8), mpmath.nstr(got, 25), mpmath.nstr(t, 25), mpmath.nstr(lim, 3)),
                              requests=[q])
                break
            # it is the interpolating polynomial itself, not merely close to the function
            worst_p = max(worst_p, float(abs(got - p) / tol))
            if abs(got - p) > tol:
                ctx.violation("%s: at %s it is %s, the polynomial through the Chebyshev points is %s (allowed error %s)" % (
                    tag, mpmath.nstr(g, 8), mpmath.nstr(got, 45), mpmath.nstr(p, 45), mpmath.nstr(tol, 3)), requests=[q])
                break
    rq = [["approx", f, n, bits64(lo), bits64(hi), "x", par, d] for f, n, lo, hi, par, d in bad]
    for q, r in zip(rq, core.vh(rq)):
        if r.status != "ERR":
            ctx.violation("approx %s: %s %s, expected an error" % (q[1:], r.status, list(r)), requests=[q])
    ctx.count(states=len(cases), transitions=len(reqs) + len(rq), traces=len(reqs) + len(rq))
    ctx.note("largest_share_of_the_allowed_error", round(worst, 4))
    ctx.note("largest_share_of_the_allowed_distance_from_the_interpolating_polynomial", round(worst_p, 4))
    for q in reqs[:: max(1, len(reqs) // 8)]:
        ctx.sample(q)


# ---------------------------------------------------------------- E12
def check_E12(ctx):
    pool = ["-3", "-1.5", "-1", "-0.25", "0", "0.5", "1", "2", "3.75", "10"]
    ys = ["0", "1", "-2", "0.125", "7"]
    reqs, meta = [], []
    d = 40
    import itertools as it
    for n in (1, 2, 3, 4, 5, 6) if ctx.quick else (1, 2, 3, 4, 5, 6, 7, 8, 9):
        combos = list(it.permutations(pool[:6] if n > 2 else pool, n)) if n <= 3 else list(it.combinations(pool, n))
        yv = list(it.product(ys, repeat=n)) if n <= 2 else [tuple(ys[(i * (k + 1) + k) % 5] for i in range(n)) for k in range(6)] + [("0",) * n, ("1",) * n] + \
            [tuple("1" if j == i else "0" for j in range(n)) for i in range(n)]
        for xs in combos:
            for y in yv:
                reqs.append(["poly", d, ";".join(a + "," + b for a, b in zip(xs, y)), ";".join(list(xs) + ["0.3", "-1.75"])])
                meta.append((xs, y, d))
    # other precisions, orders of the points, and many points
    for n, dd in [(2, 15), (3, 20), (4, 25), (5, 30), (5, 80), (6, 120), (8, 60), (12, 80), (16, 90), (20, 120)] + ([] if ctx.quick else [(24, 150), (32, 200), (48, 300)]):
        for scale in ("0.25", "1", "0.125") if n < 20 else ("0.25", "0.5"):
            xs = [str(F(i * 2 - n) * F(scale) + F(1, 8)) for i in range(n)]
            xs = [str(mpmath.mpf(F(t).numerator) / F(t).denominator) for t in xs]
            for order in (xs, xs[::-1], xs[1:] + xs[:1], xs[::2] + xs[1::2], xs[n // 2:] + xs[:n // 2][::-1]):
                for k in range(3):
                    y = [ys[(i * i * (k + 1) + k) % 5] for i in range(n)]
                    reqs.append(["poly", dd, ";".join(a + "," + b for a, b in zip(order, y)), ";".join(list(order) + ["0.3", "-1.75"])])
                    meta.append((tuple(order), tuple(y), dd))
    worst = 0
    for q, (xs, y, d), r in zip(reqs, meta, core.vh(reqs)):
        if r.status != "OK":
            ctx.violation("polynomial through %s: %s %s" % (q[2], r.status, list(r)), requests=[q])
            continue
        terms = [F(t) for t in r[0].split(";")]
        ev = [F(t) for t in r[1].split(";")]
        X, Y = [F(a) for a in xs], [F(b) for b in y]
        n = len(X)
        # Lagrange
        def lag(p):
            s = F(0)
            for i in range(n):
                t = Y[i]
                for j in range(n):
                    if j != i:
                        t *= (p - X[j]) / (X[i] - X[j])
                s += t
            return s
        ok = len(terms) == n
        tol = F(1, 10 ** (d - 3 - 2 * n))
        for p, v in zip(X + [F("0.3"), F("-1.75")], ev):
            w = lag(p)
            worst = max(worst, float(abs(v - w) * 10 ** d))
            ok = ok and abs(v - w) <= tol and horner(terms, p) == v
        for i in range(n):
            ok = ok and abs(ev[i] - Y[i]) <= tol
        if not ok:
            ctx.violation("polynomial through %s has the terms %s and the values %s" % (q[2], r[0][:200], r[1][:200]), requests=[q])
    ctx.count(states=len(reqs), transitions=sum(len(m[0]) + 2 for m in meta), traces=len(reqs))
    ctx.note("worst_error_in_units", worst)
    for q in reqs[:: max(1, len(reqs) // 8)]:
        ctx.sample(q[2])


# ---------------------------------------------------------------- E13
def check_E13(ctx):
    reqs, meta = [], []
    for s in range(0, 6):
        lim = 1100 if ctx.quick else 12000
        for k in range(-lim, lim + 1):
            t = "%de-%d" % (k, s)
            for d in range(-1, 7):
                reqs.append(["round", t, d])
                meta.append(F(k, 10 ** s))
    extra = ["0.4999999999999999999999999", "0.5", "0.50000000000000000000001", "1.4999999999999999999999999999999999999999", "123456789.123456789123456789",
             "99999999999999999999.5", "99999999999999999999999999999999999999.99999999999999999999999999999999995", "0.0000000000000000000000000000000000000005",
             "0.00000000000000000000000000000000000000049999", "12345678901234567890123456789012345678901234567890.12345", "1e30", "-1e30", "1e-30"]
    for t in extra:
        for sg in ("", "-"):
            for d in list(range(0, 45)):
                reqs.append(["round", (sg + t).replace("--", ""), d])
                meta.append(F((sg + t).replace("--", "")))
    # many digits before or after the place that is rounded
    for d in (0, 1, 2, 5, 17, 33, 50, 64, 99, 100, 120):
        for more in (1, 2, 7, 16, 17, 31, 32, 39, 40, 41, 63, 64, 65, 99, 100, 101, 127, 128, 150, 255, 256, 300):
            for tail in ("5", "4", "6", "0", "9", "4" + "9" * (more - 1), "5" + "0" * (more - 2) + "1", "7" * more, "4" * more):
                for head in ("1." + "37" * (d // 2) + "2" * (d % 2), "-0." + "9" * d, "123456789012345678901234567890." + "0" * d):
                    t = (head + (tail + "0" * more)[:more])
                    reqs.append(["round", t, d])
                    meta.append(F(t))
    for q, v, r in zip(reqs, meta, core.vh(reqs)):
        d = q[2]
        ok = r.status == "OK"
        if ok:
            g = F(r[0])
            if d < 0:
                ok = g == v  # a negative number of decimals leaves the number as it is
            else:
                ok = g == F(rexpr.half_away(v * 10 ** d), 10 ** d)
        if not ok:
            ctx.violation("%s rounded to %d decimals is %s %s" % (q[1], d, r.status, list(r)), requests=[q])
    n = len(reqs)
    rq, mt = [], []
    for k in range(-200, 201):
        for den in (1, 2, 4, 10):
            t = dec(k, den)
            rq.append(["eval", "(%s).round()" % t, 20])
            mt.append(F(k, den))
    for t in extra:
        if "e" not in t:
            rq.append(["eval", "(%s).round()" % t, 20])
            mt.append(F(t))
    for q, v, r in zip(rq, mt, core.vh(rq)):
        if r.status != "OK" or text_value(r[0]) != rexpr.half_away(v):
            ctx.violation("%s is %s %s" % (q[1], r.status, list(r)), requests=[q])
    # to the nearest float
    ri = []
    for bits in (32, 64):
        for t in float_texts(bits, ctx.quick):
            for sg in ("", "-"):
                ri.append(["round_ieee", sg + t, bits])
    for q, r in zip(ri, core.vh(ri)):
        v, bits = F(q[1]), q[2]
        w = rexpr.round_float(v, bits)
        if w is None:
            ok = r.status == "ERR"
        else:
            ok = r.status == "OK" and F(r[0]) == rexpr.float_value(w, bits)
        if not ok:
            ctx.violation("%s rounded to f%d is %s %s" % (q[1][:80], bits, r.status, [x[:80] for x in r]), requests=[q])
    for b in ("0", "16", "33", "128", "-32", "32.5", "1e30"):
        r = core.vh([["round_ieee", "1.5", b]])[0]
        if r.status != "ERR" and not (b == "32.5"):
            ctx.violation("round_ieee to %s bits: %s" % (b, list(r)), requests=[["round_ieee", "1.5", b]])
    ev = []
    for t in ("0.1", "1", "(1 / 3)", "PI", "16777217", "(2 - 0.7)", "1e-50"):
        for bits in (32, 64):
            ev.append(["eval", "(%s).round_ieee(%d)" % (t, bits), 40])
    for q, r in zip(ev, core.vh(ev)):
        t, bits = q[1].rsplit(".round_ieee(", 1)[0], int(q[1].rsplit("(", 1)[1][:-1])
        v = value(parse(t))
        if not isinstance(v, F):
            v = F(int(mpmath.nint(v * 2 ** 300)), 2 ** 300)
        if r.status != "OK" or text_value(r[0]) != rexpr.float_value(rexpr.round_float(v, bits), bits):
            ctx.violation("%s is %s %s" % (q[1], r.status, list(r)), requests=[q])
    ctx.count(states=n + len(rq) + len(ri), transitions=n + len(rq) + len(ri) + len(ev), traces=n + len(rq) + len(ri) + len(ev))
    for q in (reqs + ri)[:: max(1, len(reqs + ri) // 8)]:
        ctx.sample([str(z)[:60] for z in q])


# ---------------------------------------------------------------- E14
def check_E14(ctx):
    x, y, z = VAR("x"), VAR("y"), VAR("z")
    sets = [upto(2, (x, y, NUM("1")), ("+", "-", "*", "/", "<"), ("-", "!"), (("abs", 0), ("powf", 1))),
            trees(3, (x, y), ("-", "*"), ("-",))]
    texts = []
    for b in sets:
        for e in b:
            texts.append(show_min(e))
    texts += ["x.y", "x.x", "y.x.x()", "x.x()", "x.x(x)", "a::x", "x::a + x", "a::x.x(a::x)", "xx + x", "(x)", "((x))", "X + x", "_x + x", "x.powf(y.x)", "-x.abs()", "-(x).y"]
    # every method, known or not, with variables in every place
    for m in METHODS:
        texts += ["%s.%s()" % (v, m) for v in ("x", "(x - y)", "1", "y.x")]
        texts += ["%s.%s(%s)" % (v, m, a) for v in ("x", "2", "(y - x)") for a in ("x", "y", "1", "-x", "x + y", "x.y", "x.abs()", "(x)", "z")]
        texts += ["%s.%s(%s, %s)" % (v, m, a, b) for v in ("x", "1") for a in ("x", "2", "x - y") for b in ("y", "x", "-y", "0.5")]
        texts += ["1 - x.%s(y).abs()" % m, "x.abs().%s(x.%s(y))" % (m, m)]
    texts = list(dict.fromkeys(texts))
    binds = [[("x", "y"), ("y", "x")], [("x", "x + 1")], [("x", "y - 1"), ("y", "2")], [("x", "-1")], [("x", "1"), ("x", "2")], [], [("z", "1")],
             [("y", "x * x"), ("x", "-y")], [("a::x", "x"), ("x", "a::x")], [("x", "(y)")], [("x", "y.abs()"), ("y", "a < b")], [("x", "-y.x")], [("y", "1 / x")],
             [("x", "f(x)")], [("x", "x as f64")], [("x", "!y")]]
    reqs, meta = [], []
    for t in texts:
        for b in binds:
            reqs.append(["seq", t, "subst" + "".join("|%s|%s" % p for p in b)])
            meta.append(b)
    many = [("v%d" % i, "v%d - %d" % ((i * 7 + 3) % 40, i)) for i in range(40)]
    for b in ([("x", "y - 1"), ("y", "x * 2")], many):
        u, v = ("x", "y") if b is not many else ("v39", "v20")
        for t in list(long_texts(u, v)) + [" - ".join("v%d" % i for i in range(40)), "x.m(%s)" % ", ".join(["x", "y"] * 20), "v0.m(%s)" % ", ".join("v%d" % i for i in range(40))]:
            reqs.append(["seq", t, "subst" + "".join("|%s|%s" % p for p in b)])
            meta.append(b)
    for q, b, r in zip(reqs, meta, core.vh(reqs)):
        env = {}
        for k, v in b:
            env.setdefault(k, parse(v))
        want = strip(substitute(parse(q[1]), env))
        try:
            got = strip(parse(r[1]))
        except (ValueError, IndexError):
            got = None
        if r.status != "OK" or got != want:
            ctx.violation("%s with %s is %s, expected %s" % (q[1], b, list(r)[1:], show(want, True)), requests=[q])
    ctx.count(states=len(texts), transitions=len(reqs), traces=len(reqs))
    for q in reqs[:: max(1, len(reqs) // 8)]:
        ctx.sample(q[1:])


# ---------------------------------------------------------------- E15
def check_E15(ctx):
    # atoms: (text, kind): l a literal that is no number, n a number, i an identifier, c a call, o anything else
    ints = ["0", "1", "00", "1_0", "0x1F", "0xdead_beefu64", "0b10_1", "0o17i8", "1u8", "1usize", "123456789012345678901234567890", "0_", "7i128"]
    floats = ["1.0", "1.", "1e5", "1E5", "1e+5", "1.5e-5f32", "1f32", "0f64", "1_0.0_1", "1e400", "0.1f64", "0e0", "1.0e-400"]
    lits = ["true", "false", '"a b"', '"1"', '"1.0"', '""', "'c'", "'1'", "b'a'", "b'1'", 'b"ab"', 'r"raw"', 'r#"1"#']
    idents = ["x", "_x", "r#type", "PI", "f", "abs", "true_", "e5", "_1", "f32", "self", "Self", "crate", "super"]
    others = ["a::b", "::a", "::a::b", "a::<f64>", "a::b::<f64>", "<T>::C", "<T as U>::C", "Vec::<f64>::new", "x.y", "x.0", "x.m()", "x.m(1, y)", "x.m::<f64>(1)", "f64::consts::PI", "self::x",
              "x?", "[]", "[1]", "()", "(1,)", "(1, 2)", "x[0]", "x as f64", "1 as f64", "&x", "&1", "*x", "!x", "!true", "-x", "-1", "-1.5", "--1", "|x| x", "|x| 1", "{ 1 }", "{ x }", "{ f(1) }",
              "if a { 1 } else { 2 }", "match x { _ => 1 }", "loop { break 1 }", "unsafe { 1 }", "0..1", "..", "x = 1", "x += 1", "return 1", "return", "break 1", "m!(1)", "m!()", "S { a: 1 }",
              "1 + 2", "1 * x", "x < 1", "f(1) + 1", "-f(1)", "&f(1)", "f(1)?", "f(1).x", "f(1).g()", "f(1) as f64", "x.f", "async { 1 }", "1.0.abs()", "1 .abs()"]
    calls = [("f", ()), ("f", ("1",)), ("f", ("1", "x")), ("f", ("x", "1", "-y")), ("g", ("f(1)",)), ("a::b", ("x",)), ("::f", ("1",)), ("f::<f64>", ("x",)), ("<T>::f", ("x",)), ("<T as U>::f", ()),
             ("(f)", ("x",)), ("f(1)", ("2",)), ("f()", ()), ("x.m(1)", ("y",)), ("(x.f)", ("1",)), ("x[0]", ("1",)), ("(|x| x)", ("1",)), ("f32::from_bits", ("0x3f800000u32",)), ("r#type", ("1",)),
             ("f", ("(1, 2)", "[3]", "(f(x, y))", "|a| a", "a + b", "a < b", '"s, t"'))]
    atoms = [(t, "n") for t in ints + floats] + [(t, "l") for t in lits] + [(t, "i") for t in idents] + [(t, "o") for t in others]
    places = [("(%s)", "o"), ("-(%s)", "o"), ("(%s) + 1", "o"), ("1 * (%s)", "o"), ("(%s).abs()", "o"), ("x.powf(%s)", "o"), ("[%s]", "o"), ("x[%s]", "o"), ("(%s) as f64", "o"), ("{ %s }", "o"), ("(%s,)", "o"),
              ("(%s)?", "o"), ("&(%s)", "o"), ("!(%s)", "o"), ("((%s))", "o"), ("(%s).y", "o"), ("if a { %s } else { 1 }", "o"), ("|q| (%s)", "o"), ("m!(%s)", "o")]
    cases = [(t, k, None) for t, k in atoms]
    cases += [("%s(%s)" % (f, ", ".join(a)), "c", (f, a)) for f, a in calls]
    cases += [("%s(%s,)" % (f, ", ".join(a)), "c", (f, a)) for f, a in calls if a]
    inner = [t for t, _ in atoms] + ["%s(%s)" % (f, ", ".join(a)) for f, a in calls]
    for t in inner:
        cases += [(p % t, k, None) for p, k in places]
        cases += [("%s(%s)" % (f, ", ".join(a)), "c", (f, a)) for f, a in (("f", (t,)), ("f", ("1", t)), ("a::f", (t, t, "x")), ("(%s)" % t, ("1",)), ("(%s)" % t, ()))]
        if True:
            for p, _ in places:
                cases += [(q % (p % t), "o", None) for q, _ in places]
                cases += [("f(%s)" % (p % t), "c", ("f", (p % t,))), ("f(%s, 2)" % (p % t), "c", ("f", (p % t, "2")))]
    seen = set()
    cases = [c for c in cases if not (c[0] in seen or seen.add(c[0]))]
    good = [c for c, r in zip(cases, core.vh([["parse", c[0]] for c in cases])) if r.status == "OK"]
    reqs = [["query", c[0]] for c in good]
    for q, (t, k, _), r in zip(reqs, good, core.vh(reqs)):
        want = [str(k in "nl").lower(), str(k == "n").lower(), "true"]
        if r.status != "OK" or list(r)[:3] != want:
            ctx.violation("%s says (literal, number, same tree) %s %s, expected %s" % (t, r.status, list(r)[:3], want), requests=[q])
    lost = len(cases) - len(good)
    if lost > len(cases) // 4:
        ctx.violation("only %d of %d expressions can be read" % (len(good), len(cases)))
    ctx.note("texts_not_expressions", lost)
    ctx.count(states=len(good), transitions=len(reqs), traces=len(reqs))
    for q in reqs[:: max(1, len(reqs) // 10)]:
        ctx.sample(q[1])


# ---------------------------------------------------------------- E16
def check_E16(ctx):
    names = ["x", "y", "a::x", "x::a", "xx", "::x"] if not ctx.quick else ["x", "y", "a::x", "::x", "xx"]
    values = ["1", "y + 1", "x", "(a * b) - c"]
    asked = ["x", "y", "a::x", "x::a", "xx", "::x", "z", "X", "a", "x::<f64>", "r#x"]
    depth = 4
    binds = [(n, v) for n in names for v in (values if not ctx.quick else values[:3])]
    printed = {t: r[0] for t, r in zip(values, core.vh([["parse", t] for t in values]))}
    every = asked + ["w%d" % i for i in range(64)]
    shown = {n: r[0] for n, r in zip(every, core.vh([["parse", n] for n in every]))}
    # every list of up to `depth` bindings (longer ones over two names)
    def lists():
        for d in range(0, depth + 1):
            if len(binds) ** d > 400000:
                break
            yield from itertools.product(binds, repeat=d)
        for d in range(depth, 8 if ctx.quick else 11):
            yield from itertools.product([("x", "1"), ("y", "y + 1")], repeat=d)
        for d in (12, 17, 33, 64):
            for first in ("x", "a::x", "y"):
                for last in asked:
                    yield [(first, "1")] + [("w%d" % i, "y + 1") for i in range(d)] + [(last, "x")]
    reqs, n = [], 0
    todo = [list(l) for l in lists()]
    for i in range(0, len(todo), 20000):
        part = todo[i:i + 20000]
        rq = [["vlist", "|".join(asked)] + ["%s=%s" % b for b in l] for l in part]
        for q, l, r in zip(rq, part, core.vh(rq)):
            want = []

            def show(k):
                text = "vars!(%s)" % ", ".join("%s = %s" % (shown[a], printed[b]) for a, b in l[:k])
                want.extend([text, text])
                for a in asked:
                    hit = [v for m, v in l[:k] if m == a]
                    want.append(printed[hit[0]] if hit else "-")
            show(0)
            for k in range(len(l)):
                want.append(str(k))
                show(k + 1)
            want.append("true")
            show(len(l))
            n += len(l) + 1
            if r.status != "OK" or list(r) != want:
                bad = next((j for j, (a, b) in enumerate(zip(r, want)) if a != b), -1)
                ctx.violation("adding %s: answer %d is %s, expected %s (%s)" % (l, bad, list(r)[bad:bad + 1], want[bad:bad + 1], r.status), requests=[q])
        reqs += rq[:1]
    ctx.count(states=len(todo), transitions=n, traces=len(todo))
    for l in todo[:: max(1, len(todo) // 8)]:
        ctx.sample(str(l))


# ---------------------------------------------------------------- E17
# Kinds of expression, each with the places of its parts.
VISIT = [("unary", "-%"), ("unary", "!%"), ("unary", "*%"), ("paren", "(%)"), ("field", "%.y"), ("field", "%.0"), ("method", "%.m()"), ("method", "%.m(%)"), ("method", "%.m(%, %)"), ("method", "%.m::<T, 1>(%)"), ("method", "%.m::<T>()"), ("method", "%.m::<T>(%, %)"),
         ("method", "%.m(%, %, %, %)")] + \
        [("binary", "% " + o + " %") for o in ("+", "-", "*", "/", "%%", "<", "<=", "==", "!=", ">", ">=", "&&", "||", "&", "|", "^", "<<", ">>")]
FOREIGN = ["f(%)", "% as f64", "[%]", "%[0]", "x[%]", "(%, 1)", "&%", "{ % }", "%?", "|x| %", "x = %", "1..%", "if a { % } else { 1 }", "S { a: % }", "m!(%)", "return %", "f()", "x += %", "match % { _ => 1 }", "unsafe { % }"]
ORDER = ("lit", "path", "unary", "binary", "method", "field", "paren")


class Part:
    """An expression as the sequence of text and parts it is written with."""
    __slots__ = ("kind", "pieces", "parts", "text")

    def __init__(self, kind, pieces, parts):
        self.kind, self.pieces, self.parts = kind, pieces, parts
        self.text = self.fill([p.text for p in parts])

    def fill(self, texts):
        out = [self.pieces[0]]
        for t, p in zip(texts, self.pieces[1:]):
            out += [t, p]
        return "".join(out)

    def visited(self):
        yield self
        if self.kind != "foreign":
            for p in self.parts:
                yield from p.visited()

    def treated(self, kind):
        """The text when every part of one kind is wrapped; None for an error."""
        if self.kind == kind:
            return "q::r(%s)" % self.text
        if self.kind == "foreign":
            return None
        ts = [p.treated(kind) for p in self.parts]
        return None if None in ts else self.fill(ts)

    def refused(self):
        """The errors a visitor that refuses 7 may end with; which comes first is its own affair."""
        if self.kind == "foreign":
            return {"!error"}
        if self.text == "7":
            return {"!refused"}
        return set().union(*(p.refused() for p in self.parts)) if self.parts else set()


def visit_leaves(texts):
    return [Part("lit" if t[0].isdigit() or t[0] in "\"'" or t == "true" else "path", [t], []) for t in texts]


def visit_combine(template, parts):
    kind, t = template
    pieces = [p.replace("\0", "%") for p in t.replace("%%", "\0").split("%")]
    # An operand of an operator has to be a single one; arguments and parentheses hold anything.
    tight = ("lit", "path", "paren", "field", "method", "foreign")
    if kind in ("binary", "field", "method") and parts[0].kind not in tight:
        return None
    if kind == "binary" and parts[1].kind not in tight or kind == "unary" and parts[0].kind not in tight + ("unary",):
        return None
    if kind in ("field", "method") and parts[0].text[-1:].isdigit():
        pieces = [pieces[0], " " + pieces[1]] + pieces[2:]
    if kind == "binary" and "foreign" in (parts[0].kind, parts[1].kind) or kind in ("unary", "field", "method") and parts[0].kind == "foreign":
        return None
    return Part(kind, pieces, parts)


def check_E17(ctx):
    leaves = visit_leaves(["x", "7", "1.5", "a::b"])
    few = visit_leaves(["x", "7"])
    slots = lambda t: t[1].replace("%%", "").count("%")
    foreign = [Part("foreign", f.split("%"), [few[1]] * f.count("%")) for f in FOREIGN]

    def level(templates, below, leaves):
        """One more operator: one part from below, the others from the leaves."""
        below = list(below)
        for t in templates:
            n = slots(t)
            for k in range(n):
                for b in below:
                    for rest in itertools.product(leaves if n < 4 else leaves[:2], repeat=n - 1):
                        p = visit_combine(t, list(rest[:k]) + [b] + list(rest[k:]))
                        if p:
                            yield p
    every = list(leaves) + visit_leaves(["true", '"s t"', "'c'", "0x1fu8", "1e5", "PI", "self", "r#type", "::c", "v::<f64>", "f64::consts::PI"]) + foreign
    one = list(level(VISIT, leaves, leaves))
    brief = [t for i, t in enumerate(VISIT) if t[0] != "binary" or i % 6 == 0]
    two = list(level(VISIT, level(VISIT, few, few) if ctx.quick else one, few))
    three = list(level(brief, level(brief, level(brief, few, few), few[:1]) if ctx.quick else level(VISIT, level(brief, few, few), few[:1]), few[:1] if ctx.quick else few))
    strange = list(level(VISIT, foreign, few))
    strange += list(level(brief, strange, few)) + list(level(brief, every, few))
    # both operands compound, and long chains
    pairs = [visit_combine(t, [a, b]) for t in VISIT if slots(t) == 2 for a in one[::7] for b in one[::5]]
    long = []
    for n in (10, 30, 80):
        for t in VISIT:
            for w in (None, ("paren", "(%)"), ("method", "x.m(%)")):
                p = few[1]
                for i in range(n):
                    p = visit_combine(t, [p] + [few[(i + j) % 2] for j in range(slots(t) - 1)]) or p
                    p = w and visit_combine(("method", "%.m(%)"), [few[0], p]) if w and w[0] == "method" else visit_combine(w, [p]) if w else p
                long.append(p)
    for n in (*range(5, 20), 33, 100):
        for typed in ("", "::<T>"):
            t = ("method", "%.m" + typed + "(" + ", ".join("%" * n) + ")")
            for args in (leaves, one, foreign + leaves):
                long.append(visit_combine(t, [few[0]] + [args[i * 37 % len(args)] for i in range(n)]))
            for i in range(n):
                for other in (*leaves, one[3], foreign[0]):
                    long.append(visit_combine(t, [few[0]] * (i + 1) + [other] + [few[0]] * (n - 1 - i)))
    cases = {}
    for p in itertools.chain(every, one, two, three, strange, pairs, long):
        if p is not None:
            cases.setdefault(p.text, p)
    flat = lambda s: "".join(s.split())
    reqs = [["visit", t] for t in cases]
    n, kinds = 0, {}
    for q, p, r in zip(reqs, cases.values(), core.vh(reqs)):
        if r.status == "ERR" and r[0].startswith("harness: cannot parse"):
            continue
        n += 1
        kinds[p.kind] = kinds.get(p.kind, 0) + 1
        got = list(r)
        if r.status != "OK":
            ctx.violation("visiting %s: %s %s" % (p.text[:200], r.status, got[:1]), requests=[q])
            continue
        bad = p.refused()
        wrong = any(x.kind == "foreign" for x in p.visited())
        want = ["false", "!error", "!error"] if wrong else ["true", flat(p.text), flat(p.text)]
        for k in ORDER:
            t = p.treated(k)
            want.append("!error" if t is None else flat(t))
        want.append(flat(got[len(want)]) if got[len(want)] in bad else sorted(bad)[0] if bad else flat(p.text))
        seen = [flat(g) for g in got[len(want):]]
        if [flat(g) for g in got[:len(want)]] != want:
            i = next(i for i in range(len(want)) if flat(got[i]) != want[i])
            who = ["a visitor of nothing keeps the tree", "a visitor of nothing", "a visitor that looks on"] + ["a visitor that treats each %s" % k for k in ORDER] + ["a visitor that refuses 7"]
            ctx.violation("%s makes %s of %s instead of %s" % (who[i], got[i][:200], p.text[:200], want[i][:200]), requests=[q])
            continue
        # Everything once, up to an error; the whole first.
        each = Counter(flat(x.text) for x in p.visited())
        if seen[:1] != [flat(p.text)] or Counter(seen) - each or not wrong and Counter(seen) != each:
            ctx.violation("the parts of %s are visited as %s instead of %s" % (p.text[:200], seen[:12], sorted(each.elements())[:12]), requests=[q])
    if n < len(cases) * 0.9:
        raise core.CheckError("only %d of %d expressions can be read" % (n, len(cases)))
    ctx.count(states=n, transitions=n * (len(ORDER) + 4), traces=n)
    ctx.note("by_outermost_kind", kinds)
    for q in reqs[:: max(1, len(reqs) // 10)]:
        ctx.sample(q[1])
