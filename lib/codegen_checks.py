"""G01-G03: token printing, translation to C and to portable-simd, decided by running
enumerated programs in both forms."""
import glob, itertools, os, re, subprocess, struct
from concurrent.futures import ThreadPoolExecutor
import core, gen, rexpr
from gen import NUM, VAR, trees, upto
from rexpr import show, show_min


# ---------------------------------------------------------------- G01
def seqs(alphabet, n):
    for k in range(n + 1):
        yield from itertools.product(alphabet, repeat=k)


def well_formed(parts):
    """Joint punctuation is followed by punctuation of the same group: anything else is no token."""
    p = " ".join(parts).split()
    for i, t in enumerate(p):
        if t[0] == "p" and t[2] == "j":
            nxt = p[i + 1] if i + 1 < len(p) else None
            if t[1] == "'":
                if nxt is None or nxt[0] != "i":
                    return False
            elif nxt is None or nxt[0] != "p" or nxt[1] == "'":
                return False
    return True


def check_G01(ctx):
    small = ["ia", "l1", "l2.5", "p+a", "p=a", "p+j p=a", "p.a", "p.j p.a", "p;a", "p-a", "p>a", "p-j p>a", "p:j p:a", "p'j ia", "( )", "[ ]", "{ }", "< >"]
    more = small + ["ib", "iif", "i_", "l1u8", "l1.5f32", "l0x1f", 'l"s;{"', "l'c'", "l'\\n'", 'lb"z"', 'lr#"raw"#', "p&a", "p&j p&a", "p<j p<j p=a", "p.j p.j p=a", "p#a", "p!a", "p,a", "p:a",
                    "p*a", "p/a", "p|j p|a", "p=j p>a", "p=j p=a", "p-j p-a", "p&j p-a", "p<a", "p?a", "p@a", "p$a", "p%a", "p^a", "p~a", "l1.0e5", "l'a'", "p>j p>a"]
    contents = [" ".join(s) for s in seqs(["ia", "l1", "p+a", "p=a", "p+j p=a", "p;a", "p-a", "p'j ia"], 2)]
    groups = ["%s %s %s" % (o, c, e) for o, e in ("()", "[]", "{}", "<>") for c in contents]
    specs = set()

    def add(parts):
        t = " ".join(x for x in parts if x)
        if well_formed([t]):
            specs.add(" ".join(t.split()))
    for s in seqs(more, 3):
        add(s)
    for s in seqs(small, 3 if ctx.quick else 4):
        add(s)
    for g in groups:
        for s in seqs(small[:12], 1):
            for t in seqs(small[:12], 1):
                add(s + (g,) + t)
        for o, e in ("()", "[]", "{}", "<>"):
            for a in ("", "ib", "p-a", "p;a"):
                for b in ("", "ib", "p-a", "p;a", "p.a"):
                    add((o, a, g, b, e))
                    add(("ib", o, a, g, b, e, "l2"))
                    if not ctx.quick:
                        for o2, e2 in ("()", "[]", "{}", "<>"):
                            add((o2, a, o, g, b, e, a, e2, b))
    small_groups = groups[:: 3] if ctx.quick else groups
    if not ctx.quick:
        small_groups = groups[:: 2]
    for g in small_groups:
        for h in small_groups:
            add((g, h))
    for n in (4, 5, 8, 16, 40, 100):
        for o, e in ("()", "[]", "{}"):
            for c in ("", "ia", "ia p;a", "p-a l1", "p+j p=a", "l2.5 p.a", "( ia )", "{ ia }"):
                for pre, post in (("", ""), ("ia", ""), ("", "ia"), ("p-a", "p;a"), ("ia p;a", "p.a ib"), ("l1 p,a", "{ }")):
                    add([pre + " " + o] * n + [c] + [e + " " + post] * n)
        for t in more:
            if t[0] != "p" or "j" not in t:
                add([t] * n)
                add([o for o in "{(["] * n + [t] * n + [e for e in "])}"] * n)
        for a in ("ia p;a", "l1 p,a", "p-a ia", "{ ia }", "ia ( l1 ) p;a", "p+j p=a ia", "p.a ia ( )"):
            add([a] * n)
            add(["{"] + [a] * n + ["}"])
            add(["ia ("] + [a] * n + [") p;a"] + [a] * n)
    specs = sorted(specs)
    reqs = [["fmts", s] for s in specs]
    # whole programs
    files = sorted(glob.glob(os.path.join(core.REPO, "**", "*.rs"), recursive=True))
    files = [f for f in files if "/target/" not in f]
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    lib = sorted(glob.glob(os.path.join(sysroot, "lib/rustlib/src/rust/library/core/src/**/*.rs"), recursive=True))
    files += lib[:: 12] if ctx.quick else lib
    nf = 0
    for f in files:
        with open(f, errors="replace") as fh:
            reqs.append(["fmt", fh.read()])
            nf += 1
    unlexed = 0
    for q, r in zip(reqs, core.vh(reqs, stall=120)):
        if r.status == "ERR" and r[0] == "lex":
            unlexed += 1
            continue
        if r.status != "OK" or r[0] != "true":
            # several invisible groups make joint marks at their ends meaningless
            what = list(r)
            ctx.violation("the tokens %s are printed as %r, which reads as %s" % (what[2][:300] if len(what) > 2 else q[1][:200], what[1][:300] if len(what) > 1 else r.status,
                                                                                 what[3][:300] if len(what) > 3 else ""), requests=[q] if len(q[1]) < 2000 else [])
    ctx.count(states=len(specs), transitions=len(reqs) - unlexed, traces=len(reqs) - unlexed)
    ctx.note("whole_files", nf - unlexed)
    for s in specs[:: max(1, len(specs) // 10)]:
        ctx.sample(s)
    ctx.assumptions.append("the lexer of proc_macro2 decides which tokens a text has")


# ---------------------------------------------------------------- programs for G02 and G03
KINDS = {64: dict(fty="f64", ity="i64", uty="u64", c="double"), 32: dict(fty="f32", ity="i32", uty="u32", c="float")}
GRID = {64: ["-2.5", "-1.0", "-0.0", "0.0", "0.3", "1.0", "3.75", "1e300", "f64::INFINITY", "f64::NAN", "5e-324", "f64::NEG_INFINITY"],
        32: ["-2.5", "-1.0", "-0.0", "0.0", "0.3", "1.0", "3.75", "1e38", "f32::INFINITY", "f32::NAN", "1e-45", "f32::NEG_INFINITY"]}
FINITE = ["-7.25", "-2.5", "-1.0", "-0.5", "0.0", "0.375", "1.0", "2.5", "12.0"]   # products of three of them are exact in both sizes
POS = ["0.001", "0.3", "0.5", "1.0", "2.5", "90.0"]


def header(bits):
    k = KINDS[bits]
    return "type fty = %s;\ntype ity = %s;\ntype uty = %s;\n" % (k["fty"], k["ity"], k["uty"])


class Program:
    """body: the text between the braces of fn NAME(x: fty, y: fty) -> fty; items: further items."""
    __slots__ = ("body", "items", "grid", "how", "kind")

    def __init__(self, body, items="", grid="all", how="bits", kind=""):
        self.body, self.items, self.grid, self.how, self.kind = body, items, grid, how, kind


def pretty(e):
    return show_min(e)


def rust_lits(e, bits):
    return e


def long_programs(bits, simd):
    """What is long or deep: chains, nesting, many names, many shadowings of one, many arguments."""
    F = KINDS[bits]["fty"]
    L = lambda *a, **k: Program(*a, kind="long", **k)
    for a, b in (("x", "y"), ("x", "0.5"), ("y.abs()", "1.5" + F)):
        for n in (5, 9, 17, 33, 60):
            for op in ("+", "-", "*", "/"):
                yield L((" %s " % op).join(([a, b] * n)[:n]))
                yield L(("%s %s (" % (a, op)) * n + b + ")" * n)
                yield L("(" * n + a + (" %s %s)" % (op, b)) * n)
            yield L(a + "".join(" %s %s" % ("+-*/"[i % 4], (a, b)[i % 2]) for i in range(n)))
            yield L(a + "".join(" %s %s" % ("-*+/-"[i * i % 5], ("-" + b, a)[i % 3 % 2]) for i in range(n)))
            yield L("(" * n + a + ")" * n)
            yield L("-(" * n + a + " - " + b + ")" * n)
            yield L("(%s - %s)" % (a, b) + ".abs()" * n)
            yield L(("(%s - " % a) * n + b + ").abs()" * n)
            yield L(("%s.copysign(" % a) * n + "-" + b + ")" * n)
    for n in (9, 10, 11, 12, 25, 40, 120):
        yield L("let a = x; " + "let a = a - y * 0.5; " * n + "a - x")
        yield L("let a: fty = x; " + "let a: fty = y - a; let b: fty = a * 0.5; " * n + "a - b")
        yield L("let x = x - y; " * n + "x * y")
        yield L("let x = y - x; let y = y + x; " * n + "x - y")
        yield L("let mut a = x; let mut b = y; " + "a = b - a * 0.5; b = a - b * 0.25; " * n + "a - b")
        yield L("let mut a = x; " + "a = { let a = a - y; let y = a * 0.5; y - a }; " * n + "a - y")
        yield L("let v0 = x - y; " + "".join("let v%d = v%d * 0.5 - %s; " % (i, i - 1, "xy"[i % 2]) for i in range(1, n)) + "v%d - v0 - v%d" % (n - 1, n // 2))
        yield L("let a = x; " + "".join("let a_%d = a - y; let a = a_%d * 0.5; " % (i, i) for i in range(n)) + "a - a_%d - a_0" % (n - 1))
        yield L("let v = x; " + "".join("let v%d = v - %d.0; " % (i, i) for i in range(n)) + "let v = v - y; v" + "".join(" - v%d * 0.5" % i for i in range(n)))
        if n <= 40:
            yield L("let a = x; " + "let b = { let a = a - y; " * n + "a * x" + " }; b - a" * n)
            yield L("{ let x = x - y; " * n + "x - y" + " }" * n)
            yield L("let a = x - y; let a = " + "{ let a = a - y; let a = " * n + "a * 0.5" + "; a - x }" * n + "; a - y")
            yield L("".join("if x < %d.5 { y - %d.0 } else { " % (i - n // 2, i) for i in range(n)) + "x" + " }" * n)
            yield L("".join("if x > %d.5 { " % (i - n // 2) for i in range(n)) + "x" + "".join(" } else { y - %d.0 }" % i for i in range(n)))
            yield L("".join("if x < %d.5 { y - %d.0 } else " % (i - n // 2, i) for i in range(n)) + "{ x }")
            yield L("let a = x - y; " + "".join("let a = if a < %d.0 { a + y } else { a - 1.0 }; " % (i - n // 2) for i in range(n)) + "a - y")
            yield L("".join("let c%d = x < %d.5; " % (i, i - n // 2) for i in range(n)) + "".join("if c%d { y - %d.0 } else { " % (i, i) for i in range(n)) + "x" + " }" * n)
        if n <= 12:
            names = ["p%d" % i for i in range(n)]
            body = " - ".join("%s * %d.0" % (v, (3, -1, 2, 7, -5)[i % 5]) for i, v in enumerate(names))
            items = "pub fn q@(%s) -> fty { %s }" % (", ".join("%s: fty" % v for v in names), body)
            for args in (["x", "y"] * n, ["x - 1.0", "-y", "2.0"] * n, ["y"] * (n - 1) + ["x"], ["x"] + ["y"] * n, ["%d.5" % i for i in range(n)]):
                yield L("q@(%s)" % ", ".join(args[:n]), items=items, grid="finite")
                yield L("q@(%s) - q@(%s)" % (", ".join(args[:n]), ", ".join(args[:n][::-1])), items=items, grid="finite")
            yield L("r@_0(x, y)", items="".join("pub fn r@_%d(x: fty, y: fty) -> fty { r@_%d(y, x - %d.5) - x } " % (i, i + 1, i) for i in range(n)) + "pub fn r@_%d(x: fty, y: fty) -> fty { x - y * 0.5 }" % n, grid="finite")
            yield L("s@(" * n + "x" + ", y)" * n, items="pub fn s@(y: fty, x: fty) -> fty { y * 0.5 - x }", grid="finite")
            yield L("s@(x, " * n + "y" + ")" * n, items="pub fn s@(y: fty, x: fty) -> fty { y * 0.5 - x }", grid="finite")
            yield L(" - ".join("k@_%d" % i for i in range(n)) + " * x", items=" ".join("const k@_%d: fty = %d.25;" % (i, i * i) for i in range(n)), grid="finite")
            if not simd:
                for op in ("&&", "||"):
                    yield L("if %s { x } else { y }" % (" %s " % op).join("x %s %d.5" % ("<>"[i % 2 if op == "||" else 0], i - 5) for i in range(n)))
                    yield L("if %s { x } else { y }" % ("".join("(x < %d.5 %s " % (i - 5, op) for i in range(n)) + "x > y" + ")" * n))
                yield L("if %s { x } else { y }" % " && ".join("(x > %d.5 || y < %d.5)" % (i - 6, 6 - i) for i in range(n)))
                yield L("if %sx < y%s { x } else { y }" % ("!(" * n, ")" * n))


def plain_programs(bits, simd):
    """What a translator might simplify: operations with 0, 1, 2 and the like, choices that look like abs, min or max, pairs of casts, powers and quotients by constants."""
    k = KINDS[bits]
    U, I, F = k["uty"], k["ity"], k["fty"]
    P = lambda *a, **kw: Program(*a, kind="simplifiable", **kw)
    ar = ("+", "-", "*", "/")
    seen = set()
    lits = ["0.0", "1.0", "2.0", "3.0", "0.5", "4.0", "10.0", "100.0", "1e10", "0.0" + F, "1" + F]
    for e in itertools.chain(upto(1, [VAR("x"), VAR("y")] + [NUM(l) for l in lits], ar, ("-",)), trees(2, (VAR("x"), VAR("y"), NUM("0.0"), NUM("1.0")), ar, ("-",)), trees(3, (VAR("x"), NUM("0.0")), ("+", "-"), ("-",)),
                             trees(3, (VAR("x"), NUM("2.0")), ("*", "/"), ("-",))):
        for t in (show_min(e), show(e, True)):
            if t not in seen and ("x" in t or "y" in t):
                seen.add(t)
                yield P(t)
    # choices
    for c in [a + " " + o + " " + b for o in ("<", "<=", ">", ">=", "==", "!=") for a, b in (("x", "y"), ("x", "0.0"), ("0.0", "x"), ("x", "x"), ("y", "1.0"))]:
        for a, b in itertools.product(("x", "y", "-x", "0.0", "1.0", "x - y", "-y"), repeat=2):
            yield P("if %s { %s } else { %s }" % (c, a, b))
    for c in ("x < y", "x == y", "!(x < y)"):
        for d in ("x < y", "y < x", "x == y", "x > 0.0"):
            yield P("if %s { if %s { x } else { y } } else { 1.0 }" % (c, d))
            yield P("if %s { 1.0 } else { if %s { x } else { y } }" % (c, d))
            yield P("(if %s { x } else { y }) - (if %s { x } else { y })" % (c, d))
    # methods
    for l in ("0.0", "1.0", "-1.0", "2.0", "y", "x", "-x"):
        for r in ("x", "-x", "(x - y)", "(-x).abs()"):
            yield P("%s.copysign(%s)" % (r, l))
            yield P("1.0 / %s.copysign(%s)" % (r, l))
            if simd:
                yield P("%s.min(%s)" % (r, l), grid="pos")
                yield P("%s.max(%s)" % (r, l), grid="pos")
            else:
                yield P("%s.min(%s)" % (r, l), grid="finite", how="value")
                yield P("%s.max(%s)" % (r, l), grid="finite", how="value")
    fused = dict() if simd else dict(grid="finite", how="value")
    for a, b, c in itertools.product(("x", "y", "0.0", "1.0", "2.0", "-1.0", "-x"), repeat=3):
        a = "(-x)" if a == "-x" else a if a in "xy" else "(%s%s)" % (a, F)
        yield P("%s.mul_add(%s, %s)" % (a, b, c), **fused)
    for m in ("abs", "sqrt", "recip", "round", "floor", "ceil", "trunc"):
        for n in ("abs", "sqrt", "recip", "round", "floor", "ceil", "trunc"):
            for t in ("x.%s().%s()", "(-x.%s()).%s()", "1.0 / x.%s().%s()", "(x.%s() * x).%s()", "(x * x).%s().%s()", "(-(-x)).%s().%s()"):
                yield P(t % (m, n))
    if not simd:
        for l in ("0.0", "1.0", "2.0", "0.5", "-0.5", "3.0", "-1.0", "-2.0", "1.5", "0.25", "y"):
            for r in ("x", "(x * y)", "(-x)"):
                yield P("%s.powf(%s)" % (r, l), how="close")
                yield P("2.0%s.powf(%s)" % (F, r), how="close")
                yield P("%s.powf(%s).abs()" % (r, l), how="close")
        for n in ("0", "1", "2", "3", "4", "5", "-1", "-2", "-3", "10"):
            for r in ("x", "(x * 0.5)", "(-x)"):
                yield P("%s.powi(%s)" % (r, n), how="close")
        for m, n in (("exp", "ln"), ("ln", "exp"), ("exp2", "log2"), ("sin", "asin"), ("asin", "sin"), ("tan", "atan"), ("cbrt", "abs"), ("sqrt", "exp"), ("ln", "log10")):
            for t in ("x.%s().%s()", "(x.abs() * 0.1).%s().%s()", "(1.0 - x).%s().%s()", "(x - 1.0).%s().%s()", "(x + 1.0).%s().%s()"):
                yield P(t % (m, n), grid="pos", how="close")
        for t in ("x.exp() - 1.0", "(x + 1.0).ln()", "(1.0 + x).ln()", "(x * x + y * y).sqrt()", "x.sin() / x.cos()", "1.0 / x.sqrt()", "x.ln() / y.ln()", "x.ln() / 2.0%s.ln()" % F, "x.sqrt() * x.sqrt()", "(y / x).atan()"):
            yield P(t, grid="pos", how="close")
        yield P("(x * 1e-12).exp() - 1.0", grid="pos", how="close")
        yield P("(x * 1e-12 + 1.0).ln()", grid="pos", how="close")
    # casts
    for t in ("x as ity as fty", "(x as ity as fty) - x", "x.abs() as uty as fty", "-(x as ity as fty)", "(-x as ity) as fty", "1.0 / (x as ity as fty)", "(x as ity) as ity as fty", "x as fty", "x as fty as fty", "x as fty as ity as fty", "(x as ity + 1%s) as fty" % I,
              "(x + 0.5) as ity as fty", "x.floor() as ity as fty", "x.round() as ity as fty", "x.trunc() as ity as fty", "(x - 0.5) as ity as fty", "1.0 / ((x * 0.1) as ity as fty)", "if (x as ity as fty) == x { x } else { y }"):
        yield P(t, grid="finite")
    yield P("%s::from_bits(x.to_bits())" % F)
    yield P("fty::from_bits(x.to_bits()) - y")
    # integers
    pre = "let u: uty = x.to_bits(); let v: uty = y.to_bits(); "
    il = [VAR("u"), VAR("v")] + [NUM(l + U) for l in ("0", "1", "2", "3", "8", "10")]
    for e in itertools.chain(upto(1, il, ("&", "|", "^", "+", "-", "*"), ()), trees(2, [VAR("u"), NUM("0" + U), NUM("1" + U)], ("&", "|", "^", "+", "-", "*"), ())):
        t = show(e, True)
        if ("u" in t.replace(U, "") or "v" in t) and not re.search(r"(\d)\w* - (\d)", t.replace(U, "")):
            yield P(pre + "(%s) as fty" % t)
    prei = "let i: ity = x as ity; let j: ity = y as ity; "
    for n in ("1", "2", "3", "4", "7", "8", "10", "1000"):
        for op in "/%":
            yield P(pre + "(u %s %s%s) as fty" % (op, n, U))
            yield P(pre + "((u & v) %s %s%s) as fty" % (op, n, U))
            for t in ("i", "(i - j)", "(-i)", "(i * j)"):
                yield P(prei + "(%s %s %s%s) as fty" % (t, op, n, I), grid="ints")
                yield P(prei + "(%s %s -%s%s) as fty" % (t, op, n, I), grid="ints")
    for n in ("0", "1", "2", "5", "10"):
        n += U if simd else ""
        for op in ("<<", ">>"):
            yield P(pre + "(u %s %s) as fty" % (op, n))
            yield P(pre + "((u %s %s) ^ v) as fty" % (op, n))
            m = n.replace(U, I)
            yield P(prei + "(i %s %s) as fty" % (op, m), grid="ints")
            yield P(prei + "((i %s %s) - j) as fty" % (op, m), grid="ints")
            yield P(prei + "(-i %s %s) as fty" % (op, m), grid="ints")


RUST_MAIN = """
fn same(how: u8, a: fty, b: fty) -> bool {
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    match how {
        0 => a.to_bits() == b.to_bits(),
        1 => a == b,
        _ => (a - b).abs() <= a.abs() * (fty::EPSILON * 4.0) || a == b,
    }
}
"""


def run_c_batch(args):
    """One Rust file of many functions; its C translation is linked beside it. Returns (calls, failures)."""
    n, bits, progs, whole, wd = args
    k = KINDS[bits]
    src = whole if whole is not None else header(bits) + "\n".join(
        "%s\npub fn f%d(x: fty, y: fty) -> fty { %s }" % (p.items.replace("@", str(i)), i, p.body.replace("@", str(i))) for i, p in enumerate(progs))
    r = core.vh([["toc", src, "c%d_" % n, "f" if bits == 32 else ""]])[0]
    base = os.path.join(wd, "b%d" % n)
    if r.status != "OK":
        return 0, [("to_c: %s %s" % (r.status, list(r)), src)], []
    with open(base + ".c", "w") as f:
        f.write(r[0])
    g = subprocess.run(["gcc", "-O1", "-w", "-fwrapv", "-ffp-contract=off", "-fno-builtin", "-std=gnu11", "-c", base + ".c", "-o", base + ".o"],
                       capture_output=True, text=True)
    if g.returncode:
        m = re.search(r"\.c:(\d+)", g.stderr)
        where = ""
        if m:
            ls = r[0].split("\n")
            j = int(m.group(1)) - 1
            where = " | ".join(ls[max(0, j - 2):j + 2])
        return 0, [("the C code does not compile: %s  near: %s" % (g.stderr.strip()[:300], where[:300]), src)], []
    main = ["#![allow(warnings)]", "mod m {", src, "}", "use m::*;", header(bits), "extern \"C\" {"]
    for i, p in enumerate(progs):
        main.append("fn c%d_f%d(x: fty, y: fty) -> fty;" % (n, i))
    main.append("}\n" + RUST_MAIN)
    main.append("static TABLE: &[(fn(fty, fty) -> fty, unsafe extern \"C\" fn(fty, fty) -> fty, u8, u8)] = &[")
    for i, p in enumerate(progs):
        main.append("(m::f%d, c%d_f%d, %d, %d)," % (i, n, i, ("all", "finite", "pos", "ints").index(p.grid), ("bits", "value", "close").index(p.how)))
    main.append("];")
    main.append("fn main() { let grids: [&[fty]; 4] = [&[%s], &[%s], &[%s], &[%s]]; let mut n = 0u64;" % (
        ",".join(GRID[bits]), ",".join(FINITE), ",".join(POS), ",".join(["-3.0", "-1.0", "0.0", "1.0", "2.0", "5.0", "1000.0"])))
    main.append("""for (i, t) in TABLE.iter().enumerate() { let g = grids[t.2 as usize]; 'o: for &x in g { for &y in g { n += 1;
        let a = (t.0)(x, y); let b = unsafe { (t.1)(x, y) };
        if !same(t.3, a, b) { println!("BAD {} {:?} {:?} {:?} {:?}", i, x, y, a, b); break 'o; } } } } println!("CALLS {}", n); }""")
    with open(base + ".rs", "w") as f:
        f.write("\n".join(main))
    g = subprocess.run(["rustc", "--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=off", "-C", "debug-assertions=off", "-C", "link-arg=" + base + ".o",
                        "-C", "codegen-units=1", "-o", base, base + ".rs"], capture_output=True, text=True)
    if g.returncode:
        # What is no valid Rust is no program: leave it out.
        text = "\n".join(main).split("\n")
        drop = set()
        for m in re.finditer(r"^error.*\n(?:.*\n)*?\s*--> \S+?:(\d+):", g.stderr, re.M):
            f = re.match(r"pub fn f(\d+)\(", text[int(m.group(1)) - 1])
            if f:
                drop.add(int(f.group(1)))
        if not drop or whole is not None:
            raise core.CheckError("rustc: " + g.stderr[:3000])
        c, bad, d = run_c_batch((n, bits, [p for i, p in enumerate(progs) if i not in drop], None, wd))
        return c, bad, d + [progs[i] for i in drop]
    g = subprocess.run([base], capture_output=True, text=True, timeout=300)
    bad, calls = [], 0
    for line in g.stdout.split("\n"):
        if line.startswith("CALLS"):
            calls = int(line.split()[1])
        elif line.startswith("BAD"):
            _, i, x, y, a, b = line.split()
            p = progs[int(i)]
            bad.append(("%sfn f(x, y) { %s } at (%s, %s) is %s in Rust and %s in C (%d bit)" % (p.items and p.items + " ", p.body, x, y, a, b, bits), header(bits) + p.items.replace("@", "0") +
                        "\npub fn f0(x: fty, y: fty) -> fty { %s }" % p.body.replace("@", "0")))
    if not calls:
        bad.append(("the program ended with %s" % g.returncode, src))
    for e in (".c", ".o", ".rs", ""):
        if os.path.exists(base + e):
            os.remove(base + e)
    return calls, bad, []


def c_programs(bits, quick):
    k = KINDS[bits]
    U, I, F = k["uty"], k["ity"], k["fty"]
    out = []
    x, y, h = VAR("x"), VAR("y"), NUM("2.5" + F)
    ar = ("+", "-", "*", "/")
    # arithmetic, as it is written with the fewest parentheses and with all of them
    seen = set()

    def expr(e, **kw):
        for t in (show_min(e), show(e, True)):
            if (t, kw.get("grid")) not in seen:
                seen.add((t, kw.get("grid")))
                out.append(Program(t, **kw))
    for e in upto(2, (x, y, h), ar, ("-",), (("abs", 0), ("recip", 0))):
        expr(e, kind="arithmetic")
    for e in trees(3, (x, y), ("-", "*", "/") if quick else ar, ("-",)):
        expr(e, kind="arithmetic")
    if not quick:
        for e in trees(4, (x, y), ("-", "/"), ("-",)):
            expr(e, kind="arithmetic")
    for e in upto(2, (x, y, NUM("0.5" + F)), ("-", "*"), ("-",), (("mul_add", 2),)):
        if "mul_add" in show(e):
            expr(e, grid="finite", how="value", kind="mul_add")
    # conditions
    conds = []
    atoms = ["x < y", "x <= 1.0", "y > x", "x >= y", "x == y", "x != 1.0"]
    b1 = [VAR("(%s)" % a) for a in atoms[:3]]
    for a in atoms:
        conds += [a, "!(%s)" % a, "x + 1.0 %s y * 2.0" % a.split()[1], "-x %s -y" % a.split()[1], "x - y %s 1.0 - x" % a.split()[1]]
    for e in upto(3, b1, ("&&", "||"), ("!",)):
        conds += [show_min(e), show(e, True)]
    for a, b, c in itertools.product(("x < y", "x == 1.0", "!(y > 0.0)"), repeat=3):
        for o1, o2 in itertools.product(("&&", "||"), repeat=2):
            conds.append("%s %s %s %s %s" % (a, o1, b, o2, c))
    for c in dict.fromkeys(conds):
        out.append(Program("if %s { x - y } else { y + 1.0 }" % c, kind="condition"))
        out.append(Program("let b: bool = %s; if b { 1.0 } else { 2.0 }" % c, kind="condition"))
    # nested choices and blocks
    leaves = ["x", "y - 1.0", "-x"]
    cs = ["x < y", "y <= 0.5"]
    ifs0 = leaves
    ifs1 = ["if %s { %s } else { %s }" % (c, a, b) for c in cs for a in leaves for b in leaves if a != b]
    out += [Program(t, kind="choice") for t in ifs1]
    for c in cs:
        for t in ifs1:
            for a in leaves[:2]:
                out.append(Program("if %s { %s } else { %s }" % (c, t, a), kind="choice"))
                out.append(Program("if %s { %s } else %s" % (c, a, t), kind="choice"))
                out.append(Program("let z = %s; z * %s" % (t, "2.0"), kind="choice"))
                out.append(Program("%s - (%s)" % (a, t), kind="choice"))
                out.append(Program("%s * { %s }" % ("(" + a + ")", t), kind="choice"))
                out.append(Program("(%s).abs() - %s" % (t, "(" + a + ")"), kind="choice"))
    # integers
    pre = "let u: uty = x.to_bits(); let v: uty = y.to_bits(); "
    ul = [VAR("u"), VAR("v"), NUM("5" + U)]
    uops = ("&", "|", "^", "+", "-", "*")
    for e in upto(2, ul, uops, (), ()):
        for t in {show_min(e), show(e, True)}:
            out.append(Program(pre + "(%s) as fty" % t, kind="integers"))
    sh = [VAR("u"), VAR("v"), NUM("3" + U)]
    for e in trees(2, [VAR("u"), VAR("v")], ("&", "|", "+", "-", "*", "^"), ()):
        t = show_min(e)
        for s, (op, n) in itertools.product((0, 1, 2), ((">>", "7"), ("<<", "3"))):
            tt = ["(%s) %s %s" % (t, op, n), "%s %s %s" % (t, op, n), "u %s %s & v" % (op, n)][s]
            out.append(Program(pre + "(%s) as fty" % tt, kind="shifts"))
    for cmpop in ("==", "!=", "<", ">="):
        for o in ("&", "|", "^", ">>", "+"):
            a = "u %s %s" % (o, "2" if o == ">>" else "5" + U)
            out.append(Program(pre + "if %s %s v { 1.0 } else { 2.0 }" % (a, cmpop) if cmpop != "<" else pre + "if (%s) < v { 1.0 } else { 2.0 }" % a, kind="integers"))
            out.append(Program(pre + "if v %s %s { 1.0 } else { 2.0 }" % (cmpop, a), kind="integers"))
            out.append(Program(pre + "let w: uty = v ^ u; if %s == %s && w != 3%s { 1.0 } else { 2.0 }" % (a, "1" + U, U), kind="integers"))
    for m in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        for a, b in itertools.product(("u", "v", "(u ^ v)", "(u >> 3)", "7" + U), ("u", "v & 3" + U, "u - v", "11" + U)):
            out.append(Program(pre + "(%s.%s(%s)) as fty" % (a, m, b), kind="wrapping"))
            out.append(Program(pre + "(%s.%s(%s) >> 2) as fty" % (a, m, b), kind="wrapping"))
            out.append(Program(pre + "(v - %s.%s(%s)) as fty" % (a, m, b), kind="wrapping"))
    # bits: exact
    for e in ["u", "u | v", "u & v", "u ^ 1" + U, "u >> 1 << 1", "(u >> 2) + v", "u.wrapping_add(v)", "u & (v | 3%s) ^ v" % U]:
        for f in ("fty::from_bits(%s)", F + "::from_bits(%s)", "-fty::from_bits(%s)", "fty::from_bits(%s) * 2.0", "fty::from_bits((%s) >> 2).to_bits() as fty"):
            out.append(Program(pre + f % e, kind="bits"))
    # signed integers and casts
    il = [VAR("i"), VAR("j"), NUM("3" + I)]
    prei = "let i: ity = x as ity; let j: ity = y as ity; "
    for e in upto(2, il, ("+", "-", "*", "&", "|", "^"), ("-",)):
        for t in {show_min(e), show(e, True)}:
            out.append(Program(prei + "(%s) as fty" % t, grid="ints", kind="signed"))
    for op, n in ((">>", "2"), ("<<", "3")):
        for t in ("i", "-i", "i + j", "i * j - 1" + I, "(i - j)"):
            out.append(Program(prei + "(%s %s %s) as fty" % (t, op, n), grid="ints", kind="signed"))
    for c in ("<", ">", "<=", ">=", "==", "!="):
        for a, b in (("i", "j"), ("i + 1" + I, "j"), ("-i", "j - i"), ("i & 3" + I, "1" + I), ("i", "-1" + I)):
            b = "(%s)" % b if c == "<" else b
            a = "(%s)" % a
            out.append(Program(prei + "if %s %s %s { x } else { y }" % (a, c, b), grid="ints", kind="signed"))
    for t in ["x as ity as fty", "(x as ity) as fty * y", "-x as ity as fty", "(-x) as ity as fty", "(x * 2.5) as ity as fty", "x + y as ity as fty", "(x + y) as ity as fty", "-(x as ity) as fty",
              "(x.round() as ity) as fty", "x.round() as ity as uty as fty", "(x as ity as uty >> 1) as fty", "((x as ity) - (y as ity)) as fty", "x * (x as ity as fty)",
              "x - x as ity as fty", "(x / 4.0) as ity as fty", "(x < y) as ity as fty", "((x < y) as ity * 3%s) as fty" % I, "x.abs() as uty as fty", "(x.abs() as uty + 1%s) as fty" % U,
              "(x as f32) as fty", "(x as f64 * 0.1f64) as fty", "x as f32 as f64 as fty", "(x.to_bits() as ity) as fty", "((x.to_bits() as ity) >> 3) as fty", "(x.to_bits() >> 3) as ity as fty",
              "(x as i32) as fty", "(x as i64) as fty", "(x.abs() as u32) as fty", "(x.abs() as u64) as fty", "(x as i32 as u32) as fty", "(x as i64 as u64) as fty",
              "(x as i64 as i32) as fty", "(x.abs() as u64 as u32) as fty", "(x as isize) as fty", "(x.abs() as usize) as fty"]:
        out.append(Program(t, grid="ints", kind="casts"))
        out.append(Program("let z = %s; z - y" % t, grid="ints", kind="casts"))
    # literals
    lits = ["1.0", "0.1", "1e3", "1.5e-3", "1E2", "1_000.5", "0.1" + F, "2" + F, "1.", "1e-5" + F, "3.25" + F, "0.30000000000000004", "16777217.0", "1e5", "0.000001", "123456789.125"]
    for l in lits:
        for t in ("x * %s", "%s - x", "-%s", "x + -%s", "%s.sqrt()" if l[-1] != "." else "(%s).sqrt()", "if x < %s { %s } else { x }", "x / %s / %s"):
            out.append(Program(t.replace("%s", l), kind="literals"))
    for l in ["3", "0x1f", "7u32", "1_000", "0b101", "0o17", "4294967295u32", "5u64", "9i64", "18446744073709551615u64", "9007199254740993u64", "2147483647i32", "3usize", "8isize",
              "9223372036854775807i64", "0xffff_ffffu32", "3000000000u32", "3000000000i64"]:
        for t in ("%s as fty", "x + %s as fty", "(%s as fty) / 2.0 * x", "-(%s as fty)", "(%s * 2) as fty" if not any(s in l for s in ("4294", "1844", "2147", "92233", "0xffff", "30000000")) else "%s as fty",
                  "(%s / 2) as fty", "(%s - 1) as fty", "(%s >> 1) as fty", "(%s %% 7) as fty", "if (%s - 3) > 1 { x } else { y }" if l not in ("3", "3usize") else "%s as fty"):
            out.append(Program(t.replace("%%", "%").replace("%s", l), grid="ints", kind="literals"))
    for l in ["0.1f32", "0.1f64", "1e-3f32", "3f32", "3f64"]:
        out += [Program("(%s) as fty" % l, kind="literals"), Program("(%s * 3.0%s) as fty" % (l, l[-3:]), kind="literals")]
    for t in ["fty::NAN", "INF", "%s::NAN" % F, "%s::INFINITY" % F, "-%s::INFINITY" % F, "%s::MIN_POSITIVE" % F, "x * %s::MIN_POSITIVE" % F, "if x < %s::MIN_POSITIVE { 1.0 } else { x }" % F]:
        if not t.startswith(("fty", "INF")):
            out.append(Program(t, kind="constants"))
    # calls of methods
    one = ["abs", "floor", "ceil", "trunc", "round", "sqrt", "recip"]
    libm = ["cbrt", "exp", "exp2", "ln", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp_m1", "ln_1p"]
    two = ["powf", "atan2", "hypot", "copysign", "min", "max"]
    inner = ["x", "(x + y)", "(x - y)", "-x", "(-x)", "x.abs()", "(x * y).sqrt()", "2.5"]
    for m in one + libm + ["asinh", "acosh", "atanh"]:
        how = "bits" if m in one else "close"
        for i in inner:
            f = i + "_" + F if i == "2.5" else i
            i = "2.5" + F if i == "2.5" else i
            out.append(Program("%s.%s()" % (i, m), grid="all", how="value" if m in ("asinh", "acosh", "atanh") and False else how, kind="method"))
            out.append(Program("y - %s.%s() * 2.0" % (i, m), how=how, grid="pos" if m == "tan" else "all", kind="method")) if how == "bits" else None
        for n in one:
            out.append(Program("x.%s().%s()" % (n, m), how=how, kind="method"))
    for m in two:
        for i in inner:
            i = "2.5" + F if i == "2.5" else i
            for a in ("y", "-y", "y + 1.0", "x.abs()", "if x < y { x } else { y }"):
                g = "finite" if m in ("min", "max") else "all"
                out.append(Program("%s.%s(%s)" % (i, m, a), grid=g, how="value" if m in ("min", "max") else "bits" if m == "copysign" else "close", kind="method"))
                out.append(Program("1.0 - %s.%s(%s)" % (i, m, a), grid="finite" if m != "powf" else "pos", how="value" if m in ("min", "max", "copysign") else "close", kind="method")) if m in ("min", "max", "copysign") else None
    for b in ("2.0", "3.0", "y", "10.0"):
        out.append(Program("x.log(%s)" % b, grid="pos", how="close", kind="method"))
    for n in ("2", "3", "-1", "0", "(-2)"):
        out.append(Program("x.powi(%s)" % n, how="close", kind="method"))
    # statements: every sequence of the pool that declares before it uses
    pool = ["let a = x * 2.0;", "let a: fty = y - 0.5;", "let a = a - y;", "let mut b = x;", "b += y;", "b -= x * y;", "b *= a;", "b /= 2.0 - y;", "b = y - b;", "let b = { let a = a + 1.0; a * x };",
            "let int = x - 1.0;", "let a: fty = -int;", "let x = y;", "let y = x - y;", "let a_1 = x + 3.0;", "let mut a = x;", "a += a - y;", "b = if a < b { a } else { b - a };", "let c: bool = x < y;"]
    finals = ["x - y", "a", "b", "a - b", "int * a", "a_1 - a", "if c { a } else { y }"]
    depth = 3 if quick else 4
    for n in range(1, depth + 1):
        for ss in itertools.product(pool, repeat=n):
            env, ok = {"x": 0, "y": 0}, True
            for s in ss:
                m = re.match(r"let (mut )?(\w+)(: \w+)? = (.*);$", s)
                used = set(re.findall(r"\b(?!let\b|if\b|else\b|mut\b|fty\b)[a-z]\w*\b", m.group(4) if m else s))
                if s.startswith("let b = {"):
                    used = {"a", "x"}
                if not m:
                    ok = ok and env.get(s.split()[0]) == 1
                ok = ok and all(u in env for u in used)
                if not ok:
                    break
                if m:
                    env[m.group(2)] = 1 if m.group(1) else 0
            if not ok:
                continue
            decl = [re.match(r"let (?:mut )?(\w+)", s).group(1) for s in ss if s.startswith("let")]
            for f in finals:
                u = set(re.findall(r"\b(?!if\b|else\b)[a-z]\w*\b", f))
                if u <= set(env) and (not decl or decl[-1] in u or decl[-1] in ("x", "y")) and not (n == depth and f == "x - y" and not set(decl) & {"x", "y"}):
                    if n < 3 or set(decl) <= u | set(re.findall(r"\w+", " ".join(ss))) and len(set(ss)) == n:
                        out.append(Program(" ".join(ss) + " " + f, kind="statements"))
    # patterns that bind nothing
    for w in ("let _ = 0;", "let _ = x * 2.0;", "let _: fty = y;", "let _ = if x < y { x } else { y };", "let _ = (x - y).abs();"):
        for t in ("%s x - y", "let a = x - y; %s a * x", "let a = { %s x * 2.0 }; a - y", "%s %s x - y"):
            out.append(Program(t.replace("%s", w), kind="wildcards"))
    # variables called like words of C or like names it makes itself
    for kw in ("auto", "char", "default", "double", "float", "int", "long", "register", "short", "signed", "unsigned", "void", "volatile", "switch", "goto", "sizeof", "union", "case", "inline",
               "restrict", "asm", "typedef", "x_1", "y_1"):
        out.append(Program("let %s = x - y; let %s: fty = %s * 2.0; %s + 1.0" % (kw, kw, kw, kw), kind="names"))
        out.append(Program("let x = x + 1.0; let %s = 3.0 * y; let x: fty = x - %s; let y: fty = { let x = y; x * %s }; x / y" % (kw, kw, kw), kind="names"))
    out += long_programs(bits, False)
    out += plain_programs(bits, False)
    # constants and calls between functions
    for t in ["K@ * x", "x - K@ - y", "-K@", "K@.sqrt()", "if x < K@ { L@ } else { y }", "g@(x) - g@(y)", "g@(x - y)", "g@(g@(x))", "-g@(-x)", "h@(x, y) - h@(y, x)", "h@(g@(x), K@)", "h@(x, y).abs()",
              "h@(x + 1.0, if x < y { x } else { y })", "M@ as fty * x", "(N@ & x.to_bits()) as fty", "g@(x) * h@(x, 2.0)", "h@(h@(x, y), h@(y, x)) / K@", "let K@_ = K@; K@_ - x", "fty::from_bits(N@) + x"]:
        out.append(Program(t, items="const K@: fty = 1.75; const L@: fty = -0.3; const M@: ity = -5%s; const N@: uty = 0x3ff0000%s; pub fn g@(a: fty) -> fty { let x = a * 2.0; x - K@ } "
                                    "pub fn h@(y: fty, x: fty) -> fty { if y < x { g@(y) } else { x - y * y } }" % (I, U), kind="items"))
    return out


def c_orders(bits):
    """Whole files whose items come in every order."""
    k = KINDS[bits]
    items = ["type fty = %s;" % k["fty"], "type uty = %s; type ity = %s;" % (k["uty"], k["ity"]), "const K@: fty = 0.75; const U@: uty = 6;",
             "pub fn f0(x: fty, y: fty) -> fty { g(x) - K@ * y }", "fn g(x: fty) -> fty { h(x, K@) + (U@ as fty) }", "fn h(x: fty, y: fty) -> fty { if x < y { x } else { (x - K@) / 2.0 } }"]
    return ["\n".join(p) for p in itertools.permutations(items)]


def check_G02(ctx):
    wd = core.workdir("g02-" + ctx.tier)
    batches, n = [], 0
    kinds = {}
    total = 0
    for bits in (64, 32):
        progs = c_programs(bits, ctx.quick)
        for p in progs:
            kinds[p.kind] = kinds.get(p.kind, 0) + 1
        total += len(progs)
        for i in range(0, len(progs), 300):
            batches.append((n, bits, progs[i:i + 300], None, wd))
            n += 1
        orders = c_orders(bits)
        if ctx.quick:
            orders = orders[::6 if bits == 64 else 20] + orders[-1:]
        for o in orders:
            batches.append((n, bits, [Program("(%s)" % o.replace("\n", " "), kind="order")], o.replace("@", "_%d" % n), wd))
            kinds["order of items"] = kinds.get("order of items", 0) + 1
            n += 1
            total += 1
        for p in progs[:: max(1, len(progs) // 6)]:
            ctx.sample(p.items + p.body)
    calls, dropped = 0, []
    core.build()
    with ThreadPoolExecutor(core.JOBS) as ex:
        for c, bad, d in ex.map(run_c_batch, batches):
            calls += c
            dropped += d
            for what, src in bad:
                ctx.violation(what, requests=[["toc", src, "p_", ""]] if len(src) < 3000 else [], source=src[:20000])
    ctx.count(states=total, transitions=calls, traces=calls)
    ctx.note("programs_by_kind", kinds)
    ctx.note("left_out_as_no_valid_rust", len(dropped))
    if os.environ.get("VERIF_SHOW"):
        for p in dropped:
            print("no program:", p.kind, p.body)
    if len(dropped) > total // 50:
        raise core.CheckError("too many programs are no valid Rust: %s" % [p.body for p in dropped[:10]])
    ctx.assumptions += ["rustc and gcc (strict arithmetic, wrapping overflow) run the programs; both call the same libm",
                        "excluded as outside what the translation offers: if without else, ! on integers, % on floats, tuples, loops, casts out of range, fused mul_add beyond exact products"]
    import shutil
    shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------- G03
SHIM = r"""
pub mod simd {
    use std::ops::*;
    #[derive(Clone, Copy, Debug)] pub struct Simd<T, const N: usize>(pub [T; N]);
    #[derive(Clone, Copy, Debug)] pub struct Mask<const N: usize>(pub [bool; N]);
    pub struct LaneCount<const N: usize>;
    pub trait SupportedLaneCount {}
    impl<const N: usize> SupportedLaneCount for LaneCount<N> {}
    fn z<A: Copy, B: Copy, R, const N: usize>(a: [A; N], b: [B; N], f: impl Fn(A, B) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i], b[i])) }
    impl<const N: usize> Mask<N> {
        pub fn select<T: Copy>(self, a: Simd<T, N>, b: Simd<T, N>) -> Simd<T, N> { Simd(std::array::from_fn(|i| if self.0[i] { a.0[i] } else { b.0[i] })) }
    }
    impl<const N: usize> Not for Mask<N> { type Output = Self; fn not(self) -> Self { Mask(self.0.map(|b| !b)) } }
    impl<const N: usize> BitAnd for Mask<N> { type Output = Self; fn bitand(self, o: Self) -> Self { Mask(z(self.0, o.0, |a, b| a & b)) } }
    impl<const N: usize> BitOr for Mask<N> { type Output = Self; fn bitor(self, o: Self) -> Self { Mask(z(self.0, o.0, |a, b| a | b)) } }
    pub trait CastTo<U> { fn cast_to(self) -> U; }
    macro_rules! casts { ($($a:ty => $($b:ty),*);*) => { $($(impl CastTo<$b> for $a { fn cast_to(self) -> $b { self as $b } })*)* } }
    casts!(f32 => f32, f64, i32, u32, i64, u64; f64 => f32, f64, i32, u32, i64, u64; i32 => f32, f64, i32, u32, i64, u64; u32 => f32, f64, i32, u32, i64, u64; i64 => f32, f64, i32, u32, i64, u64; u64 => f32, f64, i32, u32, i64, u64);
    macro_rules! common { ($($t:ty),*) => { $(impl<const N: usize> Simd<$t, N> {
        pub fn splat(v: $t) -> Self { Simd([v; N]) }
        pub fn lanes_eq(self, o: Self) -> Mask<N> { Mask(z(self.0, o.0, |a, b| a == b)) }
        pub fn lanes_ne(self, o: Self) -> Mask<N> { Mask(z(self.0, o.0, |a, b| a != b)) }
        pub fn lanes_lt(self, o: Self) -> Mask<N> { Mask(z(self.0, o.0, |a, b| a < b)) }
        pub fn lanes_le(self, o: Self) -> Mask<N> { Mask(z(self.0, o.0, |a, b| a <= b)) }
        pub fn lanes_gt(self, o: Self) -> Mask<N> { Mask(z(self.0, o.0, |a, b| a > b)) }
        pub fn lanes_ge(self, o: Self) -> Mask<N> { Mask(z(self.0, o.0, |a, b| a >= b)) }
        pub fn cast<U>(self) -> Simd<U, N> where $t: CastTo<U> { Simd(self.0.map(|a| a.cast_to())) }
    })* } }
    common!(f32, f64, i32, u32, i64, u64);
    macro_rules! op { ($tr:ident $f:ident $e:expr; $($t:ty),*) => { $(impl<const N: usize> $tr for Simd<$t, N> { type Output = Self; fn $f(self, o: Self) -> Self { let f: fn($t, $t) -> $t = $e; Simd(z(self.0, o.0, f)) } })* } }
    op!(Add add |a, b| a + b; f32, f64); op!(Sub sub |a, b| a - b; f32, f64); op!(Mul mul |a, b| a * b; f32, f64); op!(Div div |a, b| a / b; f32, f64);
    op!(Add add |a, b| a.wrapping_add(b); i32, u32, i64, u64); op!(Sub sub |a, b| a.wrapping_sub(b); i32, u32, i64, u64); op!(Mul mul |a, b| a.wrapping_mul(b); i32, u32, i64, u64);
    op!(BitAnd bitand |a, b| a & b; i32, u32, i64, u64); op!(BitOr bitor |a, b| a | b; i32, u32, i64, u64); op!(BitXor bitxor |a, b| a ^ b; i32, u32, i64, u64);
    op!(Shl shl |a, b| a << b; i32, u32, i64, u64); op!(Shr shr |a, b| a >> b; i32, u32, i64, u64);
    op!(Rem rem |a, b| a % b; f32, f64);
    op!(Div div |a, b| a.wrapping_div(b); i32, u32, i64, u64); op!(Rem rem |a, b| a.wrapping_rem(b); i32, u32, i64, u64);
    macro_rules! assign { ($($tr:ident $f:ident $op:tt),*; $t:tt) => { $(impl<const N: usize> $tr for Simd<$t, N> { fn $f(&mut self, o: Self) { *self = *self $op o; } })* } }
    assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /; f32);
    assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /; f64);
    macro_rules! neg { ($($t:ty),*) => { $(impl<const N: usize> Neg for Simd<$t, N> { type Output = Self; fn neg(self) -> Self { Simd(self.0.map(|a| -a)) } })* } }
    neg!(f32, f64, i32, i64);
    macro_rules! not { ($($t:ty),*) => { $(impl<const N: usize> Not for Simd<$t, N> { type Output = Self; fn not(self) -> Self { Simd(self.0.map(|a| !a)) } })* } }
    not!(i32, u32, i64, u64);
    macro_rules! float { ($t:ident $u:ident $i:ident) => { impl<const N: usize> Simd<$t, N> {
        pub fn to_bits(self) -> Simd<$u, N> { Simd(self.0.map(|a| a.to_bits())) }
        pub fn from_bits(u: Simd<$u, N>) -> Self { Simd(u.0.map(|a| $t::from_bits(a))) }
        pub fn abs(self) -> Self { Simd(self.0.map(|a| a.abs())) }
        pub fn recip(self) -> Self { Simd(self.0.map(|a| 1.0 / a)) }
        pub fn signum(self) -> Self { Simd(self.0.map(|a| a.signum())) }
        pub fn is_nan(self) -> Mask<N> { Mask(self.0.map(|a| a.is_nan())) }
        pub fn copysign(self, o: Self) -> Self { Simd(z(self.0, o.0, |a: $t, b: $t| a.copysign(b))) }
        pub fn min(self, o: Self) -> Self { Simd(z(self.0, o.0, |a: $t, b: $t| a.min(b))) }
        pub fn max(self, o: Self) -> Self { Simd(z(self.0, o.0, |a: $t, b: $t| a.max(b))) }
    }
    impl<const N: usize> super::StdFloat for Simd<$t, N> {
        fn mul_add(self, a: Self, b: Self) -> Self { Simd(std::array::from_fn(|i| self.0[i].mul_add(a.0[i], b.0[i]))) }
        fn sqrt(self) -> Self { Simd(self.0.map(|a| a.sqrt())) }
        fn round(self) -> Self { Simd(self.0.map(|a| a.round())) }
        fn floor(self) -> Self { Simd(self.0.map(|a| a.floor())) }
        fn ceil(self) -> Self { Simd(self.0.map(|a| a.ceil())) }
        fn trunc(self) -> Self { Simd(self.0.map(|a| a.trunc())) }
    } } }
    float!(f32 u32 i32); float!(f64 u64 i64);
}
pub trait StdFloat: Sized { fn mul_add(self, a: Self, b: Self) -> Self; fn sqrt(self) -> Self; fn round(self) -> Self; fn floor(self) -> Self; fn ceil(self) -> Self; fn trunc(self) -> Self; }
"""


def simd_trait(functions):
    """functions: (name, number of arguments besides self)"""
    return "pub trait StdLibm: Sized { type IntType; type UintType; %s }" % " ".join(
        "fn %s(self%s) -> Self;" % (f, "".join(", a%d: Self" % i for i in range(n))) for f, n in functions)


def run_simd_batch(args):
    n, bits, progs, wd = args
    src = header(bits) + "\n".join(
        "%s\npub fn f%d(x: fty, y: fty) -> fty { %s }" % (p.items.replace("@", str(i)), i, p.body.replace("@", str(i))) for i, p in enumerate(progs))
    r = core.vh([["tosimd", src, str(bits)]])[0]
    base = os.path.join(wd, "s%d" % n)
    if r.status != "OK":
        return 0, [("to_simd: %s %s" % (r.status, list(r)[:1]), src)], []
    functions = [(m.group(1), m.group(2).count("fty")) for m in re.finditer(r"fn (\w+)\(\w+: fty((?:, \w+: fty)*)\)", src)]
    main = ["#![allow(warnings)]", SHIM, "use simd::Simd;", simd_trait(functions), "mod m {", src, "}", header(bits)]
    main.append("static TABLE: &[(fn(fty, fty) -> fty, fn(Simd<fty, 4>, Simd<fty, 4>) -> Simd<fty, 4>, u8)] = &[")
    for i, p in enumerate(progs):
        main.append("(m::f%d, <Simd<fty, 4> as StdLibm>::f%d, %d)," % (i, i, ("all", "finite", "pos", "ints").index(p.grid)))
    main.append("];" + RUST_MAIN)
    main.append("fn main() { let grids: [&[fty]; 4] = [&[%s], &[%s], &[%s], &[%s]]; let mut n = 0u64;" % (
        ",".join(GRID[bits]), ",".join(FINITE), ",".join(POS), ",".join(["-3.0", "-1.0", "0.0", "1.0", "2.0", "5.0", "1000.0"])))
    # every pair of the grid is in every lane once, beside three other pairs
    main.append("""for (i, t) in TABLE.iter().enumerate() { let g = grids[t.2 as usize]; let k = g.len(); 'o: for p in 0..k * k {
        let at = |j: usize| { let q = (p + j * (k + 3)) % (k * k); (g[q / k], g[q % k]) };
        let x = Simd(std::array::from_fn(|j| at(j).0)); let y = Simd(std::array::from_fn(|j| at(j).1));
        let b = (t.1)(x, y);
        for j in 0..4 { n += 1; let (x, y) = at(j); let a = (t.0)(x, y);
        if !same(0, a, b.0[j]) { println!("BAD {} {:?} {:?} {:?} {:?}", i, x, y, a, b.0[j]); break 'o; } } } } println!("CALLS {}", n); }""")
    main.append("mod gen {")
    first = len("\n".join(main).split("\n"))
    main.append(r[0])
    main.append("}")
    with open(base + ".rs", "w") as f:
        f.write("\n".join(main))
    g = subprocess.run(["rustc", "--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=off", "-C", "debug-assertions=off",
                        "-C", "codegen-units=1", "-o", base, base + ".rs"], capture_output=True, text=True)
    if g.returncode:
        text = "\n".join(main).split("\n")
        drop, wrong = set(), None
        for m in re.finditer(r"^error[^\n]*\n(?:[^\n]*\n)*?\s*--> \S+?:(\d+):", g.stderr, re.M):
            line = int(m.group(1))
            f = re.match(r"pub fn f(\d+)\(", text[line - 1])
            if f:
                drop.add(int(f.group(1)))
            elif line > first:
                j = line - 1
                while j > first and not re.search(r"\bfn \w+", text[j]):
                    j -= 1
                wrong = wrong or (m.group(0).split("\n")[0], " ".join(text[j:line + 1])[:500])
        if wrong and not drop:
            f = re.search(r"fn f(\d+)", wrong[1])
            p = progs[int(f.group(1))] if f and int(f.group(1)) < len(progs) else None
            return 0, [("the portable-simd code of { %s } does not compile: %s  %s" % (p.body if p else "?", wrong[0], wrong[1]), src)], []
        if not drop:
            raise core.CheckError("rustc: " + g.stderr[:3000])
        c, bad, d = run_simd_batch((n, bits, [p for i, p in enumerate(progs) if i not in drop], wd))
        return c, bad, d + [progs[i] for i in drop]
    g = subprocess.run([base], capture_output=True, text=True, timeout=300)
    bad, calls = [], 0
    for line in g.stdout.split("\n"):
        if line.startswith("CALLS"):
            calls = int(line.split()[1])
        elif line.startswith("BAD"):
            _, i, x, y, a, b = line.split()
            p = progs[int(i)]
            bad.append(("%s fn f(x, y) { %s } at (%s, %s) is %s in Rust and %s in its lane (%d bit)" % (p.items, p.body, x, y, a, b, bits),
                        header(bits) + p.items.replace("@", "0") + "\npub fn f0(x: fty, y: fty) -> fty { %s }" % p.body.replace("@", "0")))
    if not calls:
        bad.append(("the program ended with %s: %s" % (g.returncode, g.stderr[:300]), src))
    for e in (".rs", ""):
        if os.path.exists(base + e):
            os.remove(base + e)
    return calls, bad, []


def simd_programs(bits, quick):
    k = KINDS[bits]
    U, I, F = k["uty"], k["ity"], k["fty"]
    out, seen = [], set()
    x, y, h = VAR("x"), VAR("y"), NUM("2.5" + F)
    ar = ("+", "-", "*", "/")

    def expr(e, **kw):
        for t in (show_min(e), show(e, True)):
            if t not in seen:
                seen.add(t)
                out.append(Program(t, **kw))
    for e in upto(2, (x, y, h), ar, ("-",), (("abs", 0), ("recip", 0), ("sqrt", 0), ("copysign", 1))):
        expr(e, kind="arithmetic")
    for e in trees(3, (x, y), ar, ("-",)):
        expr(e, kind="arithmetic")
    if not quick:
        for e in trees(4, (x, y), ("-", "/"), ("-",)):
            expr(e, kind="arithmetic")
    for e in upto(2, (x, y, NUM("0.5" + F)), ("-", "*"), ("-",), (("mul_add", 2),)):
        if "mul_add" in show(e):
            expr(e, kind="mul_add")
    for m in ("floor", "ceil", "trunc", "round", "signum"):
        for t in ("x", "-x", "(x + y)", "(x * 2.5)", "x.abs()"):
            out.append(Program("%s.%s() - y" % (t, m), kind="method"))
    for m in ("min", "max"):
        for a, b in itertools.product(("x", "(x - y)", "x.abs()"), ("y", "-y", "y * 2.0", "1.0")):
            out.append(Program("%s.%s(%s)" % (a, m, b), grid="pos", kind="method"))
    # conditions and choices
    conds = []
    for c in ("<", "<=", ">", ">=", "==", "!="):
        for a, b in itertools.product(("x", "-x", "x + 1.0", "x.abs()", "x * y", "-(x - y)"), ("y", "1.0", "-y", "y - x", "-0.5", "2.0 * y")):
            b = "(%s)" % b if c == "<" else b
            conds.append("%s %s %s" % (a, c, b))
    conds += ["!(%s)" % c for c in conds[::7]]
    for c in conds:
        out.append(Program("if %s { x - y } else { y + 1.0 }" % c, kind="condition"))
    leaves = ["x", "y - 1.0", "-x", "%s::NAN" % F]
    cs = ["x < y", "y <= 0.5"]
    ifs1 = ["if %s { %s } else { %s }" % (c, a, b) for c in cs for a in leaves for b in leaves if a != b]
    out += [Program(t, kind="choice") for t in ifs1]
    for c in cs:
        for t in ifs1:
            for a in leaves[:2]:
                out.append(Program("if %s { %s } else { %s }" % (c, t, a), kind="choice"))
                out.append(Program("if %s { %s } else %s" % (c, a, t), kind="choice"))
                out.append(Program("let z = %s; z * 2.0" % t, kind="choice"))
                out.append(Program("%s - (%s)" % (a, t), kind="choice"))
                out.append(Program("(%s).abs() - (%s)" % (t, a), kind="choice"))
    for t in ("let c = x < y; if c { x } else { 1.0 }", "let c: bool = x >= y; if !c { x } else { 1.0 }"):
        out.append(Program(t, kind="choice"))
    # integers of the same size
    pre = "let u: uty = x.to_bits(); let v: uty = y.to_bits(); "
    ul = [VAR("u"), VAR("v"), NUM("5" + U)]
    for e in upto(2, ul, ("&", "|", "^", "+", "-", "*"), (), ()):
        for t in {show_min(e), show(e, True)}:
            out.append(Program(pre + "(%s) as fty" % t, kind="integers"))
    for e in trees(1, ul, ("&", "|", "+"), ()):
        t = show_min(e)
        for op in (">>", "<<"):
            for tt in ("(%s) %s 3%s" % (t, op, U), "%s %s 3%s" % (t, op, U), "(u %s 3%s) & v" % (op, U), "(v >> 2%s) ^ (%s)" % (U, t)):
                out.append(Program(pre + "(%s) as fty" % tt, kind="shifts"))
                out.append(Program(pre + "fty::from_bits(%s) - 1.0" % tt, kind="bits"))
    for e in ("u", "u & v", "u | 1%s" % U, "u.wrapping_add(v)"):
        if "wrapping" in e:
            continue
        for f in ("fty::from_bits(%s)", "-fty::from_bits(%s)", "fty::from_bits(%s) * 2.0", "fty::from_bits((%s) >> 2%s).to_bits() as fty" % ("%s", U), "fty::from_bits(%s).abs()"):
            out.append(Program(pre + f % e, kind="bits"))
    prei = "let i: ity = x as ity; let j: ity = y as ity; "
    il = [VAR("i"), VAR("j"), NUM("3" + I)]
    for e in upto(2, il, ("+", "-", "*", "&", "|"), ("-",)):
        for t in {show_min(e), show(e, True)}:
            out.append(Program(prei + "(%s) as fty" % t, grid="ints", kind="signed"))
    for c in ("<", ">", "<=", ">=", "==", "!="):
        for a, b in (("i", "j"), ("i + 1" + I, "j"), ("-i", "j - i"), ("i", "-1" + I)):
            out.append(Program(prei + "if (%s) %s (%s) { x } else { y }" % (a, c, b), grid="ints", kind="signed"))
    for t in ["x as ity as fty", "(x as ity) as fty * y", "-x as ity as fty", "(-x) as ity as fty", "(x * 2.5) as ity as fty", "x + y as ity as fty", "(x + y) as ity as fty", "-(x as ity) as fty",
              "x.round() as ity as uty as fty", "(x as ity as uty >> 1%s) as fty" % U, "((x as ity) - (y as ity)) as fty", "x * (x as ity as fty)", "x - x as ity as fty", "x as fty - y",
              "(x.abs() as uty + 1%s) as fty" % U, "(x.to_bits() as ity) as fty", "((x.to_bits() as ity) >> 3%s) as fty" % I, "((x as ity + 7%s) << 2%s) as fty" % (I, I), "x.abs() as uty as fty"]:
        out.append(Program(t, grid="ints", kind="casts"))
        out.append(Program("let z = %s; z - y" % t, grid="ints", kind="casts"))
    # literals and constants
    for l in ["1.0", "0.1", "1e3", "1.5e-3", "0.1" + F, "2" + F, "1.", "0.30000000000000004", "16777217.0", "%s::from_bits(%s)" % (F, "4609434218613702656u64" if bits == 64 else "1069547520u32"),
              "%s::from_bits(0x%s)" % (F, "bff8000000000000u64" if bits == 64 else "bfc00000u32"), "%s::INFINITY" % F, "%s::MIN_POSITIVE" % F, "%s::NAN" % F]:
        for t in ("x * %s", "%s - x", "-%s", "x + -%s", "if x < (%s) { %s } else { x }", "x / %s / %s", "x.mul_add(%s, -%s)", "(%s)"):
            out.append(Program(t.replace("%s", l), kind="literals"))
    # statements
    pool = ["let a = x * 2.0;", "let a: fty = y - 0.5;", "let a = a - y;", "let b = { let a = a + 1.0; a * x };", "let x = y;", "let y = x - y;", "let b = if a < y { a } else { y - a };", "let b: fty = -a;", "let a = b.mul_add(x, a);",
            "let arg: fty = x - 1.0;", "let mut a = x;", "a = a - y;", "a += y;"]
    finals = ["x - y", "a", "b", "a - b", "arg * x"]
    for n in range(1, 5 if quick else 6):
        for ss in itertools.product(pool, repeat=n):
            env, ok = {"x": 0, "y": 0}, len(set(ss)) == n
            for s in ss:
                m = re.match(r"let (mut )?(\w+)(: \w+)? = (.*);$", s)
                used = set(re.findall(r"\b(?!let\b|if\b|else\b|mut\b|fty\b|mul_add\b)[a-z]\w*\b", m.group(4) if m else s))
                if s.startswith("let b = {"):
                    used = {"a", "x"}
                ok = ok and all(u in env for u in used) and (m or env.get(s.split()[0]) == 1)
                if not ok:
                    break
                if m:
                    env[m.group(2)] = 1 if m.group(1) else 0
            if ok:
                for f in finals:
                    if set(re.findall(r"[a-z]+", f)) <= set(env):
                        out.append(Program(" ".join(ss) + " " + f, kind="statements"))
    out += long_programs(bits, True)
    out += plain_programs(bits, True)
    # patterns that bind nothing
    for w in ("let _ = 0;", "let _ = x * 2.0;", "let _: fty = y;", "let _ = if x < y { x } else { y };", "let _ = (x - y).abs();"):
        for t in ("%s x - y", "let a = x - y; %s a * x", "let a = { %s x * 2.0 }; a - y", "%s %s x - y"):
            out.append(Program(t.replace("%s", w), kind="wildcards"))
    for t in ["K@ * x", "x - K@ - y", "-K@", "K@.sqrt()", "if x < K@ { L@ } else { y }", "g@(x) - g@(y)", "g@(x - y)", "g@(g@(x))", "-g@(-x)", "h@(x, y) - h@(y, x)", "h@(g@(x), K@)", "h@(x, y).abs()",
              "h@(x + 1.0, if x < y { x } else { y })", "M@ as fty * x", "(N@ & x.to_bits()) as fty", "g@(x) * h@(x, 2.0)", "h@(h@(x, y), h@(y, x)) / K@", "fty::from_bits(N@) + x", "h@(K@, L@) - P@", "P@ * x", "k@(x)", "x - k@(y)"]:
        out.append(Program(t, items="const K@: fty = 1.75; const L@: fty = -0.3; const M@: ity = -5%s; const N@: uty = 0x3ff0000%s; const P@: fty = K@ * 2.0; pub fn k@(arg: fty) -> fty { let y = arg - P@; y * arg } pub fn g@(a: fty) -> fty { let x = a * 2.0; x - K@ } "
                                    "pub fn h@(y: fty, x: fty) -> fty { if y < x { g@(y) } else { x - y * y } }" % (I, U), kind="items"))
    return out


def check_G03(ctx):
    wd = core.workdir("g03-" + ctx.tier)
    batches, n, total, kinds = [], 0, 0, {}
    for bits in (64, 32):
        progs = simd_programs(bits, ctx.quick)
        for p in progs:
            kinds[p.kind] = kinds.get(p.kind, 0) + 1
        total += len(progs)
        for i in range(0, len(progs), 300):
            batches.append((n, bits, progs[i:i + 300], wd))
            n += 1
        for p in progs[:: max(1, len(progs) // 6)]:
            ctx.sample(p.items + p.body)
    calls, dropped = 0, []
    core.build()
    with ThreadPoolExecutor(core.JOBS) as ex:
        for c, bad, d in ex.map(run_simd_batch, batches):
            calls += c
            dropped += d
            for what, src in bad:
                ctx.violation(what, requests=[["tosimd", src, "64"]] if len(src) < 3000 else [], source=src[:20000])
    ctx.count(states=total, transitions=calls, traces=calls)
    ctx.note("programs_by_kind", kinds)
    ctx.note("left_out_as_no_valid_rust", len(dropped))
    if os.environ.get("VERIF_SHOW"):
        for p in dropped:
            print("no program:", p.kind, p.body)
    if len(dropped) > total // 50:
        raise core.CheckError("too many programs are no valid Rust: %s" % [p.body for p in dropped[:10]])
    ctx.assumptions += ["a plain-array stand-in for portable-simd (checked lane operations only) gives the meaning of the vector operations"]
    import shutil
    shutil.rmtree(wd, ignore_errors=True)
