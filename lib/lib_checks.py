"""L01-L07: the generated library: which items a selection holds, that it compiles, that the
number formats and languages agree, and that the generated tests decide what they claim."""
import itertools, os, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import core
from codegen_checks import SHIM

# ---------------------------------------------------------------- running libmgen
_cache = {}
_lock = threading.Lock()


class Run:
    __slots__ = ("rc", "out", "err", "args")


def mgen(args, keep=True):
    """Run libmgen; a run that does not end in time has rc None."""
    key = tuple(args)
    with _lock:
        if key in _cache:
            return _cache[key]
    r = Run()
    r.args = list(args)
    try:
        p = subprocess.run([os.path.join(core.build(), "libmgen")] + list(args), stdin=subprocess.DEVNULL, capture_output=True, timeout=600,
                           preexec_fn=core._limits)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        r.rc, r.out, r.err = None, "", ""
    if keep:
        with _lock:
            _cache[key] = r
    return r


def par(f, xs):
    with ThreadPoolExecutor(core.JOBS) as ex:
        return list(ex.map(f, xs))


def all_names(ctx):
    r = mgen(["-f", "help"])
    names = r.out.split()
    if r.rc != 0 or len(names) < 20:
        ctx.violation("-f help does not list the functions: rc %s, %d names" % (r.rc, len(names)))
        raise core.StopCheck()
    return names


def items_of(texts):
    """[(kind, name, tokens)] of each text, or None where it is no Rust file."""
    out = []
    for r in core.vh([["items", t] for t in texts], stall=120):
        if r.status != "OK":
            out.append(None)
        else:
            out.append([tuple(r[i:i + 3]) for i in range(0, len(r) - 2, 3)])
    return out


# What a group is documented to hold (by its name): losing one of these is losing a function.
GROUPS = {
    "invtrig": "asin acos atan atan2", "trig": "sin cos tan asin acos atan atan2", "invhyperbolic": "asinh acosh atanh",
    "hyperbolic": "sinh cosh tanh asinh acosh atanh", "logexp": "exp2 exp exp_m1 log2 ln_1p ln log10 log powf powi",
    "recip_sqrt": "recip sqrt cbrt", "normal": "rnorm dnorm qnorm", "stats": "rnorm dnorm qnorm runif",
    "libm": "exp2 exp exp_m1 log2 ln_1p ln log10 log powf powi sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh recip sqrt cbrt",
    "all": "exp2 exp exp_m1 log2 ln_1p ln log10 log powf powi sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh recip sqrt cbrt rnorm dnorm qnorm runif",
}
FUNCTIONS = ("round negate_on_odd recip_approx sqrt_approx cbrt_approx nextafter sinh cosh tanh asinh acosh atanh asin acos atan atan2 exp2 exp exp_m1 log2 ln_1p ln log10 log powf powi "
             "sqrt cbrt recip hypot runif dnorm pnorm qnorm rnorm sin cos tan sin_cos").split()


# ---------------------------------------------------------------- L01
def check_L01(ctx):
    names = all_names(ctx)
    bits = "32"

    def sel(s, x=()):
        return ["--num-bits", bits, "-f", ",".join(s)] + (["-x", ",".join(x)] if x else [])
    for want in FUNCTIONS + list(GROUPS):
        if want not in names:
            ctx.violation("%s is not offered by -f help" % want)
    asked = {}     # (selection, exclusion) -> list of item names, in order
    text = {}      # item name -> tokens in the selection that names it alone

    def ask(queries):
        new = [q for q in dict.fromkeys(queries) if q not in asked]
        runs = par(lambda q: mgen(sel(*q), keep=False), new)
        its = items_of([r.out for r in runs])
        for q, r, it in zip(new, runs, its):
            if r.rc != 0 or it is None:
                ctx.violation("libmgen %s: rc %s, %s" % (" ".join(sel(*q)), r.rc, "the code cannot be read" if it is None else ""), command=sel(*q))
                it = []
            asked[q] = [i[1] for i in it]
            for i in it:
                if i[1] in text and text[i[1]] != i[2]:
                    ctx.violation("the text of %s depends on what else is selected (libmgen %s)" % (i[1], " ".join(sel(*q))), command=sel(*q))
                text.setdefault(i[1], i[2])
            miss = [x for x in q[1] if x in asked[q]]
            if miss:
                ctx.violation("excluded %s is generated all the same (libmgen %s)" % (miss, " ".join(sel(*q))), command=sel(*q))
            if len(set(asked[q])) != len(asked[q]):
                ctx.violation("an item is generated twice: libmgen %s: %s" % (" ".join(sel(*q)), asked[q]), command=sel(*q))
        ctx.count(transitions=len(new), traces=len(new))

    ask([((s,), ()) for s in names])
    D = {s: set(asked[((s,), ())]) for s in names}
    visible = [s for s in names if s in D[s]]
    hidden = [s for s in names if s not in D[s]]
    for s in FUNCTIONS:
        if s in names and s not in D[s]:
            ctx.violation("-f %s generates no function %s" % (s, s), key=s)
    for g, members in GROUPS.items():
        for m in members.split():
            if m not in D.get(g, ()):
                ctx.violation("-f %s does not generate %s" % (g, m), key="%s:%s" % (g, m))
    for s in names:                # private helpers of an item are no names
        D[s] &= set(names)
    # the edges of the dependency graph, found by excluding everything else
    A = list(names)
    q = {}
    for s in names:
        for t in names:
            if s == t or not (t in D[s] or (t in hidden and D[t] and D[t] <= D[s])):
                continue
            if t in visible:
                q[(s, t)] = ((s,), tuple(x for x in A if x not in (s, t)))
    ask(q.values())
    edge = {s: {t for t in names if (s, t) in q and t in asked[q[(s, t)]]} for s in names}
    for s in names:                # edges to groups show by what the group alone brings
        for g in hidden:
            if s != g and D[g] and D[g] <= D[s]:
                probe = next((t for t in sorted(edge[g]) if t in visible and t not in edge[s]), None)
                if probe:
                    k = ((s,), tuple(x for x in A if x not in (s, g, probe)))
                    ask([k])
                    if probe in asked[k]:
                        edge[s].add(g)
    for _ in names:                # groups of groups
        for s in names:
            for g in hidden:
                if s != g and g not in edge[s] and D[g] and D[g] <= D[s]:
                    inner = next((h for h in sorted(edge[g]) if h in hidden and h not in edge[s]), None)
                    if inner and not any(t in visible for t in edge[g] - edge[s]):
                        probe = next((t for t in sorted(edge[inner]) if t in visible and t not in edge[s] and t not in edge[g]), None)
                        if probe:
                            k = ((s,), tuple(x for x in A if x not in (s, g, inner, probe)))
                            ask([k])
                            if probe in asked[k]:
                                edge[s].add(g)

    def model(S, X):
        seen, stack = set(), [s for s in S if s not in X and s in edge]
        while stack:
            s = stack.pop()
            if s in seen:
                continue
            seen.add(s)
            stack += [t for t in edge[s] if t not in X]
        return {s for s in seen if s in visible}
    order = {}
    full = ((",".join(names),), ())
    ask([(tuple(names), ())])
    for i, n in enumerate(asked[(tuple(names), ())]):
        order[n] = i

    def judge(queries):
        ask(queries)
        for k in queries:
            got = [g for g in asked[k] if g in edge]
            if set(got) != model(*k):
                ctx.violation("libmgen %s: generates %s beyond and lacks %s of what the selection needs" % (" ".join(sel(*k)), sorted(set(got) - model(*k)), sorted(model(*k) - set(got))), command=sel(*k))
            if any(g not in order for g in got) or [order[g] for g in got] != sorted(order[g] for g in got):
                ctx.violation("libmgen %s: the items are not in the order of the full library: %s" % (" ".join(sel(*k)), got), command=sel(*k))
        ctx.count(states=len(queries))
    judge([((s,), ()) for s in names])
    # nothing an item mentions is missing: it holds for every selection because text does not depend on it
    known = set(visible)
    for s in visible:
        code = re.sub(r'r?"[^"]*"', '""', text[s])        # without documentation
        words = set(re.findall(r"[A-Za-z_]\w*", code)) & known
        local = set(re.findall(r"(?:let (?:mut )?|fn |[(,] ?)([a-zA-Z_]\w*)(?= :|,| =)", code))
        for w in words - {s}:
            if w not in D[s] and w not in local and not re.search(r"\. %s \(" % w, code):
                ctx.violation("%s mentions %s, which -f %s does not generate" % (s, w, s), key="%s:%s" % (s, w))
    # one exclusion, two exclusions
    judge([((s,), (x,)) for s in names for x in sorted(D[s] | {g for g in hidden if D[g] <= D[s]})])
    pairs = list(itertools.combinations(names, 2))
    heavy = {"all", "libm", "stats", "normal", "qnorm", "rnorm"}
    if ctx.quick:
        pairs = [p for i, p in enumerate(pairs) if not (set(p) & heavy) or i % 4 == 0]
    judge([(p if i % 2 else (p[1], p[0]), ()) for i, p in enumerate(pairs)])
    some = [s for s in names if s not in heavy]
    judge([((a, b, a), ()) for a, b in zip(some, some[7:])] + [((a, a), ()) for a in some])
    judge([((a, "no_such_function", b), ("nor_this",)) for a, b in zip(some, some[3:])])
    core_names = ["sin", "cos", "round", "fty", "PI", "exp2", "logexp", "sqrt", "trig", "uty", "atan2", "hypot"]
    core_names = [c for c in core_names if c in names]
    judge([((s,), x) for s in (core_names if ctx.quick else names) for x in itertools.combinations(sorted(D[s] - {s}), 2)][:: 3 if ctx.quick else 1])
    judge([(t, ()) for t in itertools.permutations(core_names[:5] if ctx.quick else core_names, 3)])
    if not ctx.quick:
        judge([((b, a), ()) for a, b in pairs] + [((a, b), ()) for a, b in pairs])
        judge([((a, b), (x,)) for a, b in itertools.combinations(core_names, 2) for x in sorted((D[a] | D[b]))])
        judge([(t, ()) for t in itertools.permutations(core_names[:5], 4)])
    # unknown and excluded names are reported beside the code, never in it
    for s, x, word in (("sin,zzz", "", "zzz"), ("sin", "round", "round"), ("zzz", "", "zzz")):
        r = mgen(["-f", s] + (["-x", x] if x else []))
        if word not in r.err:
            ctx.violation("libmgen -f %s -x %s does not report %s" % (s, x, word))
    ctx.note("edges", sum(len(e) for e in edge.values()))
    ctx.note("names", len(names))
    for k in list(asked)[:: max(1, len(asked) // 10)]:
        ctx.sample("%s -> %s" % (" ".join(sel(*k))[:200], ",".join(asked[k])[:200]))
    ctx.assumptions.append("the dependency graph of the model is read off the program itself by excluding everything else; the selections are then compared with the closure in that graph")


# ---------------------------------------------------------------- compiling
RUSTC = ["rustc", "--edition", "2021", "-C", "debuginfo=0", "-C", "overflow-checks=off", "-C", "debug-assertions=off", "-C", "codegen-units=1"]


def simd_signatures(code):
    """The methods a portable-simd file implements, as the trait that declares them."""
    it = items_of([code])[0]
    if it is None:
        return None
    sigs = []
    for kind, name, tokens in it:
        if kind == "impl":
            sigs += re.findall(r"fn (\w+) \((.*?)\) -> (.*?) \{", tokens)
    return sigs


def simd_module(name, code):
    sigs = simd_signatures(code)
    if sigs is None:
        return None
    trait = "pub trait StdLibm: Sized { type IntType; type UintType; %s }" % " ".join("fn %s(%s) -> %s;" % s for s in sigs)
    return "pub mod %s { pub use super::simd; pub use super::StdFloat; %s pub mod gen { %s } }" % (name, trait, code)


def rustc_errors(err):
    """(line, message) of each error."""
    out = []
    for m in re.finditer(r"^error[^\n]*\n(?:[^\n]*\n)*?\s*--> \S+?:(\d+):", err, re.M):
        out.append((int(m.group(1)), m.group(0).split("\n")[0]))
    return out


def compile_modules(wd, base, mods, test=False, pre=""):
    """mods: [(label, module text)]; returns {label: message} of those that do not compile."""
    bad = {}
    mods = list(mods)
    while mods:
        path = os.path.join(wd, base + ".rs")
        starts = []
        line = 1
        with open(path, "w") as f:
            head = "#![allow(warnings)]\n" + pre + "\n"
            f.write(head)
            line += head.count("\n")
            for label, m in mods:
                starts.append((line, label))
                f.write(m + "\n")
                line += m.count("\n") + 1
        g = subprocess.run(RUSTC + ["--emit=metadata", "--crate-type", "lib", "-o", os.path.join(wd, base + ".rmeta")] + (["--test"] if test else []) + [path], capture_output=True, text=True)
        if g.returncode == 0:
            return bad
        found = set()
        for l, msg in rustc_errors(g.stderr):
            lab = None
            for s, label in starts:
                if s <= l:
                    lab = label
            if lab is not None and lab not in found:
                found.add(lab)
                bad[lab] = msg
        if not found:
            if len(mods) == 1:
                bad[mods[0][0]] = g.stderr.strip()[:300]
                return bad
            raise core.CheckError("rustc: " + g.stderr[:2000])
        mods = [m for m in mods if m[0] not in found]
    return bad


C_FLAGS = ["-std=gnu11", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=return-type"]
C_LIBRARY = set("acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh exp exp2 expm1 fabs floor fma fmax fmin fmod hypot log log10 log1p log2 nearbyint nextafter pow remainder rint round sin sincos sinh sqrt tan tanh trunc "
                "lround llround lrint llrint ldexp scalbn".split())
C_LIBRARY |= {x + "f" for x in C_LIBRARY} | {"_GLOBAL_OFFSET_TABLE_", "__stack_chk_fail"}


def check_L02(ctx):
    wd = core.workdir("l02-" + ctx.tier)
    names = all_names(ctx)
    sels = [(n,) for n in names] + [("sin", "exp"), ("trig", "logexp"), ("hypot", "negate_on_odd", "cbrt"), ("libm", "stats", "nextafter"), tuple(n for n in names if n != "sin_cos")]
    if not ctx.quick:
        sels += list(itertools.combinations([n for n in names if n not in ("all", "libm", "stats", "normal", "sin_cos")], 2))
    configs = [(b, t) for b in ("32", "64") for t in ("decimal", "hex")]
    jobs = [(s, b, t, l) for s in sels for b, t in (configs if len(s) != 2 or ctx.quick else configs[:1]) for l in ("rust", "c", "portable-simd")]
    # What uses an index cannot be a method of a vector of floats, and is not offered as one.
    scalar_only = set()
    for n in names:
        if "usize" in mgen(["--num-bits", "32", "-f", n]).out:
            scalar_only.add(n)
    jobs = [j for j in jobs if not (j[3] == "portable-simd" and set(j[0]) & scalar_only)]
    runs = par(lambda j: mgen(["-f", ",".join(j[0]), "--num-bits", j[1], "--number-type", j[2], "--language", j[3]], keep=len(j[0]) == 1), jobs)
    rust, simd, cs = [], [], []
    for j, r in zip(jobs, runs):
        if r.rc != 0:
            ctx.violation("libmgen %s ends with %s: %s" % (" ".join(r.args), r.rc, r.err[-300:]), command=r.args)
        elif j[3] == "rust":
            rust.append((j, r.out))
        elif j[3] == "c":
            cs.append((j, r.out))
        else:
            simd.append((j, r.out))

    def report(j, msg):
        key = "%s:%s" % (j[3], ",".join(j[0]))
        ctx.violation("libmgen -f %s --num-bits %s --number-type %s --language %s gives code that does not compile: %s" % (",".join(j[0]), j[1], j[2], j[3], msg), key=key,
                      command=["-f", ",".join(j[0]), "--num-bits", j[1], "--number-type", j[2], "--language", j[3]])

    def rust_part(k):
        part = rust[k::core.JOBS]
        return compile_modules(wd, "r%d" % k, [(j, "pub mod m%d { %s\n}" % (i, code)) for i, (j, code) in enumerate(part)])

    def simd_part(k):
        part, mods, bad = simd[k::core.JOBS], [], {}
        for i, (j, code) in enumerate(part):
            m = simd_module("m%d" % i, code)
            if m is None:
                bad[j] = "it is no Rust file"
            else:
                mods.append((j, m))
        bad.update(compile_modules(wd, "s%d" % k, mods, pre=SHIM))
        return bad

    def c_one(n):
        (j, code) = cs[n]
        base = os.path.join(wd, "c%d" % n)
        with open(base + ".c", "w") as f:
            f.write(code)
        msg = None
        g = subprocess.run(["gcc", "-w", "-O0"] + C_FLAGS + ["-c", base + ".c", "-o", base + ".o"], capture_output=True, text=True)
        if g.returncode:
            msg = g.stderr.strip().split("\n")
            msg = next((m for m in msg if "error" in m), msg[0] if msg else "")[:300]
        else:
            u = subprocess.run(["nm", "-u", base + ".o"], capture_output=True, text=True).stdout.split()
            undefined = [x for x in u if x not in ("U", "w") and x not in C_LIBRARY]
            if undefined:
                msg = "it calls %s, which is nowhere" % undefined
            os.remove(base + ".o")
        os.remove(base + ".c")
        return j, msg
    for bad in par(rust_part, range(core.JOBS)) + par(simd_part, range(core.JOBS)):
        for j, msg in sorted(bad.items()):
            report(j, msg)
    for j, msg in par(c_one, range(len(cs))):
        if msg:
            report(j, msg)
    # the tests, with and without plots
    tests = [n for n in names if n in FUNCTIONS]
    tjobs = [(n, b, p) for n in tests for b in ("32", "64") for p in ("", "--generate-plots") if not (ctx.quick and (b == "64" or (p and n not in ("sin", "ln_1p", "runif"))))]
    truns = par(lambda j: (j, mgen(["-f", j[0], "--num-bits", j[1], "--generate-tests"] + ([j[2]] if j[2] else []))), tjobs)
    mods = []
    for j, r in truns:
        if r.rc != 0:
            ctx.violation("libmgen %s ends with %s: %s" % (" ".join(r.args), r.rc, r.err[-300:]), key="tests:%s" % j[0], command=r.args)
        else:
            mods.append((j, "pub mod m%d { %s\n}" % (len(mods), r.out)))

    def test_part(k):
        return compile_modules(wd, "t%d" % k, mods[k::core.JOBS], test=True)
    for bad in par(test_part, range(core.JOBS)):
        for j, msg in sorted(bad.items()):
            ctx.violation("the tests of libmgen -f %s --num-bits %s --generate-tests %s do not compile: %s" % (j + (msg,)), key="tests:%s" % j[0])
    n = len(jobs) + len(tjobs)
    ctx.count(states=n, transitions=n, traces=n)
    ctx.note("not_for_vectors", sorted(scalar_only))
    for j in jobs[:: max(1, len(jobs) // 10)]:
        ctx.sample("-f %s --num-bits %s --number-type %s --language %s" % (",".join(j[0])[:100], j[1], j[2], j[3]))
    ctx.assumptions += ["gcc and rustc decide what compiles; a plain-array stand-in declares the vector types of portable-simd"]
    shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------- L03
def check_L03(ctx):
    wd = core.workdir("l03-" + ctx.tier)
    sels = [("sin", ""), ("PI", ""), ("exp,ln", ""), ("recip_sqrt", "round"), ("hypot,zzz", ""), ("trig", "tan,zzz")]
    if not ctx.quick:
        sels += [(n, "") for n in all_names(ctx)] + [("libm", ""), ("all", ""), ("trig,logexp,hyperbolic,hypot,cbrt", "")]
    jobs = []
    for s, x in sels:
        for b, t, l in itertools.product(("32", "64"), ("decimal", "hex"), ("rust", "c", "portable-simd")):
            for opt in ([], ["--generate-tests"], ["--generate-tests", "--generate-plots"]) if l == "rust" and s in ("sin", "PI", "exp,ln", "recip_sqrt") else ([],):
                if opt and (b == "64" or t == "hex") and ctx.quick:
                    continue
                jobs.append(["-f", s, "--num-bits", b, "--number-type", t, "--language", l] + (["-x", x] if x else []) + opt)
    reps = 2 if ctx.quick else 4

    def one(n):
        args = jobs[n]
        out = []
        first = mgen(args, keep=False)
        if first.rc != 0:
            return ["libmgen %s ends with %s: %s" % (" ".join(args), first.rc, first.err[-200:])], "", args
        for _ in range(reps - 1):
            r = mgen(args, keep=False)
            if r.out != first.out or r.rc != 0:
                out.append("libmgen %s writes another text when it is run again" % " ".join(args))
        r = mgen(args + ["--debug"], keep=False)
        if r.out != first.out or r.rc != 0:
            out.append("libmgen %s --debug writes another text to standard output" % " ".join(args))
        path = os.path.join(wd, "o%d" % n)
        # a longer file of that name is there already
        with open(path, "w") as f:
            f.write("// junk\n" * (len(first.out) // 4 + 100))
        r = mgen(args + ["-o", path], keep=False)
        with open(path, errors="replace") as f:
            written = f.read()
        if r.rc != 0 or r.out != "":
            out.append("libmgen %s -o FILE ends with %s and writes %r to standard output" % (" ".join(args), r.rc, r.out[:100]))
        if written != first.out:
            out.append("libmgen %s -o FILE writes another text than standard output gets" % " ".join(args))
        os.remove(path)
        return out, first.out, args
    res = par(one, range(len(jobs)))
    rustish, csrc = [], []
    for bad, text, args in res:
        for b in bad:
            ctx.violation(b, command=args)
        (csrc if "c" in args else rustish).append((args, text))
        if not bad and not text.strip():
            ctx.violation("libmgen %s generates nothing" % " ".join(args), command=args)
    for (args, text), it in zip(rustish, items_of([t for _, t in rustish])):
        if it is None:
            ctx.violation("libmgen %s: standard output is not only code" % " ".join(args), command=args)

    def syntax(n):
        p = subprocess.run(["gcc", "-w", "-fsyntax-only", "-std=gnu11", "-x", "c", "-"], input=csrc[n][1], capture_output=True, text=True)
        return p.returncode, p.stderr
    for (args, text), (rc, err) in zip(csrc, par(syntax, range(len(csrc)))):
        if rc:
            ctx.violation("libmgen %s: standard output is not only code: %s" % (" ".join(args), err.strip()[:200]), command=args, key="c:" + args[1])
    # options that must not change a function: the prefix of C functions, tests beside them
    n = len(jobs) * (reps + 1)
    for b, own in (("32", "ds32_"), ("64", "ds64_")):
        for s in ("sin", "exp,ln", "hypot", "recip_sqrt") + (() if ctx.quick else ("libm",)):
            base = mgen(["-f", s, "--num-bits", b, "--language", "c"])
            for pre in ("zz_", "my", "ds32_", "d_s_"):
                r = mgen(["-f", s, "--num-bits", b, "--language", "c", "--function-prefix", pre])
                n += 1
                if r.rc != 0 or r.out != re.sub(r"\b" + own, pre, base.out):
                    ctx.violation("--function-prefix %s does not give the functions of -f %s --num-bits %s --language c that prefix" % (pre, s, b))
    for s in ("sin", "recip_sqrt", "exp,ln"):
        plain, tested = (mgen(["-f", s, "--num-bits", "32"] + o) for o in ([], ["--generate-tests"]))
        a, b = items_of([plain.out, tested.out])
        n += 2
        if a is None or b is None or [i for i in b if i in a] != a:
            ctx.violation("--generate-tests changes the functions of -f %s" % s)
        elif not [i for i in b if i not in a and "test" in i[2]]:
            ctx.violation("--generate-tests generates no test for -f %s" % s)
    # the prefix is for C only
    for s in ("sin", "exp,ln", "recip_sqrt"):
        for l in ("rust", "portable-simd"):
            base, r = (mgen(["-f", s, "--language", l] + o) for o in ([], ["--function-prefix", "zz_"]))
            n += 1
            if r.out != base.out or r.rc != 0:
                ctx.violation("--function-prefix changes -f %s --language %s" % (s, l))
    # asking for what there is not ends with a message and no code, nor is a file touched
    wrong = [["--language", "fortran"], ["--language", "C"], ["--language", "help"], ["--language", ""], ["--num-bits", "16"], ["--num-bits", "0"], ["--num-bits", "128"],
             ["--num-bits", "-32"], ["--num-bits", "x"], ["--num-bits", "33"], ["--number-type", "octal"], ["--number-type", "Hex"], ["--number-type", ""],
             ["--language", "c", "--generate-tests"], ["--language", "portable-simd", "--generate-tests"], ["--no-such"], ["extra"]]
    bad_jobs = [[]] + [["-f", f] + ex for f in ("no_such", "SIN", "no_such,nor_this", "sin cos", "help,zzz") for ex in ([], ["--language", "c"], ["--num-bits", "32"])]
    names = len(bad_jobs) - 1
    bad_jobs += [["-f", f] + w + ex for w in wrong for f in ("sin", "PI", "trig", "zzz") for ex in ([], ["--debug"], ["--language", "c"] if "--language" not in w else ["--num-bits", "32"] if "--num-bits" not in w else [])]

    def refuse(k):
        args = bad_jobs[k]
        path = os.path.join(wd, "r%d" % k)
        r = mgen(args, keep=False)
        with open(path, "w") as f:
            f.write("kept")
        q = mgen(args + ["-o", path], keep=False)
        with open(path) as f:
            kept = f.read()
        os.remove(path)
        if k <= names:  # a file of no functions has comments, directives and attributes at most
            bare = lambda t: re.sub(r"(?s)/\*.*?\*/|//[^\n]*|#!?\[[^\]]*\]", "", re.sub(r"(?m)^\s*#[^!\[].*$", "", t))
            r.out, q.out = bare(r.out), bare(q.out)
            if not bare(kept).strip():
                kept = "kept"
        return [r, q, kept]
    for args, (r, q, kept) in zip(bad_jobs, par(refuse, range(len(bad_jobs)))):
        n += 2
        for g in (r, q):
            if g.rc is None or g.out.strip() or not [l for l in g.err.split("\n") if l.strip() and not l.startswith("opt=")]:
                ctx.violation("libmgen %s: writes %r and says %r" % (" ".join(args), g.out[:100], g.err[:100]), command=args)
        if kept != "kept":
            ctx.violation("libmgen %s -o FILE writes %r to the file" % (" ".join(args), kept[:100]), command=args)
    # an unknown name beside known ones is reported and changes nothing
    for known in ("sin", "exp,ln", "recip_sqrt"):
        for l in ("rust", "c", "portable-simd"):
            base = mgen(["-f", known, "--language", l])
            for u in ("nosuch", "Sin", "zz9"):
                for f in (known + "," + u, u + "," + known):
                    r = mgen(["-f", f, "--language", l])
                    n += 1
                    if r.rc is None or r.out != base.out or u not in r.err:
                        ctx.violation("libmgen -f %s --language %s: not the text of -f %s, or no word of %s (%r)" % (f, l, known, u, r.err[:100]), command=["-f", f])
    r = mgen(["-f", "help"])
    if r.err or len(r.out.split()) != len(set(r.out.split())):
        ctx.violation("-f help: %r, names twice" % r.err[:100])
    ctx.count(states=len(jobs), transitions=n, traces=n)
    for a in jobs[:: max(1, len(jobs) // 10)]:
        ctx.sample(" ".join(a))
    shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------- L04-L06: the same functions in another dress
TEXT_ARGS = {"fty": "f", "ity": "i", "usize": "n"}
# Argument ranges: where the functions are defined to be used, and beyond, as long as no conversion
# of a float to an integer overflows (in C that has no meaning).
RANGE = {"sin": 1e6, "cos": 1e6, "tan": 1e6, "sin_cos": 1e6, "round": 1e6, "negate_on_odd": 1e6,
         # beyond this the estimate is a cast of a negative number to an unsigned one
         "recip": (1.6e38, 1e308), "recip_approx": (1.6e38, 1e308)}
# The scalar ln_1p uses the logarithm of the standard library, the vector one the logarithm of this library.
ALSO = {"ln_1p": "plain::ln(1.0 + a)"}


def functions_of(bits, selection, ctx):
    """{name: [argument kinds]} of the scalar library, from its own text."""
    r = mgen(["-f", selection, "--num-bits", str(bits)])
    it = items_of([r.out])[0]
    if r.rc != 0 or it is None:
        ctx.violation("libmgen -f %s --num-bits %s: no library" % (selection, bits))
        raise core.StopCheck()
    out = {}
    for kind, name, tokens in it:
        if kind != "fn":
            continue
        m = re.search(r"fn %s \((.*?)\) -> (\(.*?\)|\w+)" % name, tokens)
        if not m:
            continue
        args = [a.split(":")[1].strip() for a in m.group(1).split(",") if ":" in a]
        out[name] = (args, m.group(2).replace(" ", ""))
    return out


DRIVER = r"""
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
static CALLS: AtomicU64 = AtomicU64::new(0);
static OUT: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
fn bad(name: &str, what: String) {
    let mut o = OUT.lock().unwrap();
    if o.iter().filter(|x| x.0 == name).count() < 3 { o.push((name.to_string(), what)); }
}
pub trait Unfused { fn mul_add_(self, a: Self, b: Self) -> Self; }
impl Unfused for f32 { #[inline(always)] fn mul_add_(self, a: f32, b: f32) -> f32 { let p = self * a; p + b } }
impl Unfused for f64 { #[inline(always)] fn mul_add_(self, a: f64, b: f64) -> f64 { let p = self * a; p + b } }
fn same(a: fty, b: fty) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn grid1(stride: u64) -> Vec<fty> {
    let mut v = Vec::new();
    if std::mem::size_of::<fty>() == 4 {
        // the patterns themselves are walked by each job
    } else {
        let frac: [u64; 12] = [0, 1, 2, 3, 0x5555555555555, 0x6a09e667f3bcd, 0x8000000000000, 0x921fb54442d18, 0xb17217f7d1cf8, 0xfffffffffffff, 0xffffffffffffe, 0x7ffffffffffff];
        for e in 0..2048u64 { for s in 0..2u64 { for f in frac { v.push(f64::from_bits(s << 63 | e << 52 | f) as fty); } } }
    }
    let sp: [f64; 14] = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 0.25, 1e-3, 10.0, 100.0, 709.0, 1024.0, 126.5, 1e5];
    for x in sp { v.push(x as fty); v.push(-x as fty); }
    v.push(fty::INFINITY); v.push(fty::NEG_INFINITY); v.push(fty::NAN); v.push(fty::MIN_POSITIVE);
    v
}
fn grid2() -> Vec<fty> {
    let mut v: Vec<fty> = Vec::new();
    for e in [-130i32, -60, -20, -8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 9, 16, 40, 100] { for f in [1.0, 1.3, 1.75] { let x = (f * (2.0f64).powi(e)) as fty; v.push(x); v.push(-x); } }
    v.push(0.0); v.push(-0.0); v.push(fty::INFINITY); v.push(fty::NEG_INFINITY); v.push(fty::NAN); v.push(fty::MAX); v.push(fty::MIN_POSITIVE);
    for k in 0..64 { v.push(-4.0 + (k as fty) / 8.0); }
    v
}
fn grid3() -> Vec<fty> { vec![-5.0, -2.0, -1.0, -0.5, -0.3, 0.0, 1e-6, 0.001, 0.025, 0.1, 0.25, 0.4, 0.5, 0.75, 0.9, 0.975, 0.999, 1.0, 1.5, 2.0, 3.5, 10.0] }
"""


def driver(wd, base, bits, funcs, others, stride, ctx, pre="", cobj=None, threads=True):
    """funcs: {name: (arg types, ret)}; others: {label: (module text, call template with {f})}; every label is compared with
    one of the reference modules named in its tuple. Returns (calls, [(label, function, what)])."""
    F, I, U = ("f32", "i32", "u32") if bits == 32 else ("f64", "i64", "u64")
    src = ["#![allow(warnings)]", pre, "type fty = %s; type ity = %s; type uty = %s;" % (F, I, U), DRIVER]
    for label, (module, refs, call, names, limit) in others.items():
        src.append(module)
    jobs = []
    for label, (module, refs, call, names, limit) in others.items():
        for f in sorted(names):
            if f not in funcs:
                continue
            args, ret = funcs[f]
            if ret not in ("fty", "(fty,fty)") or any(a not in TEXT_ARGS for a in args):
                continue
            jobs.append((label, f, args, ret, refs, call, limit))
    src.append("fn main() {")
    src.append("let g1 = grid1(%d); let g2 = grid2(); let g3 = grid3();" % stride)
    src.append("let jobs: Vec<Box<dyn Fn() + Send + Sync>> = vec![")
    for label, f, args, ret, refs, call, limit in jobs:
        shape = "".join(TEXT_ARGS[a] for a in args)
        v = ["a", "b", "c"][:len(args)]
        loops = {"f": "for &a in g1.iter() {", "ff": "for &a in g2.iter() { for &b in g2.iter() {",
                 "fi": "for &a in g2.iter() { for b in -40..41 { let b = b as ity;", "fff": "for &a in g3.iter() { for &b in g3.iter() { for &c in g3.iter() {",
                 "nff": "for a in 0..20000usize { for &b in g3.iter().take(3) { for &c in g3.iter().skip(15) {"}.get(shape)
        if loops is None:
            continue
        conds = []
        if limit and f in RANGE:
            most = RANGE[f][bits == 64] if isinstance(RANGE[f], tuple) else RANGE[f]
            conds = ["if !(%s.abs() <= %r) { continue; }" % (x, most) for x, t in zip(v, args) if t == "fty"]
        parts = [""] if ret == "fty" else [".0", ".1"]
        refx = ["%s::%s(%s)" % (r, f, ", ".join(v)) for r in refs] + ([ALSO[f]] if label == "simd" and f in ALSO else [])
        got = call.format(f=f, args=", ".join(v), a0="a", n=len(v))
        body = "let got = std::hint::black_box(%s); " % got
        body += "; ".join("let r%d = %s" % (i, x) for i, x in enumerate(refx)) + "; "
        ok = " || ".join("(" + " && ".join("same(got%s, r%d%s)" % (p, i, p) for p in parts) + ")" for i in range(len(refx)))
        body += "n += 1; if !(%s) { bad(\"%s %s\", format!(\"%s({%s}) is {:?} instead of {:?}\", %s, got, r0)); }" % (
            ok, label, f, f, "}, {".join(":?" for _ in v), ", ".join(v))
        every = [loops]
        if shape == "f" and bits == 32:
            every.append("for p in (0..4294967296u64).step_by(%d) { let a = f32::from_bits(p as u32);" % stride)
        if shape == "f" and bits == 64:
            # a lattice over the middle of the range, every exponent from -40 to 40
            for sign in (0, 1):
                every.append("for p in ((983u64 << 52)..(1063u64 << 52)).step_by(%d) { let a = f64::from_bits(%d << 63 | p);" % (stride << 29 | 0x9e3779b9 & (1 << 29) - 1, sign))
        for loops in every:
            src.append("Box::new({ let (g1, g2, g3) = (g1.clone(), g2.clone(), g3.clone()); move || { let mut n = 0u64; %s %s %s %s CALLS.fetch_add(n, Ordering::Relaxed); } })," % (
                loops, " ".join(conds), body, "}" * loops.count("{")))
    src.append("]; let next = AtomicU64::new(0);")
    src.append("""std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| loop { let i = next.fetch_add(1, Ordering::Relaxed) as usize; if i >= jobs.len() { break; } jobs[i](); }); } });
    for (a, b) in OUT.lock().unwrap().iter() { println!("BAD {} {}", a, b); }
    println!("CALLS {} {}", CALLS.load(Ordering::Relaxed), jobs.len()); }""")
    path = os.path.join(wd, base)
    with open(path + ".rs", "w") as f:
        f.write("\n".join(src))
    cmd = RUSTC + ["-C", "opt-level=1", "-C", "target-cpu=native", "-o", path, path + ".rs"]
    if cobj:
        cmd += ["-C", "link-arg=" + cobj, "-C", "link-arg=-lm"]
    g = subprocess.run(cmd, capture_output=True, text=True)
    if g.returncode:
        return None, [("", "", "the library does not compile: " + "; ".join(m for _, m in rustc_errors(g.stderr)[:3]) + g.stderr[-200:])], 0
    g = subprocess.run([path], capture_output=True, text=True, timeout=20000)
    bad, calls, n = [], 0, 0
    for line in g.stdout.split("\n"):
        if line.startswith("BAD "):
            _, label, f, what = line.split(" ", 3)
            bad.append((label, f, what))
        elif line.startswith("CALLS "):
            calls, n = map(int, line.split()[1:])
    if g.returncode or not calls:
        bad.append(("", "", "the program ended with %s: %s" % (g.returncode, g.stderr[-300:])))
    return calls, bad, n


EVERY = "libm,stats,hypot,nextafter,negate_on_odd,sin_cos,recip_approx,sqrt_approx,cbrt_approx,round"


def scalar_module(name, text, unfused=False, extra=""):
    if unfused:
        text = re.sub(r"\.\s*mul_add\b", ".mul_add_", text)
    return "pub mod %s { use super::Unfused; %s\n%s\n }" % (name, re.sub(r"\b(?:pub\s+)?fn\s+(?=[A-Za-z_])", "pub fn ", text), extra)


def run_driver(ctx, wd, tag, bits, others, stride, pre="", cobj=None, selection=EVERY):
    funcs = functions_of(bits, selection, ctx)
    calls, bad, n = driver(wd, "d%s%d" % (tag, bits), bits, funcs, others, stride, ctx, pre, cobj)
    for label, f, what in bad:
        ctx.violation("%d bit %s: %s" % (bits, label, what), key="%d:%s" % (bits, f))
    ctx.count(states=calls or 0, transitions=calls or 0, traces=calls or 0)
    ctx.note("functions_%d" % bits, n)
    if calls is not None and n < 30 - 12 * (tag == "simd"):
        raise core.CheckError("only %d functions were compared" % n)
    return funcs


def check_L04(ctx):
    wd = core.workdir("l04-" + ctx.tier)
    for bits in (32, 64):
        a, b = (mgen(["-f", EVERY, "--num-bits", str(bits), "--number-type", t]) for t in ("decimal", "hex"))
        if a.rc != 0 or b.rc != 0:
            ctx.violation("libmgen --num-bits %d --number-type decimal/hex end with %s/%s" % (bits, a.rc, b.rc))
            continue
        names = set(functions_of(bits, EVERY, ctx))
        others = {"decimal": (scalar_module("dec", a.out), [], "", set(), None), "hex": (scalar_module("hex", b.out), ["dec"], "hex::{f}({args})", names, None)}
        run_driver(ctx, wd, "nt", bits, others, 4001 if ctx.quick else 11)
    ctx.sample("hex and decimal libraries, every function, f32 patterns 0, %d, ..." % (4001 if ctx.quick else 11))
    shutil.rmtree(wd, ignore_errors=True)


def check_L05(ctx):
    wd = core.workdir("l05-" + ctx.tier)
    for bits in (32, 64):
        for t in ("decimal", "hex"):
            sel = EVERY.replace("sin_cos,", "")
            r, c = (mgen(["-f", sel, "--num-bits", str(bits), "--number-type", t, "--language", l]) for l in ("rust", "c"))
            if r.rc != 0 or c.rc != 0:
                ctx.violation("libmgen --num-bits %d --number-type %s ends with %s in Rust and %s in C" % (bits, t, r.rc, c.rc))
                continue
            obj = os.path.join(wd, "c%d%s.o" % (bits, t))
            with open(obj[:-1] + "c", "w") as f:
                f.write(c.out)
            g = subprocess.run(["gcc", "-O1", "-w", "-std=gnu11", "-ffp-contract=off", "-fwrapv", "-c", obj[:-1] + "c", "-o", obj], capture_output=True, text=True)
            if g.returncode:
                ctx.violation("the C library does not compile: " + g.stderr[:300])
                continue
            funcs = functions_of(bits, sel, ctx)
            F, I = ("f32", "i32") if bits == 32 else ("f64", "i64")
            T = {"fty": F, "ity": I, "usize": "u64"}
            ext = ["pub mod cc { use super::*; mod raw { extern \"C\" {"]
            wrap = []
            for f, (args, ret) in funcs.items():
                if ret != "fty" or any(a not in T for a in args):
                    continue
                ps = ", ".join("a%d: %s" % (i, T[a]) for i, a in enumerate(args))
                ext.append("pub fn ds%d_%s(%s) -> %s;" % (bits, f, ps, F))
                wrap.append("pub fn %s(%s) -> %s { unsafe { raw::ds%d_%s(%s) } }" % (f, ", ".join("a%d: %s" % (i, {"usize": "usize"}.get(a, T[a])) for i, a in enumerate(args)), F, bits, f,
                                                                              ", ".join("a%d as %s" % (i, T[a]) for i, a in enumerate(args))))
            ext.append("} } " + "\n".join(wrap) + " }")
            others = {"rust": (scalar_module("plain", r.out, True), [], "", set(), None), "rustf": (scalar_module("fused", r.out), [], "", set(), None),
                      "c": ("\n".join(ext), ["plain", "fused"], "cc::{f}({args})", set(funcs), "c")}
            run_driver(ctx, wd, "c" + t, bits, others, 4001 if ctx.quick else 17 if t == "decimal" else 61, cobj=obj, selection=sel)
    ctx.assumptions += ["gcc -O1 -ffp-contract=off -fwrapv; Rust's mul_add is compared both fused and as a product and a sum",
                        "the arguments of sin, cos, tan, round and negate_on_odd stay below a million, where their conversions to an integer have a meaning in C"]
    shutil.rmtree(wd, ignore_errors=True)


def check_L06(ctx):
    wd = core.workdir("l06-" + ctx.tier)
    sel = "libm,hypot,dnorm,qnorm,negate_on_odd,nextafter,recip_approx,sqrt_approx,cbrt_approx,round"
    for bits in (32, 64):
        for t in ("decimal", "hex"):
            r, s = (mgen(["-f", sel, "--num-bits", str(bits), "--number-type", t, "--language", l]) for l in ("rust", "portable-simd"))
            if r.rc != 0 or s.rc != 0:
                ctx.violation("libmgen --num-bits %d --number-type %s ends with %s in Rust and %s as portable-simd" % (bits, t, r.rc, s.rc))
                continue
            mod = simd_module("vec", s.out)
            if mod is None:
                ctx.violation("the portable-simd library cannot be read (%d bit, %s)" % (bits, t))
                continue
            funcs = functions_of(bits, sel, ctx)
            F, I = ("f32", "i32") if bits == 32 else ("f64", "i64")
            wrap = ["pub mod lanes { use super::*; use super::simd::Simd; use super::vec::StdLibm;"]
            sigs = {x[0] for x in simd_signatures(s.out)}
            for f, (args, ret) in funcs.items():
                if f not in sigs:
                    ctx.violation("the portable-simd library lacks %s" % f, key="%d:%s" % (bits, f))
                    continue
                # the argument is in lane k, where k comes from its bits; other lanes hold other values
                T = {"fty": F, "ity": I}
                ps = ", ".join("a%d: %s" % (i, T[a]) for i, a in enumerate(args))
                va = ["Simd([%s])" % ", ".join("if k == %d { a%d } else { %s }" % (
                    l, i, "(a%d * 0.5 + %d as %s)" % (i, l, T[a]) if a == "fty" else "%d" % (l + 1)) for l in range(4)) for i, a in enumerate(args)]
                wrap.append("pub fn %s(%s) -> %s { let k = (a0.to_bits() %% 4) as usize; let v = <Simd<%s, 4> as StdLibm>::%s(%s); v.0[k] }" % (f, ps, F, F, f, ", ".join(va)))
            wrap.append("}")
            others = {"rust": (scalar_module("plain", r.out), [], "", set(), None), "simd": (mod + "\n".join(wrap), ["plain"], "lanes::{f}({args})", set(funcs), None)}
            run_driver(ctx, wd, "simd" + t, bits, others, 10007 if ctx.quick else 31 if t == "decimal" else 509, pre=SHIM, selection=sel)
    ctx.assumptions += ["a plain-array stand-in for portable-simd gives the meaning of the vector operations"]
    shutil.rmtree(wd, ignore_errors=True)
