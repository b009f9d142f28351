"""A small reader and exact evaluator for Rust expressions: the reference model of the algebra.

Written from the Rust reference, independent of the code under test."""
import re
from fractions import Fraction
import mpmath

mpmath.mp.dps = 130
MPF = mpmath.mpf

TOK = re.compile(r"""\s*(?:
    (?P<num>(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+)(?:[ui](?:8|16|32|64|128|size))?|
        [0-9][0-9_]*(?:(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)|\.[0-9][0-9_]*|\.(?![.\w]))?(?:f32|f64|u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)?) |
    (?P<id>[A-Za-z_][A-Za-z0-9_]*) |
    (?P<str>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)') |
    (?P<op>::|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%().,<>!&|^\[\];:{}=])
)""", re.X)


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise ValueError("cannot lex %r at %d" % (s, i))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 7, "^": 6, "|": 5,
        "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "&&": 3, "||": 2}


class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def want(self, op):
        k, v = self.next()
        if v != op:
            raise ValueError("expected %r, got %r" % (op, v))

    def expr(self, minp=0):
        left = self.unary()
        while True:
            k, v = self.peek()
            if k == "id" and v == "as" and minp <= 11:
                self.next()
                left = ("as", left, self.next()[1])
                continue
            p = PREC.get(v) if k == "op" else None
            if p is None or p < minp:
                return left
            self.next()
            right = self.expr(p + 1)
            if p == 4 and self.peek()[0] == "op" and PREC.get(self.peek()[1]) == 4:
                raise ValueError("chained comparison")
            left = ("bin", v, left, right)

    def unary(self):
        k, v = self.peek()
        if k == "op" and v in "-!*&" and v:
            self.next()
            return ("un", v, self.unary())
        return self.postfix()

    def args(self, close=")"):
        out = []
        while self.peek()[1] != close:
            out.append(self.expr())
            if self.peek()[1] == ",":
                self.next()
        self.next()
        return out

    def postfix(self):
        e = self.atom()
        while True:
            k, v = self.peek()
            if v == "." and k == "op":
                self.next()
                k2, n = self.next()
                if self.peek()[1] == "(":
                    self.next()
                    e = ("call", e, n, tuple(self.args()))
                else:
                    e = ("field", e, n)
            elif v == "(" and k == "op":
                self.next()
                e = ("fn", e, tuple(self.args()))
            elif v == "[" and k == "op":
                self.next()
                e = ("index", e, tuple(self.args("]")))
            else:
                return e

    def atom(self):
        k, v = self.next()
        if k == "num":
            return ("num", v)
        if k == "str":
            return ("lit", v)
        if k == "id":
            if v in ("true", "false"):
                return ("lit", v)
            name = v
            while self.peek()[1] == "::":
                self.next()
                name += "::" + self.next()[1]
            return ("path", name)
        if v == "(":
            if self.peek()[1] == ")":
                self.next()
                return ("tuple", ())
            e = self.expr()
            if self.peek()[1] == ",":
                self.next()
                return ("tuple", (e,) + tuple(self.args()))
            self.want(")")
            return ("paren", e)
        if v == "[":
            return ("array", tuple(self.args("]")))
        raise ValueError("unexpected %r" % (v,))


def parse(s):
    p = Parser(s)
    e = p.expr()
    if p.i != len(p.t):
        raise ValueError("trailing tokens in %r" % s)
    return e


def show(e, parens=False):
    """Text of a tree. With parens=True every operand is parenthesised."""
    k = e[0]
    if k in ("num", "lit", "path"):
        return e[1]
    if k == "paren":
        return "(" + show(e[1], parens) + ")"
    w = (lambda x: "(" + show(x, True) + ")" if x[0] in ("bin", "un", "as") else show(x, True)) if parens else show
    if k == "un":
        return e[1] + w(e[2])
    if k == "bin":
        return w(e[2]) + " " + e[1] + " " + w(e[3])
    if k == "as":
        return w(e[1]) + " as " + e[2]
    if k == "call":
        return w(e[1]) + "." + e[2] + "(" + ", ".join(show(a, parens) for a in e[3]) + ")"
    if k == "field":
        return w(e[1]) + "." + e[2]
    if k == "fn":
        return w(e[1]) + "(" + ", ".join(show(a, parens) for a in e[2]) + ")"
    if k == "index":
        return w(e[1]) + "[" + ", ".join(show(a, parens) for a in e[2]) + "]"
    if k == "array":
        return "[" + ", ".join(show(a, parens) for a in e[1]) + "]"
    if k == "tuple":
        return "(" + "".join(show(a, parens) + ", " for a in e[1]) + ")"
    raise ValueError(k)


def prec(e):
    k = e[0]
    if k == "bin":
        return PREC[e[1]]
    if k == "un":
        return 12
    if k == "as":
        return 11
    return 20


def show_min(e):
    """Text with the fewest parentheses that still reads back as this tree."""
    k = e[0]
    if k == "paren":
        return "(" + show_min(e[1]) + ")"
    if k == "bin":
        p = PREC[e[1]]
        l, r = show_min(e[2]), show_min(e[3])
        if prec(e[2]) < p or (p == 4 and prec(e[2]) == 4):
            l = "(" + l + ")"
        if prec(e[3]) <= p:
            r = "(" + r + ")"
        return l + " " + e[1] + " " + r
    if k == "un":
        s = show_min(e[2])
        return e[1] + ("(" + s + ")" if prec(e[2]) < 12 else s)
    if k == "call":
        s = show_min(e[1])
        if prec(e[1]) < 20:
            s = "(" + s + ")"
        return s + "." + e[2] + "(" + ", ".join(show_min(a) for a in e[3]) + ")"
    if k == "field":
        s = show_min(e[1])
        if prec(e[1]) < 20:
            s = "(" + s + ")"
        return s + "." + e[2]
    return show(e)


def strip(e):
    """Without parentheses."""
    k = e[0]
    if k == "paren":
        return strip(e[1])
    if k == "un":
        return ("un", e[1], strip(e[2]))
    if k == "bin":
        return ("bin", e[1], strip(e[2]), strip(e[3]))
    if k == "as":
        return ("as", strip(e[1]), e[2])
    if k == "call":
        return ("call", strip(e[1]), e[2], tuple(strip(a) for a in e[3]))
    if k == "field":
        return ("field", strip(e[1]), e[2])
    if k == "fn":
        return ("fn", strip(e[1]), tuple(strip(a) for a in e[2]))
    if k in ("array", "tuple"):
        return (k, tuple(strip(a) for a in e[1]))
    return e


SUFFIX = re.compile(r"(f32|f64|[ui](?:8|16|32|64|128|size))$")


def literal(text):
    """The exact value of a numeric literal."""
    t = text.replace("_", "")
    if t[:2] in ("0x", "0b", "0o"):
        base = {"x": 16, "b": 2, "o": 8}[t[1]]
        m = re.match(r"(0[xbo])([0-9a-fA-F]+?)([ui](?:8|16|32|64|128|size))?$", t)
        return Fraction(int(m.group(2), base))
    t = SUFFIX.sub("", t)
    if t.endswith("."):
        t += "0"
    return Fraction(t)


class EvalError(Exception):
    pass


def to_mp(x):
    if isinstance(x, Fraction):
        return MPF(x.numerator) / x.denominator
    return x


def half_away(x):
    """Nearest whole number, halves away from zero."""
    n = abs(x)
    f = int(n + Fraction(1, 2)) if isinstance(n, Fraction) else int(mpmath.floor(n + MPF("0.5")))
    return f if x >= 0 else -f


def qnorm(p):
    # root of pnorm(z) = p
    z = mpmath.sqrt(2) * mpmath.erfinv(2 * p - 1)
    return z


def method(name, x, a):
    n = len(a)
    key = (name, n)
    if key == ("abs", 0):
        return abs(x)
    if key == ("signum", 0):
        return Fraction((x > 0) - (x < 0))
    if key == ("recip", 0):
        if x == 0:
            raise EvalError("recip 0")
        return 1 / x
    if key == ("round", 0):
        return Fraction(half_away(x))
    if key == ("mul_add", 2):
        return x * a[0] + a[1]
    m = to_mp(x)
    b = [to_mp(v) for v in a]
    one = {"sqrt": mpmath.sqrt, "exp": mpmath.exp, "ln": mpmath.ln, "sin": mpmath.sin, "cos": mpmath.cos,
           "tan": mpmath.tan, "asin": mpmath.asin, "acos": mpmath.acos, "atan": mpmath.atan, "erf": mpmath.erf,
           "erfc": mpmath.erfc}
    if n == 0 and name in one:
        if name == "sqrt" and x < 0 or name == "ln" and x <= 0 or name in ("asin", "acos") and abs(x) > 1:
            raise EvalError(name)
        return one[name](m)
    if key == ("exp2", 0):
        return mpmath.power(2, m)
    if key == ("log2", 0) or key == ("log10", 0):
        if x <= 0:
            raise EvalError(name)
        return mpmath.ln(m) / mpmath.ln(2 if name == "log2" else 10)
    if key == ("log", 1):
        if x <= 0 or a[0] <= 0 or a[0] == 1:
            raise EvalError(name)
        return mpmath.ln(m) / mpmath.ln(b[0])
    if key in (("powf", 1), ("powi", 1)):
        if x <= 0:
            raise EvalError(name)
        return mpmath.exp(b[0] * mpmath.ln(m))
    if key in (("dnorm", 2), ("pnorm", 2), ("qnorm", 2)):
        mean, sd = b
        if sd == 0:
            raise EvalError("sd")
        if name == "qnorm":
            if x <= 0 or x >= 1:
                raise EvalError("qnorm")
            return mean + sd * qnorm(m)
        z = (m - mean) / sd
        if name == "dnorm":
            return mpmath.exp(-z * z / 2) / mpmath.sqrt(2 * mpmath.pi) / sd
        return (1 + mpmath.erf(z / mpmath.sqrt(2))) / 2
    raise EvalError("unknown method %s/%d" % key)


def value(e, env=None):
    """The mathematical value: a Fraction where exact, an mpf otherwise, a bool for comparisons."""
    k = e[0]
    if k == "num":
        return literal(e[1])
    if k == "lit":
        if e[1] in ("true", "false"):
            return e[1] == "true"
        raise EvalError("literal")
    if k == "paren":
        return value(e[1], env)
    if k == "path":
        if env and e[1] in env:
            return env[e[1]]
        if e[1] == "PI":
            return +mpmath.pi
        raise EvalError("unbound " + e[1])
    if k == "un":
        if e[1] != "-":
            raise EvalError("unary")
        v = value(e[2], env)
        if isinstance(v, bool):
            raise EvalError("bool")
        return -v
    if k == "bin":
        l, r = value(e[2], env), value(e[3], env)
        if isinstance(l, bool) or isinstance(r, bool):
            raise EvalError("bool operand")
        if type(l) is not type(r):
            l, r = to_mp(l), to_mp(r)
        op = e[1]
        if op == "+":
            return l + r
        if op == "-":
            return l - r
        if op == "*":
            return l * r
        if op == "/":
            if r == 0:
                raise EvalError("zero division")
            return l / r
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return {"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r, "==": l == r, "!=": l != r}[op]
        raise EvalError("operator " + op)
    if k == "call":
        x = value(e[1], env)
        a = [value(v, env) for v in e[3]]
        if any(isinstance(v, bool) for v in [x] + a):
            raise EvalError("bool")
        return method(e[2], x, a)
    if k == "fn" and e[1][0] == "path" and e[1][1] in ("f32::from_bits", "f64::from_bits") and len(e[2]) == 1:
        import struct
        bits = int(value(e[2][0], env))
        f = struct.unpack("<f", struct.pack("<I", bits))[0] if e[1][1][:3] == "f32" else struct.unpack("<d", struct.pack("<Q", bits))[0]
        return Fraction(f)
    raise EvalError("unsupported " + k)


# ---- numbers ----------------------------------------------------------
def round_float(x, bits):
    """The float nearest to a Fraction, ties to even, as (bits of |x|'s encoding with sign) or None on overflow."""
    mant, emin, emax, width = (24, -149, 127, 32) if bits == 32 else (53, -1074, 1023, 64)
    sign = 1 if x < 0 else 0
    x = abs(x)
    if x == 0:
        return 0
    # exponent e with 2^e <= x < 2^(e+1)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    q = max(e - (mant - 1), emin)
    m = x / Fraction(2) ** q
    n = m.numerator // m.denominator
    rem = m - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
        n += 1
    if n == 1 << mant:
        n >>= 1
        q += 1
    if q + mant - 1 > emax:
        return None
    if n < 1 << (mant - 1):
        enc = n
    else:
        enc = ((q - emin + 1) << (mant - 1)) | (n & ((1 << (mant - 1)) - 1))
    return enc | (sign << (width - 1))


def float_value(enc, bits):
    """Exact value of a finite encoding."""
    mant, emin, width = (24, -149, 32) if bits == 32 else (53, -1074, 64)
    sign = enc >> (width - 1)
    enc &= (1 << (width - 1)) - 1
    ex = enc >> (mant - 1)
    fr = enc & ((1 << (mant - 1)) - 1)
    v = Fraction(fr) * Fraction(2) ** emin if ex == 0 else Fraction(fr | 1 << (mant - 1)) * Fraction(2) ** (ex - 1 + emin)
    return -v if sign else v
