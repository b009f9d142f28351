"""The properties of the expression algebra (E01-E17)."""
A = "doctor-syn/src/"
TESTS = "the unit tests try a handful of fixed expressions each"

def P(id, title, statement, over, text, why, files, mech, state=None):
    anchors = dict(files=[A + f if not f.startswith("libmgen") else f for f in files],
                   mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors["state"] = [dict(name=n, meaning=m) for n, m in state]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors)

PROPS = [
P("E01", "Arithmetic and comparisons of numbers evaluate to the true value",
  "Evaluating an expression built from numeric literals (any literal form: decimal, exponent, hex, binary, octal, underscores, type suffix), parentheses, unary minus, + - * / and the six comparisons yields the mathematically true result, following Rust's precedence and associativity: + - and unary minus are exact, and each product and quotient is correct to half a unit of the last requested decimal. Comparisons yield the boolean literal true or false, and division by zero yields an error.",
  ["inputs", "programs"], "all expression trees over the literals and operators, and all requested numbers of decimals",
  TESTS + "; precedence, grouping, sign and rounding interact, so only an enumeration of all small trees at several precisions shows that none of the combinations is wrong",
  ["transformation/eval.rs", "bdmath.rs"], [("eval", A + "transformation/eval.rs: one arm per operator, rounding after multiplication and division"), ("from_expr / literal reading", A + "transformation/eval.rs and bdmath.rs")]),
P("E02", "Elementary functions evaluate to the requested number of decimals",
  "Evaluating sqrt, exp, exp2, ln, log, log2, log10, powf, powi, sin, cos, tan, asin, acos, atan, erf, erfc, abs, signum, recip, dnorm, pnorm and qnorm (and the constant PI) on numbers of moderate size gives the true mathematical value to within a few units of the last requested decimal (counted relative to the size and condition of the result). Where the function has no real value (for example the logarithm or root of a negative number, asin beyond 1, a probability outside (0,1), a zero standard deviation) the answer is an error, never a number.",
  ["inputs", "configurations"], "every argument of a grid over each function's domain (and outside it), at every precision up to 60 decimals",
  TESTS + " at one precision and compare to a float; range reduction, series cut-off and sign errors depend on the argument and the precision",
  ["bdmath.rs", "transformation/eval.rs"], [("maclaurin series and argument reduction", A + "bdmath.rs"), ("domain errors", A + "transformation/eval.rs")]),
P("E03", "Every operation on expressions ends with a value or an error",
  "Reading text as an expression, evaluating, expanding, parenthesising, collecting, substituting, changing the number type, approximating and combining expressions with operators always ends with a result or a returned error: for numbers of moderate size and precision it never panics, never runs forever, and never writes to standard output. A successful evaluation is always a literal (a number, possibly negative, or a boolean); kinds of expressions that cannot be evaluated yield an error.",
  ["inputs", "programs"], "every kind of Rust expression in every operand position of every operator and method, with all argument counts",
  TESTS + ", all of them well formed; panics sit in the combinations nobody thought to write",
  ["transformation/eval.rs", "transformation/expand.rs", "transformation/paren.rs", "transformation/collect.rs", "transformation/subst.rs", "transformation/use_number_type.rs", "transformation/approx.rs", "expression.rs", "bdmath.rs"],
  [("Result-returning visitors", A + "visitor.rs and transformation/"), ("Error type", A + "error.rs")]),
P("E04", "Any sequence of rewritings keeps the value of an expression",
  "Applying any sequence of expand, paren, collect, conversion, number-type change and printing/re-reading to an expression leaves its value unchanged wherever it is defined, and a substitution in the sequence has exactly the value of replacing the variable by the (whole) replacement. This holds for the object in memory and for its printed text alike.",
  ["histories", "programs"], "every sequence of operations up to the bound applied to every start expression",
  TESTS + " and apply one operation to a freshly parsed expression; a rewriting that builds a tree whose text groups differently shows only when a second operation follows",
  ["transformation/expand.rs", "transformation/paren.rs", "transformation/collect.rs", "transformation/subst.rs", "transformation/use_number_type.rs", "expression.rs"],
  [("tree rewriting", A + "transformation/expand.rs, the modules of transformation"), ("transform", A + "visitor.rs")],
  [("expression in memory", "a syn tree that may hold groups no source text has")]),
P("E05", "expand turns an expression into the sum of its products",
  "Expanding an expression of sums, differences, products and negations yields a sum of signed products with the same terms as multiplying out by hand: no product or negation of a sum is left, no term is lost, duplicated or given the wrong sign. Operands that are not sums or products (calls, quotients, literals, names) are kept whole.",
  ["programs"], "all expression trees over + - * unary minus (with quotients and calls as operands) up to the bound",
  TESTS + "; signs and nesting combine, and a sign lost three levels deep is in none of them",
  ["transformation/expand.rs"], [("expand", A + "transformation/expand.rs: recursive multiplication of term lists with their signs")]),
P("E06", "paren makes the grouping of every operator explicit",
  "Parenthesising an expression puts every operand that is itself a unary or binary operation in parentheses and changes nothing else: without parentheses the result is the same expression. Doing it twice gives the same as doing it once.",
  ["programs"], "all expression trees over all binary and unary operators and method calls up to the bound",
  TESTS + "; whether an operand is missed depends on its kind and its place",
  ["transformation/paren.rs"], [("paren", A + "transformation/paren.rs")]),
P("E07", "Operators on expressions build what they say",
  "Combining two expressions with + - * / (left or right, chained) gives an expression whose value is that operation applied to the two values, however each operand is written; when both are numeric literals the result is the computed number (sums, differences and products exact). Dividing by a literal zero stays symbolic instead of failing, and the result, printed and read again, is the same expression.",
  ["inputs", "histories"], "all pairs and chains of operands from every class (numbers, names, sums, products, calls, negations) under every operator",
  TESTS + " and mostly on names; operand classes and sides are where grouping is lost",
  ["expression.rs", "lib.rs"], [("Add/Sub/Mul/Div for Expression", A + "expression.rs")]),
P("E08", "Printing an expression and reading it back gives the same expression",
  "Every expression that can be read can be printed, and the printed text reads back as an equal expression with the same text. No token, literal form, grouping or operator is changed on the way.",
  ["programs"], "all operator trees up to the bound and every kind of Rust expression in every place",
  TESTS, ["expression.rs", "codegen/rust.rs"], [("Display / FromStr", A + "expression.rs"), ("format_token_stream", A + "codegen/rust.rs")]),
P("E09", "Conversions between floats, decimals and literals are exact or correctly rounded",
  "Every finite f32 and f64 converted to a decimal number or an expression converts back to the same float, and its literal is a float literal of the same value. A decimal number, or the literal it is printed as, converts to the nearest float (ties to even) and to itself; texts that are no literal number convert to no number.",
  ["inputs"], "all exponents with structured mantissas, swept lattices over all f32 and f64 patterns, and families of decimals",
  "the unit tests convert a few round numbers; digits are lost only for particular exponents and mantissas",
  ["bdmath.rs", "expression.rs"], [("bigdecimal from float and back", A + "bdmath.rs"), ("From/TryFrom for Expression", A + "expression.rs")]),
P("E10", "Changing the number type gives each literal its nearest float",
  "Changing the number type of an expression to 32- or 64-bit decimal or hex replaces every numeric literal by a literal (suffixed decimal, or from_bits of a hex pattern) that is exactly the nearest float of that size to the literal's written value, ties to even. Everything else in the expression stays as it was, and a literal too large for the type is an error.",
  ["inputs", "configurations"], "literals at, and just beside, floats and midpoints of neighbouring floats over all binades, integers, all four types, in every operand place",
  "the unit tests convert a few literals; double rounding and bit errors show only near midpoints, in subnormals and at the ends of binades",
  ["transformation/use_number_type.rs", "bdmath.rs"], [("use_number_type", A + "transformation/use_number_type.rs"), ("correct rounding", A + "bdmath.rs")]),
P("E11", "Approximation gives the Chebyshev interpolating polynomial of the right shape",
  "Approximating an expression of one variable with n terms on a finite interval gives, to working precision, the polynomial of degree below n through the values at the n Chebyshev points of the interval (its ends included), which reproduces any polynomial of that degree; with odd or even parity, that polynomial with only its odd or even powers. A number of terms that does not fit the parity (odd needs an even, even an odd number), fewer than two terms, an empty or infinite interval, an undefined function or a foreign variable gives an error.",
  ["inputs", "configurations"], "all combinations of function, number of terms, interval, parity and precision from the bounded sets",
  TESTS + " with two or three term counts; the shape depends on the number of terms and parity",
  ["transformation/approx.rs", "polynomial.rs"], [("approx", A + "transformation/approx.rs: nodes, parity doubling, Newton polynomial"), ("Polynomial::from_points", A + "polynomial.rs")]),
P("E12", "The polynomial through given points passes through them",
  "The polynomial built from n points with distinct abscissae has n terms, equals the Lagrange interpolating polynomial, and passes through each point to the requested precision. Evaluating it agrees exactly with its terms.",
  ["inputs"], "all sequences of up to n points over a pool of abscissae and ordinates, in every order",
  "the unit tests build one or two polynomials", ["polynomial.rs"], [("from_points (divided differences)", A + "polynomial.rs"), ("eval", A + "polynomial.rs")]),
P("E13", "Rounding is to the nearest value, with ties as documented",
  "Rounding a decimal to a number of decimals, and the round function of expressions, give the nearest such value with halves away from zero. Rounding to 32 or 64 bits gives exactly the nearest float with ties to even, and is an error for a number beyond the largest float or another size.",
  ["inputs"], "all decimals k/10^s of the bounded grid at all numbers of decimals, and all float midpoints of the enumerated binades",
  "the unit tests round a few numbers", ["bdmath.rs", "transformation/eval.rs"], [("round / round_ieee", A + "bdmath.rs")]),
P("E14", "Substitution replaces exactly the named variables, all at once",
  "Substituting a list of variables replaces every occurrence of exactly those variables by the whole replacement, as one operand and simultaneously (replacements are not substituted again; the first entry for a name counts). Field names, method names and longer paths that merely contain the name are left alone.",
  ["programs", "inputs"], "all expression trees up to the bound under every list of bindings of the pool",
  TESTS + " with one variable and a number", ["transformation/subst.rs", "variablelist.rs"], [("subst", A + "transformation/subst.rs")]),
P("E15", "An expression tells what it holds, and holds what it was made from",
  "Asking whether an expression is a literal, or a numeric literal, answers by its outermost form exactly: every number, string, character, byte and truth value is a literal, of which only integers and floats (of every written form) are numeric, and nothing in parentheses, negated, cast or inside a call is one. Converting to the syntax tree and back, by reference or by value, and copying, give the same expression.",
  ["programs"], "every literal form and kind of expression, alone and in every kind of place, up to two places deep",
  TESTS, ["expression.rs"], [("is_lit, is_numeric", A + "expression.rs"), ("conversions", A + "expression.rs: From, AsRef, into_inner")]),
P("E16", "A list of variables keeps its entries in order and finds the first of a name",
  "After any sequence of additions a list of variables holds them all in order: adding returns the position of the new entry, looking a name up gives the value of the first entry with exactly that name (a longer or shorter path, or another spelling, is another name), and none for a name never added. Printing the list shows every entry in order, and a list made at once from the same entries is equal.",
  ["histories"], "all sequences of additions up to the bound over names that resemble each other, every name looked up after every step",
  "the only test prints one list of two entries", ["variablelist.rs", "name.rs"], [("VariableList", A + "variablelist.rs: add_var, find, From")]),
P("E17", "A visitor of one's own sees each part of an expression exactly once",
  "A visitor written by a user is given every part of an expression exactly once, each one before the parts it is made of, and what it does not treat comes back unchanged: operators, method names and their type arguments, fields, literals, parentheses. What the visitor answers for a part takes the place of just that part, and an error it answers ends the walk and is the result. An expression with a part of an unsupported kind (a call, a cast, an index, a block, ...) is an error, never a changed expression.",
  ["inputs", "programs"], "all expressions of the supported kinds up to the bound, with a part of every unsupported kind in every place, under visitors that do nothing, look on, treat one kind of part, or refuse one",
  "no test implements a visitor", ["visitor.rs"], [("Visitor", A + "visitor.rs: visit_expr and the default visit_* methods")]),
]

