"""The properties of the three ways to print code (G01-G03)."""
from props_e import P, A, TESTS

PROPS = [
P("G01", "Pretty-printed Rust code has exactly the tokens it was given",
  "Formatting a token stream as Rust code gives text that reads back as the same tokens in the same groups: no token is dropped, reordered or changed, no two tokens are run together into another one, and no one token is split. This holds for every sequence and nesting of identifiers, literals, operators, lifetimes, punctuation and brackets, in whole files too.",
  ["inputs", "programs"], "all token sequences up to the bound over an alphabet of every token kind, all small groups side by side and nested, and whole source files",
  "the unit test prints one function; whether two tokens join depends on the pair, its spacing marks and the group around it, which only enumerating pairs and triples in every kind of group covers",
  ["codegen/rust.rs"], [("format_token_stream", A + "codegen/rust.rs: decides where a space or a line break goes")]),
P("G02", "The C translation of a program computes what the Rust program computes",
  "For a program in the supported subset (free functions of floats and integers with constants, let bindings, assignments, blocks, if/else, comparisons and logic, arithmetic, bit operations, casts, literals of every form and the supported methods) the C code compiles and each C function returns the same value as the Rust function for every argument, special values included. Names keep their meaning: the prefix is put before function names, and variables shadow, scope and nest as in Rust.",
  ["programs", "inputs"], "all programs of the stated grammar up to the bound, at both float sizes, on a grid of argument pairs with signed zeros, infinities, NaN and subnormals",
  "the unit tests compare the text of two or three translated functions and never run the C code; precedence, types and scopes interact, so a wrong combination shows only when both programs are run",
  ["codegen/c.rs", "visitor.rs"], [("AsC", A + "codegen/c.rs: one printer per kind of item, statement and expression"), ("collected declarations", A + "codegen/c.rs: types, prototypes and variables declared ahead")],
  [("scope", "the C name of each Rust variable in force at a statement")]),
P("G03", "The portable-simd translation computes the scalar function in every lane",
  "For a scalar program in the supported subset the portable-simd code compiles, and each lane of the result of a vector function equals the scalar Rust function applied to the arguments of that lane, whatever the other lanes hold. Conditionals become selections that mix no lanes, and constants, casts and integer operations keep their width.",
  ["programs", "inputs"], "all programs of the stated grammar up to the bound, at both float sizes, every argument pair of a grid in every lane beside different neighbours",
  "the unit tests compare the text of a few translated expressions and never compile or run it, let alone with lanes that take different branches",
  ["codegen/portable_simd.rs", "visitor.rs"], [("AsPortableSimd", A + "codegen/portable_simd.rs: literals become splat, if becomes select, as becomes cast")]),
]
T = "explicit-state exhaustive enumeration of programs; each is translated by the real code, compiled, and run against the Rust original (differential execution)"
NOTES = {
 "G01": ("explicit-state exhaustive enumeration of token streams through the real printer, re-read by an independent lexer", "Every token stream of the bounded space goes through the real printer and the lexer of proc_macro2; beyond the bounds nothing is claimed."),
 "G02": (T, "Every program of the bounded grammar is translated, compiled with gcc and rustc, and run on every pair of the argument grid; beyond grammar and grid nothing is claimed. The C compiler is trusted."),
 "G03": (T, "As G02; a plain-array stand-in for the vector type of portable-simd gives the lane operations their documented meaning, because the nightly feature is not needed to decide the lanes."),
}
