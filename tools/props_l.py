"""The properties of the generated library as a whole (L01-L08)."""
from props_e import P

M = "libmgen/src/"
F = [M + "functions.rs", M + "main.rs", M + "config.rs"]
PROPS = [
P("L01", "Every selection of functions comes with all it needs, once, and nothing else",
  "For every list of functions and groups and every list of exclusions, the generated library holds exactly the items selected and the items they need, directly or not, minus the excluded ones, each exactly once and with the same text as in any other selection. The order and repetition of names do not matter; a group holds the functions its name promises; unknown and excluded names are reported beside the code.",
  ["configurations"], "all single names, all pairs, groups, permutations, repetitions and exclusions of the listed names",
  "the tests generate a few fixed libraries; a missing or duplicated dependency shows only for the selection that needs it",
  F, [("dependency lists", M + "functions.rs: deps of each entry"), ("selection", M + "main.rs: collects names until nothing is added")]),
P("L02", "Every generated file compiles on its own",
  "Every function, constant or group that libmgen lists, selected alone, yields a file that compiles on its own: as Rust, as C and as portable-simd, with 32 and 64 bit numbers, in decimal and in hexadecimal, and (for Rust) together with its generated tests. No generated Rust name is redefined and none is left undefined.",
  ["configurations"], "all listed names × language × number size × number format × with and without tests",
  "the tests never compile what is generated; each configuration goes through its own dependency list and printer",
  F + [M + "auxfuncs.rs", M + "test.rs", "doctor-syn/src/codegen/c.rs", "doctor-syn/src/codegen/portable_simd.rs"], [("generators", M + "*.rs: one quote! per function"), ("printers", "doctor-syn/src/codegen/")]),
P("L03", "The output of libmgen is code only, repeatable, and the same in a file",
  "For every choice of options libmgen writes only code to its output and everything else beside it, writes the same bytes every time, writes the same to a file given with -o as it would print, ends with status 0 when all it was asked for is known, and applies the prefix option to every function name in C. Asked for a function, language, size, number type or combination it does not have, it says so and writes no code for it.",
  ["configurations", "histories"], "all functions and option combinations in the bounded space, each run several times",
  "the tests run no command line; stray diagnostics and dependence on hash order or on other options appear for some combinations only",
  F, [("main", M + "main.rs: options, output"), ("Config", M + "config.rs")]),
P("L04", "Decimal and hexadecimal libraries compute the same numbers",
  "The library generated with decimal numbers and the one generated with hexadecimal bit patterns return the same bits for every function and every argument, at 32 and 64 bits: neither form of a constant loses or changes a digit.",
  ["inputs", "configurations"], "every function at both sizes on a lattice of all bit patterns, and on pairs and triples of special arguments",
  "the tests compare single constants; one wrongly rounded coefficient of hundreds changes only some results in the last place",
  [M + "main.rs", "doctor-syn/src/transformation/use_number_type.rs"], [("use_number_type", "doctor-syn/src/transformation/use_number_type.rs: decimal or from_bits")]),
P("L05", "The C library returns the same values as the Rust library",
  "Each function of the library generated as C returns, compiled with a C compiler, the same bits as the Rust function for every argument (a fused multiply-add counting as its product and sum), at both sizes and in both number formats. Arguments for which the code converts an unrepresentable number to an integer are excepted.",
  ["inputs", "configurations"], "every function at both sizes and formats on a lattice of all bit patterns, and on pairs and triples of special arguments",
  "the tests never run generated C; wrong grouping, types or conditions in one of thousands of operators change some arguments only",
  ["doctor-syn/src/codegen/c.rs"] + F, [("AsC", "doctor-syn/src/codegen/c.rs")]),
P("L06", "The portable-simd library returns the scalar values in every lane",
  "Each function of the library generated for portable-simd returns in every lane the bits that the scalar Rust function returns for the arguments of that lane, whatever the other lanes hold, at both sizes and in both number formats.",
  ["inputs", "configurations"], "every vector function at both sizes and formats on a lattice of all bit patterns in every lane beside other values",
  "the tests never run generated vector code; lanes that would take different branches need both at once",
  ["doctor-syn/src/codegen/portable_simd.rs"] + F, [("AsPortableSimd", "doctor-syn/src/codegen/portable_simd.rs")]),
P("L07", "Generated tests accept accurate functions, reject others, and pass",
  "A generated test passes when its function is correctly rounded or within the test's tolerance at every point, and fails when the function returns NaN, an infinity, the wrong sign or an error beyond the tolerance at even one of its points, whatever happens at the others; the points span the whole tested range. A generated histogram test passes for the exact distribution and fails when a bucket is emptied, halved or overfilled. The generated library passes its own generated tests.",
  ["inputs", "faults"], "every generated test × every test point × every kind of fault, and pairs of faults, at both sizes and formats",
  "nothing tests the tests: a tolerance, a table or a comparison that lets a wrong library through stays unseen because the library is right",
  [M + "test.rs", M + "functions.rs"], [("gen_max_abs", M + "test.rs: table of values and residuals"), ("gen_histogram", M + "test.rs"), ("test_function", M + "main.rs: compares with the tolerance")]),
P("L08", "Error plots hold one row for each test point, and change no test",
  "With plots asked for, each generated accuracy test that passes writes a file named after it with a heading and then one row for each of its points, in order: the argument, the reference, what the function returned there, and the absolute error against the exact reference. Arguments and values read back as exactly the same floats. The tests themselves, their points and what they accept and reject are the same as without plots.",
  ["inputs", "configurations"], "every generated accuracy test of every function, both sizes, with the returned value moved at each point in turn and everywhere",
  "the tests never generate plots; a wrong, missing or shifted row shows only when the file is compared with the points",
  [M + "auxfuncs.rs", M + "test.rs"], [("plot_function", M + "auxfuncs.rs: writes the file"), ("gen_max_abs", M + "test.rs: calls it after the test")]),
]
NOTES = {
 "L01": ("explicit-state exhaustive enumeration of selections run through the real program, compared with the closure in an extracted dependency graph", "Every selection of the bounded space (all singles, all ordered pairs, exclusions, groups, permutations) is generated by the real program and compared item by item with the closure computed on the dependency graph; the graph itself is re-derived from the program and checked against the identifiers used in the text."),
 "L02": ("explicit-state exhaustive enumeration of configurations, each generated and compiled", "Every configuration is generated and compiled with rustc or gcc; the space of single selections is covered completely. The compilers are trusted."),
 "L03": ("explicit-state exhaustive enumeration of option combinations and repeated runs of the real program", "Every combination of the bounded option space is run, several times each; beyond it nothing is claimed."),
 "L04": ("exhaustive enumeration of arguments within a stated lattice, differential execution of two generated libraries", "Both libraries are compiled and run on every point of the lattice (thorough: every 11th 32 bit pattern); between lattice points nothing is claimed."),
 "L05": ("exhaustive enumeration of arguments within a stated lattice, differential execution of generated C and Rust", "Both libraries are compiled and run on every point of the lattice; between lattice points nothing is claimed. gcc and rustc are trusted."),
 "L06": ("exhaustive enumeration of arguments and lanes within a stated lattice, differential execution of vector and scalar code", "As L05; a plain-array stand-in gives the vector operations their documented meaning."),
 "L07": ("exhaustive fault injection: every test point x every fault kind, and pairs, on the real generated tests", "Every generated test is run with every single fault at every point and with pairs of faults on a sub-grid; the oracle values come from mpmath."),
 "L08": ("exhaustive fault injection: every test point x every kind of answer, on the real generated tests with plots", "Every generated accuracy test is run with the answer changed at every (quick: every 29th) point and the file it writes compared row by row; the oracle values come from mpmath."),
}
