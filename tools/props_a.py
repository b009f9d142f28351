"""The accuracy of the generated functions (A01-A09)."""
from props_e import P

M = "libmgen/src/"
WHY = "the tests check a few hundred points of a narrow range and generated tests are not run by the suite; an error beside the range, near a boundary, in a sign or in the last digits stays unseen"
OVER = ["inputs", "configurations"]
TXT = "every 32 bit number of a lattice (thorough: every one), a structured lattice of 64 bit numbers of every exponent, and the numbers within 128 steps of every boundary"
PROPS = [
P("A01", "Generated sin, cos, tan and sin_cos are accurate over the range of use",
  "Measured in the spacing of numbers near 1, the generated sin, cos (and the pair sin_cos) are within 4 + 2|x| of the true value for |x| up to a million; tan is within (6 + 2|x|)(1 + tan² x) for |x| up to 1e5 where that determines it. Below 0.5, sin and tan are accurate to a relative error of 5 spacings. A NaN argument gives NaN.",
  OVER, TXT, WHY, [M + "trig.rs"], [("gen_sin, gen_cos, gen_tan, gen_sin_cos", M + "trig.rs: range reduction and polynomial")]),
P("A02", "Generated asin, acos, atan and atan2 are accurate everywhere",
  "The generated asin and acos are within 11 spacings (of numbers near 1) of the true value on [-1, 1] and NaN beyond; atan is within 4 (32 bit) or 7 (64 bit) spacings for every number including infinities, atan2 within 8 or 12 in every quadrant and on every axis (away from the origin, the lower side of the cut along the negative axis, and the largest numbers). Small asin and atan keep their relative accuracy and their sign.",
  OVER, TXT + "; all pairs of a grid for atan2", WHY, [M + "inv_trig.rs"], [("gen_asin, gen_acos, gen_atan, gen_atan2", M + "inv_trig.rs: edge flip, quadrants")]),
P("A03", "Generated exp2, exp, exp_m1, powf and powi are accurate and saturate",
  "The generated exp2 has a relative error below 1.2 spacings wherever its result is a normal number below the largest power of two, exp one below 3 + |x|, exp_m1 an error below 3|r| + |x|(|r|+1) + 0.1 spacings for the result r, and powf and powi one that grows no faster than the logarithm of the result and the exponent; powi of a negative number has the right sign. Beyond that range the result is infinity, 0 (or next to it) or -1, never a wrong number; NaN gives NaN.",
  OVER, TXT + "; all pairs of a grid for powf and powi", WHY, [M + "log_exp.rs"], [("gen_exp2, gen_exp, gen_exp_m1, gen_powf, gen_powi", M + "log_exp.rs")]),
P("A04", "Generated log2, ln, log10, ln_1p and log are accurate on positive numbers",
  "For every positive normal number the generated log2, ln and log10 are within 2·max(1, |r|) spacings of the true value r, ln_1p likewise (divided by 1 + x for negative x), and log of any base as far as the two logarithms determine it. Negative numbers give NaN, zero gives minus infinity, infinity gives infinity and NaN gives NaN.",
  OVER, TXT + "; all pairs of a grid for log", WHY, [M + "log_exp.rs"], [("gen_log2, gen_ln, gen_log10, gen_ln_1p, gen_log", M + "log_exp.rs: exponent and fraction")]),
P("A05", "Generated hyperbolic functions and their inverses are accurate",
  "The generated sinh and cosh are within (3 + |x|) cosh x spacings of the true value where that is below the largest finite number, and infinite with the right sign where it is beyond twice that number; tanh is within 3 spacings everywhere; asinh and acosh are within about 3·max(1, |r|) of the true value r wherever the square of the argument is finite (acosh allowing for its slope at 1), and atanh within 5·max(1, |r|). acosh below 1 and atanh beyond 1 give NaN.",
  OVER, TXT, WHY, [M + "hyperbolic.rs"], [("gen_sinh … gen_atanh", M + "hyperbolic.rs: from exp2 and ln")]),
P("A06", "Generated recip, sqrt, cbrt and hypot are accurate on normal numbers",
  "The generated recip is within a relative error of 2 spacings where argument and result are normal numbers, sqrt and cbrt within 1.5 for all normal numbers (cbrt with the sign of its argument), and hypot within 3 where its result does not overflow; hypot is never negative.",
  OVER, TXT + "; all pairs of a grid for hypot", WHY, [M + "recip_sqrt.rs", M + "auxfuncs.rs"], [("gen_recip, gen_sqrt, gen_cbrt, gen_hypot", M + "recip_sqrt.rs: Newton steps from an estimate")]),
P("A07", "Generated dnorm and qnorm are accurate for every mean and deviation",
  "The generated dnorm(x, m, s) is within a relative error of 4 + 4z² spacings of the normal density for z = (x - m)/s; the generated qnorm(p, m, s) is within a stated fraction of s of the true quantile for p from 0.0021 to 0.9979: with 64 bits 0.00006 for p in [0.3, 0.7] growing to 0.03 at the ends, with 32 bits ten times that. Both shift and scale exactly with mean and deviation.",
  OVER, "all points of a grid of arguments or probabilities, means and deviations at both sizes", WHY, [M + "stats_norm.rs"], [("gen_dnorm, gen_qnorm", M + "stats_norm.rs")]),
P("A08", "Generated runif and rnorm are the documented random sequences",
  "The generated runif(i, min, max) is min + (max - min) u where u in [0, 1) is made of the SplitMix64 output number i (seed 0), so it depends on nothing but its arguments, stays in the range, and is uniform and independent from index to index, for every index. rnorm(i, m, s) is the normal quantile of the uniform value of the same index and so has the normal distribution.",
  OVER, "the first indexes, the neighbours of every power of two and a lattice of 64 bit indexes × several ranges; the distribution over all first indexes", "the generated histogram test looks at 32 buckets of one range; correlation, lost bits, large indexes and other ranges are beyond it",
  [M + "stats_random.rs", M + "stats_norm.rs"], [("gen_runif", M + "stats_random.rs"), ("gen_rnorm", M + "stats_norm.rs")]),
P("A09", "Generated constants and helper functions are exact or as close as stated",
  "Every generated constant is the number nearest to its true value, in both number formats. round gives a whole number at most half away (up to rounding), negate_on_odd flips the sign exactly for odd whole numbers, nextafter is the next number away from zero, and recip_approx, sqrt_approx and cbrt_approx are within 7, 4.5 and 4.5 percent for every normal number.",
  OVER, TXT + "; all constants; whole numbers to 70000 and around every power of two", WHY, [M + "auxfuncs.rs"], [("gen_* constants and helpers", M + "auxfuncs.rs")]),
]
T = "exhaustive enumeration of arguments within a stated lattice on the real generated code (thorough: all 2^32 arguments of each 32 bit function), compared with a higher-precision oracle"
N = "Every 32 bit argument of the lattice (thorough: every 32 bit argument there is) and a structured 64 bit lattice is run on the freshly generated library; between 64 bit lattice points nothing is claimed. The oracle is the C library in double or long double."
NOTES = {p["id"]: (T, N) for p in PROPS}
