# The properties, and how MANIFEST.json presents their checks.
HOOKS = None
NOT_APPLICABLE = []
PROPS = []

N = "astro-float-num/src/"


def prop(id, title, statement, over, text, why, files, mech, technique, note, **kw):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [N + f if not f.startswith("astro") and not f.startswith("src/") else f for f in files],
                    "mechanism": [{"name": a, "where": N + b if not b.startswith("astro") else b} for a, b in mech]},
        "technique": technique, "level_note": note,
    }
    d.update(kw)
    PROPS.append(d)


ORACLE = ("Every observed result is compared bit for bit with an independent model of rounding fed by MPFR/GMP. "
          "Assurance covers the executions made (counts in the evidence file); it trusts MPFR, GMP and the rounding model, "
          "and covers 64-bit words on x86_64 only (C19 covers 32-bit words).")
MON = "runtime oracle (MPFR/GMP) over generated hostile workloads"

prop("C01", "Addition, subtraction, multiplication, division are correctly rounded",
     "For finite operands, add, sub, mul, div and reciprocal return exactly the real result rounded in the requested direction or "
     "to nearest at the requested precision rounded up to whole words, and the result has that precision. "
     "This holds whatever the sizes, precisions and exponents of the operands are, including cancellation, ties, subnormal operands or "
     "results (rounded once, with the precision available there), and overflow, which gives an infinity. "
     "Without rounding (RoundingMode::None) the result is less than one unit in the last place away from the real one.",
     ["inputs"], "all finite operand pairs, precisions from 1 bit to hundreds of thousands of bits, the rounding modes Up, Down, ToZero, FromZero, ToEven and ToOdd, and None",
     "The tests compare a few thousand random cases, mostly of moderate size and exponent, often with the library itself; the space of sizes (each selects "
     "another multiplication or division algorithm), carries, ties and range edges is not enumerable.",
     ["num.rs", "mantissa/mantissa.rs", "mantissa/mul.rs", "mantissa/toom2.rs", "mantissa/toom3.rs", "mantissa/fft.rs", "mantissa/div.rs", "mantissa/util.rs", "common/util.rs"],
     [("add/sub with alignment, sticky bits and rounding", "num.rs"), ("rounding of a mantissa", "mantissa/mantissa.rs"),
      ("multiplication by size: basic, Toom-2, Toom-3, FFT", "mantissa/mul.rs"), ("basic and recursive division", "mantissa/div.rs"),
      ("subnormal results", "num.rs")], MON, ORACLE)

prop("C02", "Roots, integer powers and precision changes are correctly rounded",
     "sqrt, cbrt and powi of a finite number return exactly the real result rounded as requested at the requested precision rounded up to whole words; "
     "set_precision replaces a number by its value correctly rounded to exactly the requested number of bits. "
     "Perfect powers, ties, tiny and huge results (gradual underflow, overflow to infinity) and negative arguments obey the same rule; the square root of a negative number is NaN. "
     "Without rounding (RoundingMode::None) roots and precision changes are less than one unit in the last place away from the real value, integer powers a few units.",
     ["inputs"], "all finite arguments, exponents of powi up to the largest integer, all precisions and the six rounding modes and None",
     "Tests sample random arguments at a few sizes; double rounding, lost sticky bits and wrong answers at ties need structured arguments and an independent exact reference.",
     ["num.rs", "ops/sqrt.rs", "ops/cbrt.rs", "ops/pow.rs", "mantissa/sqrt.rs", "mantissa/cbrt.rs", "mantissa/mantissa.rs"],
     [("square root of a mantissa with remainder", "mantissa/sqrt.rs"), ("cube root of a mantissa with remainder", "mantissa/cbrt.rs"),
      ("powi with raising of working precision", "ops/pow.rs"), ("set_precision", "num.rs")], MON, ORACLE)

prop("C03", "exp, logarithms and pow are correctly rounded",
     "For finite arguments inside their domain, exp, ln, log2, log10, log and pow return exactly the real value rounded as requested at the requested precision rounded up to whole words. "
     "Exact results (powers of the base, rational powers) come out exact, results next to a representable number or a tie are still rounded in the right direction, and results out of range underflow gradually or overflow to infinity. "
     "Without rounding (RoundingMode::None) the result is a few units in the last place away from the real value at most.",
     ["inputs"], "all finite arguments in the domain of the function, all precisions, the six rounding modes",
     "The table maker's dilemma: wrong roundings sit at arguments whose result is within 2^-p of a boundary, which random tests never hit; existing tests compare against the same library at higher precision or a short MPFR sample.",
     ["ops/log.rs", "ops/pow.rs", "ops/series.rs", "ops/util.rs", "num.rs", "mantissa/mantissa.rs"],
     [("exp and pow", "ops/pow.rs"), ("logarithms", "ops/log.rs"), ("series summation", "ops/series.rs"),
      ("test whether the computed bits can be rounded", "mantissa/mantissa.rs")], MON, ORACLE)

prop("C04", "Trigonometric functions and their inverses are correctly rounded",
     "For finite arguments inside their domain, sin, cos, tan, asin, acos and atan return exactly the real value rounded as requested at the requested precision rounded up to whole words. "
     "This includes huge arguments and arguments next to multiples of pi/2 (argument reduction), tiny arguments, and arguments next to 1 of the inverse functions; arguments out of the domain give NaN. "
     "Without rounding (RoundingMode::None) the result is a few units in the last place away from the real value at most.",
     ["inputs"], "all finite arguments, all precisions, the six rounding modes",
     "Argument reduction and cancellation errors appear only for arguments chosen against the implementation (near multiples of pi/2, near domain ends, near ties); tests sample a narrow exponent range.",
     ["ops/sin.rs", "ops/cos.rs", "ops/tan.rs", "ops/asin.rs", "ops/acos.rs", "ops/atan.rs", "ops/series.rs", "ops/util.rs", "num.rs"],
     [("argument reduction", "num.rs"), ("sin, cos, tan", "ops/sin.rs"), ("inverse functions", "ops/atan.rs"), ("series summation", "ops/series.rs")], MON, ORACLE)

prop("C05", "Hyperbolic functions and their inverses are correctly rounded",
     "For finite arguments inside their domain, sinh, cosh, tanh, asinh, acosh and atanh return exactly the real value rounded as requested at the requested precision rounded up to whole words. "
     "This includes arguments whose result is next to the ends of the range, tiny arguments, results next to 1, and arguments next to the ends of the domain; arguments out of the domain give NaN. "
     "Without rounding (RoundingMode::None) the result is a few units in the last place away from the real value at most.",
     ["inputs"], "all finite arguments, all precisions, the six rounding modes",
     "Shortcuts for tiny and huge arguments and cancellation near domain ends are reached by a handful of arguments per precision only; tests sample a narrow exponent range.",
     ["ops/sinh.rs", "ops/cosh.rs", "ops/tanh.rs", "ops/asinh.rs", "ops/acosh.rs", "ops/atanh.rs", "ops/series.rs", "ops/pow.rs", "ops/log.rs"],
     [("sinh, cosh, tanh", "ops/sinh.rs"), ("inverse functions by logarithms", "ops/asinh.rs"), ("series summation", "ops/series.rs")], MON, ORACLE)

prop("C06", "Constants pi, e, ln 2, ln 10 are correct for every precision and history",
     "The constants cache returns pi, e, ln 2 and ln 10 correctly rounded in the requested direction at the requested precision rounded up to whole words, "
     "whatever was requested from the same cache before, and from whatever cache.",
     ["inputs", "histories"], "all precisions and rounding modes, all sequences of requests to one cache",
     "The cached digits are extended incrementally, so an error depends on the sequence of precisions requested; tests request a few precisions once.",
     ["ops/consts/mod.rs", "ops/consts/pi.rs", "ops/consts/e.rs", "ops/consts/ln2.rs", "ops/consts/ln10.rs"],
     [("cache of constants", "ops/consts/mod.rs"), ("binary splitting for pi and its continuation", "ops/consts/pi.rs"), ("e", "ops/consts/e.rs"), ("ln 2", "ops/consts/ln2.rs"), ("ln 10", "ops/consts/ln10.rs")], MON, ORACLE)

prop("C07", "Remainder and full-precision add, sub, mul are exact",
     "The remainder is exactly the mathematical remainder of truncated division, with the sign of the dividend and smaller in magnitude than the divisor, "
     "and full-precision addition, subtraction and multiplication return the exact result with no rounding, whatever the sizes and exponents of the operands (a product below the range of normal numbers may lose the bits below the smallest number its mantissa can hold, and is then marked inexact).",
     ["inputs"], "all pairs of finite operands whose exponent difference fits in memory",
     "Exactness fails on carry, borrow and alignment patterns (equal exponents, adjacent words, zero words) which tests sample only at random.",
     ["num.rs", "mantissa/mantissa.rs", "mantissa/div.rs", "mantissa/util.rs", "ext.rs"],
     [("rem", "num.rs"), ("full precision add, sub, mul", "num.rs"), ("modular power and remainder of mantissas", "mantissa/mantissa.rs")], MON, ORACLE)

prop("C08", "Numbers survive conversion to and from binary, octal, decimal, hex",
     "Parsing a number or converting digits in radix 2, 8, 10 or 16 gives the written value correctly rounded to the requested precision (exact in auto precision for radix 2, 8, 16), "
     "and malformed text or digits are rejected as NaN. Formatting gives digits which denote exactly the number in radix 2, 8, 16, and its correctly rounded value in decimal with as many digits as documented, "
     "so text written and read back at the same precision restores the number in radix 2, 8, 16.",
     ["inputs"], "all numbers including subnormal ones and both ends of the range, all digit strings, all precisions and rounding modes",
     "Tests do random round trips through the same code; an error made equally in both directions, at runs of zeros or nines, at range ends, or at sizes of the divide and conquer conversion is not seen.",
     ["conv.rs", "parser.rs", "strop.rs", "mantissa/conv.rs", "ext.rs"],
     [("conversion of digits", "conv.rs"), ("parser of numbers", "parser.rs"), ("formatting", "strop.rs"), ("divide and conquer decimal conversion of mantissas", "mantissa/conv.rs")], MON, ORACLE)

prop("C09", "The inexact flag tells exactly when a result was rounded",
     "A result is marked inexact if and only if an operand was marked inexact or the result differs from the exact value of the operation; "
     "exact results of exact operands are never marked, and rounded results always are (functions without rounding, RoundingMode::None, may mark an exact result).",
     ["inputs"], "all operations on numbers and functions, all finite operands with either flag, all precisions, the six rounding modes",
     "Exact cases of transcendental functions and sticky bits lost far below the kept words are single points among all inputs; tests check the flag for a few operations.",
     ["num.rs", "mantissa/mantissa.rs", "ops/pow.rs", "ops/log.rs", "ops/sqrt.rs", "ops/cbrt.rs", "ops/atan.rs", "ext.rs"],
     [("flag kept by each number", "num.rs"), ("flag found when rounding a mantissa", "mantissa/mantissa.rs"), ("detection of exact results", "ops/pow.rs")], MON, ORACLE)

prop("C10", "Infinities, NaN, zeros and arguments out of domain give specified results",
     "Every operation on infinities, NaN and zeros, outside its domain, at a pole, or with an unusable precision returns what its documentation and the limits of the function define "
     "(an infinity of the right sign, zero, a correctly rounded constant, or NaN with the documented error), at the requested precision; NaN is contagious and carries the first error. "
     "Classification predicates agree with the value.",
     ["inputs"], "all pairs of value classes over all operations, precisions and modes",
     "The table of operations by operand classes has thousands of entries, each a separate branch; tests assert a part of it, and some entries were wrong.",
     ["ext.rs", "num.rs", "defs.rs", "ops/pow.rs", "ops/log.rs"],
     [("dispatch on finite, infinite and NaN operands", "ext.rs"), ("errors carried by NaN", "defs.rs")], MON, ORACLE)

prop("C11", "Comparison, min, max, clamp and signum follow the order of real numbers",
     "Comparison (all operators, with absolute values, and against each other) agrees with the order of the extended real numbers whatever the precisions of the operands; NaN is unordered and unequal to everything. "
     "min, max, clamp and signum return the value this order defines, at no loss of digits.",
     ["inputs"], "all pairs and triples of values including different precisions, subnormal numbers, zeros, infinities and NaN",
     "Ordering must be total and transitive over numbers of different lengths and near-equal values; tests compare a handful of pairs.",
     ["num.rs", "ext.rs", "mantissa/mantissa.rs"],
     [("cmp, abs_cmp", "num.rs"), ("PartialOrd, PartialEq, min, max, clamp", "ext.rs"), ("abs_cmp of mantissas", "mantissa/mantissa.rs")], MON, ORACLE)

prop("C12", "Integer parts, rounding to binary places, exponent and sign are exact",
     "int, fract, floor, ceil and round to n binary places return exactly the defined value (with ties and directions of the rounding mode), "
     "set_exponent scales by the power of two, and negation, absolute value and sign changes alter the sign only.",
     ["inputs"], "all finite values, positions, rounding modes and exponents",
     "Boundaries at word edges, carries into a new word and values near integers are rare under random sampling.",
     ["num.rs", "ext.rs", "mantissa/mantissa.rs"],
     [("int, fract, floor, ceil, round", "num.rs"), ("rounding of a mantissa", "mantissa/mantissa.rs"), ("set_exponent, set_sign", "num.rs")], MON, ORACLE)

prop("C13", "Every number returned is canonical, and raw parts reconstruct it",
     "Every number any operation returns has whole words, a top bit set unless it is subnormal at the minimum exponent, a bit count which matches its digits, an exponent within the range, and zero has zero digits and exponent 0; "
     "its raw parts rebuild an equal number, and invalid raw parts are rejected or normalized to the same value.",
     ["inputs"], "all operations and constructors over all operands, precisions and modes",
     "A malformed number is accepted silently and corrupts later results; tests look at values, not at the representation.",
     ["num.rs", "mantissa/mantissa.rs", "ext.rs", "conv.rs"],
     [("as_raw_parts, from_raw_parts, from_words", "num.rs"), ("normalization of mantissas", "mantissa/mantissa.rs")],
     "representation-invariant monitor on every returned value over generated workloads",
     "The invariant monitor looks at every value returned in the executions made (counts in the evidence file), 64-bit words only.")

prop("C14", "No operation panics or fails to finish, whatever the arguments",
     "Every public operation returns for every sequence of calls and every argument: arbitrary precisions including unusable ones, arbitrary text, raw parts, exponents, shifts, infinities and NaN as operands; "
     "errors are reported through NaN or an error value and never as a panic, an arithmetic overflow, an out of bounds access or an endless computation.",
     ["inputs", "histories"], "all programs over the public interface with arguments whose cost is in proportion to their size",
     "A panic or endless loop needs a particular combination of degenerate arguments, usually produced by an earlier operation; tests use ordinary ones.",
     ["ext.rs", "num.rs", "conv.rs", "parser.rs", "mantissa/mantissa.rs", "ops/consts/mod.rs"],
     [("wrappers which turn errors into NaN", "ext.rs"), ("check of the precision", "num.rs"), ("rounding with a given number of correct digits", "mantissa/mantissa.rs")],
     "panic, overflow and CPU-time monitors over random programs with hostile arguments",
     "The monitors see the executions made (counts in the evidence file), built with overflow checks and debug assertions, 64-bit words only. Huge trigonometric arguments and exact results of astronomical size are left out: their cost is inherent.")

prop("C18", "Machine numbers, text and numbers convert to the same value",
     "Numbers made from machine integers and floats (constructors, From, FromExt), words and the named limits of a precision denote exactly the source value and carry the requested precision; "
     "FromExt rounds to the requested precision in the requested direction; FromStr returns the written number correctly rounded at a precision that holds its digits.",
     ["inputs"], "all machine integers of 8 to 128 bits, all floats including subnormal ones, infinities and NaN, all precisions and rounding modes",
     "Each width is a separate branch; the values which matter are the most negative integers, values filling more than one word, subnormal floats and precisions smaller than the source.",
     ["num.rs", "ext.rs", "conv.rs"],
     [("from_i64 and the like, from_f64", "num.rs"), ("From, FromExt, FromStr", "ext.rs")], MON, ORACLE)

prop("C20", "A context applies the precision, mode and exponent range it was given",
     "A context reports the precision, rounding mode, exponent limits (clamped to the allowed range) and constants it was created with or last given, through setters, cloning and the equivalent tuples, "
     "and constants taken from it are correctly rounded whatever was asked before.",
     ["histories"], "all sequences of context operations and all arguments",
     "The property is about histories of a stateful object; tests check one or two calls.",
     ["ctx.rs", "ops/consts/mod.rs"],
     [("Context and Contextable", "ctx.rs")],
     "online model of the context checked after every call of random programs",
     "The monitor compares the observable state with a model after each call, and constants with MPFR; covers the histories run (counts in the evidence file).")

prop("C22", "Serialized numbers read back equal, and every JSON number is accepted",
     "Serializing a number writes its decimal text and reading it back gives the number that text denotes; integers and floats are read with their exact value, strings as numbers correctly rounded, "
     "and anything else is an error, not a panic.",
     ["inputs"], "all numbers, infinities and NaN, and all JSON documents",
     "Serde support is tested with a few positive values; signs, special values, machine number visitors and malformed documents are separate paths.",
     ["for_3rd/ser.rs", "for_3rd/de.rs", "strop.rs", "parser.rs"],
     [("Serialize", "for_3rd/ser.rs"), ("Deserialize and its visitors", "for_3rd/de.rs")], MON, ORACLE)

prop("C24", "try_set_precision rounds only when the result is certain",
     "Given a number known to have s correct digits, try_set_precision rounds it to p digits in the requested direction and says so only if every number those digits allow rounds to the same result (an exact number always rounds), "
     "and refuses only if the digits known are really not enough, so that computing more of them ends the search.",
     ["inputs"], "all mantissas, target precisions, counts of correct digits and rounding modes",
     "Correct rounding of every function rests on this decision; only runs of equal bits at the cut (probability 2^-64) tell a right from a wrong decision, and tests with random numbers never have them.",
     ["num.rs", "mantissa/mantissa.rs", "ext.rs"],
     [("try_set_precision", "num.rs"), ("round_mantissa with check_roundable", "mantissa/mantissa.rs")],
     "runtime oracle: interval of allowed values rounded at both ends, by GMP integers", ORACLE)

prop("C15", "No input makes the library corrupt or misread memory",
     "Whatever sequence of calls a program makes through the public interface, with any arguments and from any number of threads, the library never reads or writes outside its buffers, "
     "never lets memory it has not initialized influence a result, never races on shared data, and breaks no rule of the language that makes safe programs sound.",
     ["inputs", "programs", "schedules"], "all sequences of public calls with all arguments, all sizes (which select algorithms), both word sizes, and all interleavings of threads",
     "Uninitialized reads and small overruns usually leave results unchanged, so assertions on results cannot see them; the tests are not run under instrumentation and reach few sizes.",
     ["common/buf.rs", "common/util.rs", "common/int.rs", "mantissa/conv.rs", "mantissa/mantissa.rs", "mantissa/util.rs", "common/consts.rs"],
     [("buffers whose new words are not initialized", "common/buf.rs"), ("carry arithmetic and shifts of slices with intrinsics and pointers", "common/util.rs"),
      ("digits written through a vector of set length", "mantissa/conv.rs"), ("lazily initialized shared values", "common/consts.rs")],
     "AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri over random programs and threads",
     "Sanitizers observe the executions made (steps and distinct states in the evidence file): three sizes of program under AddressSanitizer and MemorySanitizer with an instrumented standard library, threads under ThreadSanitizer, "
     "small programs under Miri for 64-bit and 32-bit words. Sizes out of reach of Miri are seen by the sanitizers only.")

prop("C16", "The expression macro returns the value of its expression",
     "For an expression of the supported operators, functions, constants, literals and variables, the macro returns the value of the expression at the requested precision, rounded in the requested mode from a value with many more correct digits, "
     "whatever digits cancel or arguments lie next to points where functions lose accuracy. A result outside of the exponent range of the context is zero or infinity.",
     ["inputs", "programs"], "all expressions accepted by the macro, all argument types convertible to numbers, all precisions, rounding modes and exponent ranges",
     "The error of a composite expression depends on its shape and on how close its arguments lie to critical points; tests compute a few expressions with fixed arguments.",
     ["astro-float-macro/src/lib.rs", "astro-float-macro/src/util.rs", "macro_util.rs"],
     [("generated code which recomputes with more precision", "astro-float-macro/src/lib.rs"), ("estimation of lost digits", "macro_util.rs")],
     "runtime oracle (MPFR interval) over generated programs which use the macro",
     "Random expressions are compiled with the real macro and evaluated on arguments chosen to cancel or to lie next to critical points; the result must be the rounding of a value within 2^-20 units of the last place of the true one. "
     "The macro does not promise correct rounding, so no more is required. Remainders of inexact operands which lose more than 30 digits, and values beyond the range of the library, only need an answer. Two findings are listed.")

prop("C17", "Results do not depend on what was computed before or elsewhere",
     "The result of an operation is a function of its arguments only: it is the same, bit for bit, whatever operations ran before it in the process, whatever the caches of constants were used for before, "
     "and whatever other threads compute at the same time.",
     ["histories", "schedules"], "all histories of operations sharing caches, and all interleavings of threads",
     "Caches of constants and of powers keep values of other precisions between calls; a wrong reuse needs a particular order of precisions, and tests create their caches anew or use one order.",
     ["ops/consts/mod.rs", "ops/consts/pi.rs", "ops/consts/e.rs", "ops/consts/ln2.rs", "ops/consts/ln10.rs", "mantissa/conv.rs", "ops/series.rs", "common/consts.rs"],
     [("caches of constants extended to the precision asked", "ops/consts/mod.rs"), ("powers of ten kept by thread", "conv.rs")],
     "differential monitor: same call with used and with new caches, and in many threads, under ThreadSanitizer",
     "Each result of a random history is compared with that of the same call with new caches or in a new thread; histories and threads are those run (counts in the evidence file). ThreadSanitizer watches the threads for races.")

prop("C19", "Results are the same with 32-bit words",
     "Built for a processor with 32-bit words, the library gives the results it should: every operation is correctly rounded at the precision rounded up to whole 32-bit words, within the exponent range of that build, "
     "and conversions, text, comparison and flags agree with the exact values.",
     ["inputs", "configurations"], "all operations and arguments of the 32-bit build",
     "The code has separate branches for the word size, in conversions of machine numbers, text and limits, which the tests of a 64-bit build do not compile.",
     ["defs.rs", "mantissa/conv.rs", "mantissa/mantissa.rs", "num.rs", "conv.rs", "common/util.rs"],
     [("sizes and limits by word", "defs.rs"), ("conversion of machine numbers", "num.rs"), ("digits of words", "mantissa/conv.rs")],
     "runtime oracle (MPFR/GMP) over a 32-bit build driven by a generated workload",
     "A 32-bit program executes batches of operations and the 64-bit monitor judges each answer with MPFR and the model of rounding for 32-bit words. Covers the executions made; no 32-bit processor is used, the program runs in compatibility mode.")

prop("C21", "Every way of building the library gives the same results",
     "The library can be built, and returns bit for bit the same results, flags, texts and errors for the same calls, however it is built: optimized and without assertions as in a release, "
     "without the standard library (no_std) and the optional features, and for processors without the carry instructions of x86.",
     ["inputs", "configurations"], "all operations and arguments, the documented configurations with 64-bit words",
     "Tests run in one configuration only, with assertions, the standard library, all features, on x86_64; what an assertion does by the way, imports without std, and the portable carry arithmetic are never run.",
     ["common/util.rs", "common/consts.rs", "common/buf.rs", "ext.rs", "lib.rs", "defs.rs", "num.rs", "mantissa/mantissa.rs"],
     [("carry and borrow by processor", "common/util.rs"), ("features", "lib.rs"), ("formatting and parsing through std", "ext.rs")],
     "differential monitor: programs of each configuration answer the same calls as the usual build",
     "Programs built in four configurations are asked the same generated calls and the answers compared as text; covers the calls made. The portable code runs on x86_64 with the processor's name replaced in a copy of the source made by the check. Parsing through std is not compared where there is no std.")

prop("C23", "Lack of memory gives an error value, not an end of the process",
     "When an allocation fails at any point of an operation, the operation returns NaN carrying the memory error, or the error itself, and neither aborts, panics nor returns a wrong number; "
     "the caches and arguments it used remain valid, so that the same operation repeated with memory available gives the correct result.",
     ["fault_sequences", "inputs"], "all operations, all points of allocation in them, and all sequences of failures followed by success",
     "No test makes an allocation fail, so that none of the error paths is executed.",
     ["common/buf.rs", "mantissa/mantissa.rs", "mantissa/conv.rs", "ops/series.rs", "ops/consts/mod.rs", "num.rs", "ext.rs"],
     [("fallible buffers", "common/buf.rs"), ("propagation of errors to NaN", "ext.rs"), ("caches replaced only by complete values", "ops/consts/mod.rs")],
     "fault injection in the allocator at every allocation of an operation, with an oracle for the answer and for the retry",
     "Allocations are counted and the n-th is refused, for every n of small operations and sampled n of long ones; answers are judged against those of a run without failures. Values initialized lazily once are made before, and formatting through std, which cannot report failure, is left out.",
     level="fault_enumeration")
