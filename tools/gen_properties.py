#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

REG = [("value", "class, sign, coefficient, exponent (NaN payload) of each decimal"),
       ("context", "precision, rounding mode, operating mode, exponent range and accumulated conditions of each decimal")]
API = ["return of the public call: every decimal the program holds is read back through the API"]

prop("P01", "Add, Sub, Mul and FMA are the exact result rounded once",
 "For finite operands, the sum, difference, product and fused multiply-add equal the exact mathematical result rounded exactly once to the context's precision with its rounding mode, with the exponent the General Decimal Arithmetic specification prescribes (min of the operands' exponents, or their sum) raised only as far as rounding needs. The sign of a zero sum follows the rounding mode. It makes no difference how far apart the operands are, which of them is larger, or whether their coefficients fit a machine word.",
 ["inputs", "configurations"], "all finite operands, precisions (including unlimited), seven rounding modes and exponent ranges",
 "The tables hold a few thousand operand pairs at default precision; carries, cancellations, ties, operands farther apart than the precision and the machine-word boundary in every mode and precision are combinations no table enumerates.",
 ["big_ctx.go", "util.go", "big.go"],
 [("addition of aligned and of far-apart operands", "big_ctx.go Context.add, tryTinyAdd, addCompact, addMixed, addBig"), ("multiplication", "big_ctx.go Context.mul"), ("fused multiply-add", "big_ctx.go Context.FMA"), ("rounding", "big_ctx.go Context.round, shiftr; context.go needsInc")], REG, API)
prop("P02", "Quo is correctly rounded and has the preferred exponent",
 "For finite x and non-zero finite y, x / y is the exact quotient correctly rounded to the precision in the rounding mode; an exactly representable quotient has the exponent closest to the difference of the operands' exponents, and Inexact is raised exactly when the quotient is not representable. With unlimited precision the quotient is exact or, if its expansion does not terminate, NaN with InvalidOperation.",
 ["inputs", "configurations"], "all finite dividends, non-zero divisors, precisions, rounding modes and ranges",
 "Which digit decides rounding depends on an unbounded quotient expansion; tests hold random quotients that are hardly ever ties, near-ties or exact with trailing zeros.",
 ["big_ctx.go", "util.go"], [("division with guard digit", "big_ctx.go Context.Quo, finishQuo, Big.quo, Big.quoBig"), ("operand normalisation", "util.go cmpNorm, cmpNormBig")], REG, API)
prop("P03", "Integer quotient and remainder satisfy x = q*y + r",
 "For finite x and non-zero y, QuoInt gives q = trunc(x/y) with exponent zero, Rem gives r = x - q*y with x's sign (rounded only if it is longer than the precision), and QuoRem gives both; if q has more digits than the precision every one of them gives NaN with DivisionImpossible. Zero and infinite operands give the results GDA specifies.",
 ["inputs", "configurations"], "all pairs of operands and contexts",
 "The existing tables test quotients well inside the precision; the limit of the quotient's length, operands with different exponents and zero dividends decide which of several code paths runs.",
 ["big_ctx.go"], [("integer division", "big_ctx.go Context.QuoInt, Rem, QuoRem, quorem, quoremBig")], REG, API)
prop("P04", "Sqrt is correctly rounded half-even with the preferred exponent",
 "The square root of a non-negative finite decimal is the exact root correctly rounded half to even to the context's precision, whatever the context's rounding mode; an exact root has the exponent closest to half of the operand's, Inexact is raised exactly when the root is not representable, negative operands give NaN with InvalidOperation and zeros keep their sign.",
 ["inputs", "configurations"], "all operands, precisions and rounding modes",
 "Roots of random numbers are never close to a tie or exact; the interesting ones (squares, squares plus or minus one unit, halfway points) must be constructed for each precision.",
 ["big_ctx.go"], [("square root", "big_ctx.go Context.Sqrt, finishQuo")], REG, API)
prop("P05", "Quantize and the integral roundings give the one admissible result",
 "Quantize gives the decimal with exactly the requested exponent nearest to the operand in the rounding mode, or NaN with InvalidOperation if the exponent is out of range or the coefficient would be longer than the precision. RoundToInt, Floor and Ceil give the integral value their mode prescribes with every integral digit kept, and Round and Set give the operand rounded to the requested precision.",
 ["inputs", "configurations"], "all operands, target exponents, precisions, modes and ranges",
 "Carries into a new digit, ties, dropping all digits and targets at the edge of the range or precision occur for a vanishing share of random inputs.",
 ["big_ctx.go", "big.go"], [("quantize", "big_ctx.go Context.Quantize, RoundToInt, Floor, Ceil, Round, Set"), ("shifting", "big_ctx.go shiftl, shiftr, cmpHalf")], REG, API)
prop("P06", "Results never leave the context's exponent range",
 "Every rounding operation's finite non-zero result has an adjusted exponent of at most the context's maximum and an exponent of at least its smallest subnormal's: larger results become infinity or the largest finite number according to rounding mode and sign, smaller ones are rounded once to the smallest exponent, and zeros are clamped into range. Overflow, Underflow, Subnormal and Clamped are raised exactly when this happens.",
 ["inputs", "configurations"], "all operations, operands and contexts, in particular small exponent ranges",
 "Nearly all tests run with the default range of 10^18, where nothing overflows or underflows.",
 ["util.go", "big_ctx.go"], [("range check", "util.go Context.fix, overflow"), ("rounding into overflow", "big_ctx.go Context.round")], REG, API)
prop("P07", "Conditions are exact, and accumulate until cleared",
 "Every arithmetic operation adds to its receiver's conditions exactly those the operation raised - Inexact if and only if the result differs from the exact one, Rounded if digits were discarded, the division, invalid-operation, overflow, underflow, subnormal and clamped conditions in exactly their circumstances - never drops any condition raised before and never touches the conditions of another decimal. A context's error is non-nil exactly if a trapped condition has been raised.",
 ["inputs", "histories", "configurations"], "all sequences of operations on shared receivers",
 "The suites compare the conditions of single operations on fresh receivers with a lenient comparison and mask several of them.",
 ["context.go", "big_ctx.go", "util.go", "big.go"], [("raising conditions", "big_ctx.go, util.go, big.go: assignments to Context.Conditions"), ("traps", "context.go Context.Err")], REG, API)
prop("P08", "NaNs, infinities and signed zeros follow the special-value rules",
 "For every arithmetic operation: a NaN operand gives a quiet NaN with the sign of the operand that caused it, InvalidOperation being raised exactly for signaling NaNs; undefined combinations (Inf-Inf, 0*Inf, 0/0, Inf/Inf, Inf rem y, ...) give NaN with their condition; other operations on infinities and zeros give the infinity or zero with the sign and exponent GDA prescribes.",
 ["inputs", "configurations"], "all operations over all combinations of special and finite operands and rounding modes",
 "The product of operations, operand classes and signs has thousands of elements, of which the tests hold a fraction and mostly check that some NaN results.",
 ["big.go", "big_ctx.go"], [("NaN propagation", "big.go checkNaNs, setNaN"), ("special operands", "big_ctx.go, first branches of every operation")], REG, API)
prop("P09", "Comparison is the numerical order; total order is a total order",
 "Cmp and CmpAbs agree with the exact numerical order of the (absolute) values whatever the exponents and coefficient sizes, equal values compare equal at any exponent, and comparisons with NaN yield 0; CmpTotal and CmpTotalAbs are the IEEE total order. Max, Min, MaxAbs and MinAbs return one of their arguments, an extreme one by that order.",
 ["inputs"], "all pairs (and triples, for transitivity) of decimals",
 "Comparison picks one of five paths by exponents and sizes; tests compare a few hand-written pairs.",
 ["big.go", "misc/misc.go"], [("comparison", "big.go cmp, cmpabs, cmpTotal, ordTotal"), ("extremes", "big.go Max, Min, MaxAbs, MinAbs; misc/misc.go")], REG, API)
prop("P10", "Printing is canonical and parsing it gives the same decimal back",
 "String (and %s, %v, MarshalText) print every decimal in the GDA to-scientific-string form - exactly that text - in GDA mode, and in the documented Go form in Go mode; parsing the GDA text gives back a decimal with the same class, sign, coefficient and exponent (or NaN payload), and raises no conditions.",
 ["inputs"], "all decimals: every class, sign, coefficient size and exponent",
 "Round trips are tested for a handful of strings.",
 ["format.go", "big.go", "scan.go"], [("printing", "format.go formatter.format, formatSci, formatPlain; big.go String, MarshalText"), ("parsing", "scan.go Big.scan")], REG, API)
prop("P11", "The parser accepts exactly the numeric grammar",
 "For every byte string, parsing (SetString, UnmarshalText, Scan, Context.SetString) never panics, gives exactly the number denoted if the string is in the documented grammar (case-insensitively, digits of any length, exponents of any size), and otherwise yields NaN with ConversionSyntax or a failure, never a number. What the receiver held before makes no difference.",
 ["inputs", "histories"], "all byte strings and all prior states of the receiver",
 "The fuzz target only checks for crashes; the tables hold a few dozen mostly valid strings.",
 ["scan.go", "big.go", "big_ctx.go"], [("parser", "scan.go scan, scanSign, scanForm, scanMant, scanExponent, scanInfinity"), ("entry points", "big.go SetString, UnmarshalText, UnmarshalJSON, Scan; big_ctx.go Context.SetString")], REG, API)
prop("P12", "Format verbs print the correctly rounded digits and padding",
 "For the verbs %e %E %f %F %g %G %s %d %v %q, each flag, width and positive precision, the text printed denotes the decimal rounded to the digits requested (significant digits, or fractional digits for %f) in its rounding mode, including carries, in the verb's notation, with the sign and padding flags fmt documents. Printing never changes the decimal.",
 ["inputs", "configurations"], "all decimals, verbs, flags, widths, precisions and rounding modes",
 "Tests hold some forty cases with no carries, ties or padding of negative numbers.",
 ["big.go", "format.go"], [("Format", "big.go Big.Format"), ("digit rounding", "format.go roundString")], REG, API)
prop("P13", "Conversions to and from Go's numeric types are exact or say so",
 "Int64, Uint64 and Int truncate toward zero and report failure exactly if the truncated value does not fit; Rat is exact; Float and Float64 are the nearest representable values; SetUint64, SetMantScale, SetBigMantScale, SetFloat64 and SetFloat set exactly their argument (rationals are divided with correct rounding). IsInt, Sign and Mantissa agree with these values.",
 ["inputs"], "all decimals with moderate exponents, all int64/uint64/float64 values, big integers, floats and rationals",
 "Tests hold a few boundary values; truncation combined with exponents, coefficients at the machine-word boundary and floats with long expansions are not covered.",
 ["big.go", "big_ctx.go", "util.go"], [("to integers", "big.go Int, Int64, Uint64; util.go scalex, bigScalex"), ("to and from floats and rationals", "big.go Float64, Float, Rat, SetFloat64, SetFloat; big_ctx.go Context.SetRat")], REG, API)
prop("P14", "Interchange forms round-trip without loss",
 "Composing what Decompose returns gives a decimal of the same class, sign, coefficient and exponent, for any receiver and buffer, without rounding; JSON and text marshalling followed by unmarshalling preserve the decimal; JSON null leaves it unchanged. Unknown forms are refused with an error, and the arguments are not modified.",
 ["inputs", "histories"], "all decimals, buffers and receivers",
 "Tests hold nine values with fresh receivers.",
 ["decomposer.go", "big.go"], [("Compose and Decompose", "decomposer.go"), ("text and JSON", "big.go MarshalText, UnmarshalText, UnmarshalJSON")], REG, API)
prop("P15", "The internal representation is canonical and never observable",
 "After every operation the reported precision is the number of digits of the coefficient, the mantissa is reported as fitting 64 bits exactly if the coefficient is below 2^64-1, and the coefficient read through every accessor is the same. Two decimals with equal value behave identically however they were produced, in particular on both sides of the 64-bit boundary.",
 ["histories", "inputs"], "all decimals reachable through any sequence of operations",
 "The internal consistency check is only compiled in with a debug tag that no test uses; coefficients that shrink or grow across the boundary must be produced by operation sequences.",
 ["big.go", "util.go", "big_ctx.go"], [("normalisation", "util.go norm; big.go SetBigMantScale, copyAbs"), ("representation of results", "big_ctx.go addCompact, addMixed, mul, quo, shiftl, simpleReduce")], REG, API)
prop("P16", "Results do not depend on receivers aliasing operands",
 "An operation whose receiver is also one (or more) of its operands, or whose operands are one and the same decimal, gives exactly the same result, conditions and side effects as with distinct decimals holding the same values.",
 ["inputs", "programs"], "all operations and aliasing patterns",
 "Tests alias in a few examples (z = z op x); there are dozens of (operation, pattern) pairs, several of which use the receiver as scratch space.",
 ["big_ctx.go", "util.go"], [("alias guards", "util.go alias; big_ctx.go copies taken when z == x"), ("receiver as scratch space", "big_ctx.go transcendental functions")], REG, API)
prop("P17", "Operands, arguments and shared constants are never modified",
 "No operation changes any decimal other than its receivers (value, representation, context or conditions), nor the big integers, rationals, floats, strings and byte slices passed to it; values handed out are not affected by later operations. The library's shared constants and tables stay intact: after any sequence of operations the same call gives the same result as at the start of the program.",
 ["histories", "inputs"], "all sequences of operations over a shared pool of decimals",
 "Tests look at the receiver only.",
 ["big_ctx.go", "const.go", "internal/arith/pow.go", "internal/c/const.go"], [("shared constants", "const.go lazyDecimal; internal/c"), ("power table", "internal/arith/pow.go"), ("scratch pool", "util.go getDec, putDec"), ("sharing coefficients", "big.go setShared; cmpabs; alias")], REG, API)
prop("P18", "Results do not depend on what receivers held before",
 "The value an operation stores and the conditions it adds depend only on its operands and context, not on the receiver's previous value, class, coefficient size or accumulated conditions, nor on any operation executed earlier in the process.",
 ["histories"], "all receiver histories: finite, huge, infinite, NaN, results of other operations",
 "Tests use fresh receivers.",
 ["big_ctx.go", "big.go", "util.go", "scan.go"], [("receiver reset", "big.go setTriple, setZero, setNaN; scan.go"), ("condition isolation", "big_ctx.go FMA, NextPlus, powBig"), ("scratch pool", "util.go getDec")], REG, API)
prop("P19", "Concurrent operations on distinct receivers are safe and sequential",
 "Goroutines that run operations on receivers of their own, even if they share operands, never race, and each gets the results it would get alone, whatever the interleaving - including the first uses of lazily built constants and while the tables of powers of ten grow.",
 ["schedules"], "all interleavings of any number of goroutines",
 "No test runs two operations concurrently.",
 ["internal/arith/pow.go", "const.go", "util.go", "binary_spliting.go"], [("table growth", "internal/arith/pow.go BigPow10, growBigTen"), ("lazy constants", "const.go lazyDecimal.get"), ("scratch pool", "util.go decPool; binary_spliting.go")],
 [("table", "published powers of ten"), ("constants", "built or not")], ["results and race reports of concurrent runs", "table reads"])
prop("P20", "Exp, Log, Log10 and Pow are accurate to one unit in the last place",
 "Exp, Log, Log10 and Pow return the exact value where GDA requires it (exact powers, logarithms of powers of ten, zeros, infinities, invalid operands) and otherwise a result of full precision within one unit in the last place of the true value, and within 0.52 units when rounding to nearest, with Inexact raised; the result depends on nothing but the operands and the context.",
 ["inputs", "configurations"], "all operands whose result is in range; all precisions and modes",
 "Tests compare a few values at a few precisions; error accumulates differently for each argument size and precision.",
 ["big_ctx.go", "continued_frac.go"], [("exponential", "big_ctx.go Exp, exp, expLarge"), ("logarithms", "big_ctx.go Log, Log10, logSmall, logLarge, ln10Taylor"), ("powers", "big_ctx.go Pow, powInt, powDec, powBig")], REG, API)
prop("P21", "Trigonometric functions and Hypot are accurate to one unit in last place",
 "Sin, Cos, Tan, Asin, Acos, Atan, Atan2 and Hypot return the documented special cases exactly and otherwise a result within one unit in the last place of the true value at the context's precision - also near multiples of pi/2, for tiny and for large arguments - and within 0.52 units when rounding to nearest. Arguments outside the domain give NaN with InvalidOperation.",
 ["inputs", "configurations"], "all arguments below 10^19, all precisions and modes",
 "Tests hold a few dozen values; cancellation near multiples of pi/2 and 1 is unbounded.",
 ["big_ctx.go", "binary_spliting.go"], [("sine, cosine, tangent", "big_ctx.go Sin, Cos, Tan, sinCos, prepCosine"), ("inverse functions", "big_ctx.go Asin, Acos, Atan, Atan2, prepAtan"), ("Hypot", "big_ctx.go Hypot")], REG, API)
prop("P22", "Pi, E, continued fractions and binary splitting give the true limit",
 "Pi and E are the true constants rounded to any precision, below and above the precision of the stored digits. Evaluating a convergent continued fraction with Wallis or Lentz, or a series by binary splitting, gives its limit (or exact partial sum) to the working precision.",
 ["inputs", "configurations"], "all precisions up to several hundred digits; generated continued fractions and series",
 "Tests compare Pi at a few precisions with stored digits; continued fractions are only tested through examples.",
 ["big_ctx.go", "const.go", "continued_frac.go", "binary_spliting.go"], [("constants", "const.go; big_ctx.go Pi, E, piChudnovskyBrothers"), ("continued fractions", "continued_frac.go Wallis, Lentz"), ("binary splitting", "binary_spliting.go BinarySplit, BinarySplitDynamic")], REG, API)
prop("P23", "Go mode is lossless for +, -, * and panics on invalid operations only",
 "In the Go operating mode addition, subtraction, multiplication and fused multiply-add are exact whatever the precision (only the exponent range applies), division and square root round as in GDA mode, operations whose result is an invalid-operation NaN or that have a NaN operand panic with ErrNaN, and nothing else panics. Values and contexts of other decimals are unaffected by such a panic.",
 ["inputs", "histories"], "all operands, including NaNs, in Go mode",
 "A single test uses Go mode arithmetic.",
 ["big_ctx.go", "big.go"], [("no rounding", "big_ctx.go Context.finish, tryTinyAdd"), ("panics", "big.go setNaN")], REG, API)
prop("P24", "The SQL wrapper stores the decimal's exact value or reports why not",
 "Value returns text that denotes exactly the decimal if it is within PostgreSQL's limits, a LengthError naming the offending part and its length otherwise, or, if rounding is requested, the decimal rounded to the permitted fractional digits; NaN is 'NaN', infinities an error, nil NULL or \"0\". Scan of that text gives the decimal back, malformed input is never accepted as a number, and Value never modifies the decimal.",
 ["inputs", "configurations"], "all decimals and both options",
 "Tests use random numbers far beyond the limits and a lenient comparison.",
 ["sql/postgres/decimal.go"], [("Value", "sql/postgres/decimal.go Value"), ("Scan", "sql/postgres/decimal.go Scan")], REG, API)
prop("P25", "NextPlus and NextMinus are the adjacent representable decimals",
 "NextPlus (NextMinus) gives the smallest (largest) number representable in the context that is larger (smaller) than the operand, across carries, zero, subnormals and the ends of the range; infinities give the largest finite number or stay, and no condition is raised except for signaling NaNs.",
 ["inputs", "configurations"], "all operands, precisions and ranges",
 "Tests hold a table for one precision and range.",
 ["big_ctx.go", "misc/misc.go"], [("stepping", "big_ctx.go NextPlus, NextMinus")], REG, API)
prop("P26", "Invalid contexts are detected and never compute garbage",
 "An operation executed under an invalid context (negative or too large precision, unknown rounding or operating mode, exponent limits out of range) yields NaN with InvalidContext (in Go mode, the panic) and nothing else, for every rounding operation and every way of calling it.",
 ["configurations"], "all operations times all kinds of invalid contexts",
 "Tests never use an invalid context.",
 ["util.go", "big_ctx.go"], [("validation", "util.go invalidContext and its callers")], REG, API)
prop("P27", "Quiet operations and predicates are exact and raise nothing",
 "Copy, CopyAbs, CopyNeg, CopySign, Canonical, SetSignbit, SetScale, SetInf, SetNaN and the setters change exactly what they say, whatever the class of the operand, and neither round nor raise conditions; Class, IsFinite, IsInf, IsNaN, IsInt, IsNormal, IsSubnormal, Sign, Signbit, Scale, Precision, SameQuantum and Payload report the state. Abs, Neg and Reduce give the rounded absolute, negated and zero-stripped value.",
 ["inputs", "histories"], "all decimals and receivers",
 "Tests hold few values and none checks that the rest of the state is kept.",
 ["big.go", "big_ctx.go", "misc/misc.go"], [("copies and setters", "big.go Copy..., Set..."), ("predicates", "big.go Is..., Class"), ("Reduce", "big_ctx.go Reduce, simpleReduce")], REG, API)
prop("P28", "Every operation terminates without panicking in GDA mode",
 "In GDA mode no sequence of operations with operands of moderate size panics or fails to terminate, for any valid context, class of operand and aliasing, including the printing, parsing and conversion functions on any input.",
 ["inputs", "histories", "configurations"], "all programs over the API with moderate operands",
 "Tests only run combinations that work.",
 ["big_ctx.go", "big.go", "format.go", "scan.go", "continued_frac.go", "binary_spliting.go"], [("iterations that must converge", "big_ctx.go sinCos, E, ln10Taylor; continued_frac.go; binary_spliting.go"), ("indexing and allocation", "format.go, scan.go, internal/arith")], REG, API)
prop("P29", "All ways of calling an operation agree",
 "A method of a decimal, the Context method with that decimal's context and the functions of the math and misc packages compute the same result and conditions for the same operands, and a Context method uses the given context, not the receiver's.",
 ["inputs", "configurations"], "all operations with more than one entry point, operands and pairs of contexts",
 "The wrapper packages have no tests.",
 ["big.go", "math/math.go", "misc/misc.go"], [("facades", "big.go one-line methods; math/math.go; misc/misc.go")], REG, API)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
