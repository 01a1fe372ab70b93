#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "takum.h, src/util.h"
FIXED = ("the unit tests allow one unit in the last place everywhere, sample at most 2^22 random arguments of 32- and "
         "64-bit types and of every two-operand function beyond 8 bits")
P = []


def p(id, title, statement, text, why, files, mech, note, over=("inputs",), assume=""):
    P.append((id, title, statement, text, why, files, mech, note, over))


IN = "every bit pattern of every operand, for the 8-, 16-, 32- and 64-bit types"
p("P01", "Changing width gives the nearest pattern and never 0, NaR or a sign change",
  "Converting a takum to a wider type of the same family appends zero bits and keeps the value exactly. Converting to a "
  "narrower type rounds the bit pattern to the nearest, ties to even, except that a non-zero number never becomes 0 and a "
  "number never becomes NaR (it saturates at the smallest or largest magnitude of its sign). 0 and NaR map to 0 and NaR.",
  IN + ", all 24 ordered pairs of widths in both families",
  "the suite has no test of the width conversions at all; the ties and the saturation patterns are single patterns among 2^64",
  ["src/conversion.c", "takum.h"],
  [("takumN_from_takumM, takum_linearN_from_takum_linearM", "src/conversion.c")],
  "deductive proof over all bit patterns of each of the 24 functions; no libm, no assumption beyond the base list")
p("P02", "Linear takums decode to their defined value, correctly rounded",
  "Converting a linear takum to float, double or long double gives (-1)^S * (1+m) * 2^c for the sign, characteristic and "
  "mantissa of its bit pattern, rounded once to nearest even in the target format. 0 decodes to 0 and NaR to NaN.",
  IN + " and three target formats",
  "conversions to float32 are not tested, 32/64-bit patterns are sampled, and a wrong last bit hides inside the tolerance",
  ["src/conversion.c", "src/codec.c"], [("takum_linearN_to_float32/float64/extended_float", "src/conversion.c"),
                                        ("codec_takumN_to_l", "src/codec.c")],
  "deductive proof over all bit patterns (32-way header split, exhaustive by construction); the codec is used through its "
  "exact contract, itself discharged in the same run")
p("P03", "Floats convert to the nearest linear takum, saturating, never to 0 or NaR",
  "Converting a float or double gives the linear takum nearest to it (nearest in the takum's own logarithmic-piecewise "
  "coordinate, ties to even), saturating instead of under- or overflowing; zeros give 0, NaN and infinities give NaR. The "
  "same holds for long double, whose coordinate is first held in the 64-bit significand of the extended format.",
  "every float, double and long double bit pattern including subnormals, four target widths",
  FIXED + "; float32 sources are not tested; double rounding errors (found and repaired here) sit one unit from the right "
  "answer, inside the tolerance", ["src/conversion.c", "src/codec.c"],
  [("takum_linearN_from_*", "src/conversion.c"), ("codec_takumN_from_s_and_l", "src/codec.c")],
  "deductive proof over all float patterns; the encoder is used through its exact contract (fixed-point definition of the "
  "nearest pattern), discharged in the same run by a 39-way exhaustive case split per width")
p("P04", "Round trips lose nothing where the wider representation is exact",
  "Widening a takum and narrowing it again gives the same bits. Converting a linear takum to long double and back, and a "
  "linear takum of up to 32 bits to double and back, gives the same bits, NaR and 0 included.",
  IN, "no test composes conversions; 64-bit patterns cannot be enumerated",
  ["src/conversion.c", "src/codec.c"], [("takum*_from_takum*, takum_linear*_to_*, takum_linear*_from_*",
                                         "src/conversion.c")],
  "deductive proof; for the 64-bit type the positive half is proved directly and the negative half follows from two negation "
  "laws proved in the same run")
p("P05", "Decoding preserves order and negation",
  "Negating a takum's bit pattern negates its decoded value exactly, for both families and all float formats, and negating a "
  "float negates the linear takum it converts to. For linear takums a larger bit pattern (as a signed integer) never decodes "
  "to a smaller value, and to a strictly larger one where the format is wide enough to be exact.",
  IN + "; every adjacent pair of patterns, hence every ordered pair",
  "order is a statement about pairs; the suite compares each conversion with a reference at single points with a tolerance "
  "larger than the distance between neighbours", ["src/conversion.c", "src/codec.c"],
  [("takum*_to_*, takum_linear*_from_*", "src/conversion.c")],
  "deductive proof by header split plus machine-checked lemmas on the encoder's specification")
p("P06", "Sign and absolute value are exact",
  "The sign function returns -1, 0 or 1 as a takum, and NaR for NaR. The absolute value returns the pattern itself for "
  "non-negative values, its two's complement negation for negative ones, and NaR for NaR.",
  IN, "32- and 64-bit types are sampled; NaR is one pattern whose negation is undefined in C unless handled",
  ["src/sign.c", "src/absolute.c"], [("takum*_sign", "src/sign.c"), ("takum*_absolute", "src/absolute.c")],
  "deductive proof over all bit patterns")
p("P07", "Inversion of logarithmic takums is exact",
  "The inverse of a logarithmic takum has exactly the negated logarithm and the same sign. The inverses of 0 and NaR are NaR.",
  IN + " (logarithmic family)", "exactness is invisible to a test with one unit of tolerance", ["src/inversion.c"],
  [("takumN_inversion", "src/inversion.c")], "deductive proof over all bit patterns against the bit-level definition of a takum's logarithm")
p("P08", "Reported precision is the number of mantissa bits",
  "The precision function returns the number of mantissa bits that a takum's regime leaves in its width, never negative.",
  IN, "32- and 64-bit types are sampled at random, which almost always draws short regimes", ["src/precision.c"],
  [("takum*_precision", "src/precision.c")], "deductive proof over all bit patterns")
p("P09", "Products and quotients of logarithmic takums are the nearest takums",
  "The product (quotient) of two non-zero logarithmic takums has the product of the signs and the takum nearest to the exact "
  "sum (difference) of their logarithms, saturating rather than overflowing; for 64 bits that sum is first rounded to the 64-bit "
  "significand of the extended format. NaR operands and division by zero give NaR, other zero operands give zero.",
  "every pair of bit patterns of each width", "2^128 pairs for the widest type; sampled with a tolerance of one unit",
  ["src/multiplication.c", "src/division.c", "src/codec.c"], [("takumN_multiplication/division", "src/multiplication.c, src/division.c")],
  "deductive proof over all pairs; codec used through its exact contract discharged in the same run")
p("P10", "Roots of logarithmic takums divide the logarithm",
  "The square root of a positive logarithmic takum is the takum nearest to half its logarithm; the n-th root is the takum of "
  "the logarithm divided by n in at least the type's working precision, keeping the sign. Even roots of negatives, the zeroth "
  "root, negative roots of zero and roots of NaR are NaR; positive roots of zero are zero.",
  "every bit pattern and every 64-bit index", "the suite uses seven indices only, all of magnitude at most 100",
  ["src/square_root.c", "src/root.c", "src/codec.c"], [("takumN_square_root, takumN_root", "src/square_root.c, src/root.c")],
  "deductive proof over all patterns and all indices")
p("P11", "Powers, integer powers, hypotenuse and linear roots follow their definition",
  "The power, integer power, hypotenuse and (linear) root functions return the takum of the function's value at the decoded "
  "operands, computed in the type's working precision or better; a value that over- or underflows the floating-point format "
  "becomes the largest or smallest takum of its sign, not NaR or zero. Zero to a non-positive integer power, the "
  "zeroth root, even roots of negatives and NaR bases give NaR.",
  "every pair of bit patterns, every 64-bit integer exponent and index",
  "integer exponents are tested at seven values; overflow and parity matter at exponents like -2^63",
  ["src/power.c", "src/integer_power.c", "src/hypotenuse.c", "src/root.c"],
  [("takum*_power/integer_power/hypotenuse, takum_linear*_root", "src/power.c, src/integer_power.c, src/hypotenuse.c, src/root.c")],
  "deductive proof relative to libm's pow/hypot (uninterpreted with listed facts)")
p("P12", "Arithmetic is the encoding of the correctly rounded float operation",
  "Linear takum addition, subtraction, multiplication, division, inversion and square root, and logarithmic takum addition and "
  "subtraction, return the takum of the IEEE result on the decoded operands in the type's working precision (or extended "
  "precision), with no other rounding.",
  "every pair of bit patterns", FIXED, ["src/addition.c", "src/subtraction.c", "src/multiplication.c", "src/division.c",
                                        "src/inversion.c", "src/square_root.c"],
  [("takum_linear*_addition ... , takum*_addition/subtraction", "src/addition.c, src/util.h")],
  "deductive proof: the functions' results equal the specification expression over the conversions, whose own values are P02/P03/P16")
p("P13", "NaR propagates through every operation and conversion",
  "If any takum operand of any function is NaR the result is NaR, and converting NaR to a float gives NaN. (The precision "
  "function, which returns a bit count, is exempt.)",
  "every function with a takum result, each operand position NaR, all values of the other operands",
  "the other operand ranges over 2^64 values; special cases of the C math library (powl(NaN, 0) = 1) break it at single points",
  ["src", "takum.h"], [("all exported functions", "src/*.c"), ("codec_takumN_from_s_and_l", "src/codec.c")],
  "deductive proof per function and operand; known finding F2 (power at two points) is reported and excepted exactly")
p("P14", "No spurious underflow: zero results only where the function is zero",
  "Functions without zeros never return 0, and functions with an isolated zero (such as ln at 1, sinh at 0, products with a zero "
  "factor) return 0 only there, however small the true result is: underflow saturates to the smallest magnitude.",
  "every bit pattern of every operand of 41 functions in 8 types; every integer exponent and index",
  "underflow needs extreme operands (often pairs), which random sampling of wide types practically never draws",
  ["src/util.h", "src"], [("result fixers of the wrapper macros", "src/*.c"), ("saturating encoder", "src/codec.c")],
  "deductive proof relative to libm facts; known finding F4 is reported and excepted exactly (arguments of magnitude at most 2^-58)")
p("P15", "NaR exactly outside the mathematical domain",
  "A function of non-NaR operands returns NaR exactly when its value is undefined there: square roots and logarithms of negative "
  "numbers, logarithms, inverses and cosecants at 0, inverse functions outside their range, division by zero, and undefined "
  "powers and roots. Inside the domain the result is always a number, never NaR.",
  "every bit pattern of every operand of 55 functions in 8 types",
  "the domain boundary is one pattern wide: an off-by-one at the neighbour of 1 is missed by sampling and by tolerance",
  ["src/util.h", "src"], [("wrapper macros", "src/util.h"), ("functions", "src/*.c")],
  "deductive proof relative to libm facts about domains; known finding F1 (64-bit arcoth within 2^-50 of 1) is excepted")
p("P16", "Logarithmic takums convert to and from floats by their logarithm",
  "Converting a logarithmic takum to a float gives (-1)^S sqrt(e)^l computed in at least the target's precision, where l is its "
  "logarithm; converting a float x gives the takum nearest to 2 ln|x| as computed in at least the source's "
  "precision and at least double (extended for 64-bit takums), with no other rounding. 0 maps to 0, NaR to NaN, and NaN and infinities to NaR.",
  "every takum pattern, every float, double and long double pattern",
  "float32 conversions are untested; double rounding hides inside the tolerance", ["src/conversion.c", "src/codec.c"],
  [("takumN_to_*, takumN_from_*", "src/conversion.c")], "deductive proof relative to libm's pow/log values (uninterpreted)")
p("P17", "Conversions between the two families go through the decoded value",
  "Converting a logarithmic takum of any width to a linear one of any width, or the reverse, gives the takum of the decoded value "
  "held in the working float format of the wider of the two types; NaR and 0 map to NaR and 0.",
  "every bit pattern, all 32 ordered pairs", "the suite has no test of the cross-family conversions", ["src/conversion.c"],
  [("takumN_from_takum_linearM, takum_linearN_from_takumM", "src/conversion.c")],
  "deductive proof over the conversions' contracts")
for i, t, fns, f in (("P18", "Exponentials and logarithms", "exponential and logarithm functions (base e, 2 and 10, and their minus-1 and 1-plus forms)",
                      ["src/exp.c", "src/2_raised.c", "src/10_raised.c", "src/ln.c", "src/lb.c", "src/lg.c"]),
                     ("P19", "Trigonometric functions and inverses", "trigonometric functions, their inverses, two-argument arctangent and over-pi forms",
                      ["src/sin.c", "src/cos.c", "src/tan.c", "src/csc.c", "src/sec.c", "src/cot.c", "src/arcsin.c", "src/arccos.c", "src/arctan.c", "src/arccot.c",
                       "src/arcsec.c", "src/arccsc.c", "src/arctan2.c"]),
                     ("P20", "Hyperbolic functions and inverses", "hyperbolic functions and their inverses",
                      ["src/sinh.c", "src/cosh.c", "src/tanh.c", "src/csch.c", "src/sech.c", "src/coth.c", "src/arsinh.c", "src/arcosh.c", "src/artanh.c",
                       "src/arcsch.c", "src/arsech.c", "src/arcoth.c"])):
    p(i, t + ": working precision, saturating",
      "The %s return the takum of the function's value at the decoded operand, evaluated in the type's working precision or "
      "better with no other rounding. A value that over- or underflows the float format "
      "gives the largest or smallest takum of the right sign instead of NaR or 0." % fns,
      IN, FIXED + "; their references repeat the library's own formula", f + ["src/util.h"],
      [("wrapper macros and result fixers", "src/util.h"), ("functions", ", ".join(f))],
      "deductive proof relative to libm's functions (uninterpreted: their accuracy is not claimed)" +
      ("; known finding F1 (64-bit arcoth/arcsch evaluate in double)" if i == "P20" else ""))
p("P21", "Functions of multiples of pi are exact where the value is 0, 1, -1 or a pole",
  "The sin, cos, tan, cot, sec and csc of pi times x return exactly 0, 1, -1 or (at poles) NaR when x is an integer or an odd "
  "multiple of one half, and elsewhere the takum of the function at pi x evaluated in extended precision.",
  IN, "the exact arguments are isolated patterns of the wide types", ["src/sin.c", "src/cos.c", "src/tan.c", "src/cot.c", "src/sec.c", "src/csc.c"],
  [("*_pi_times", "src/sin.c ... src/csc.c")],
  "deductive proof with an exact model of fmod; known finding F3 (negative odd multiples) is excepted exactly")
p("P23", "Algebraic laws: commutativity, neutral elements, x / x = 1",
  "Addition and multiplication commute bit for bit in both families. For logarithmic takums multiplying or dividing by one returns "
  "the operand unchanged, and x / x is one for every non-zero x.",
  "every pair of bit patterns", "laws relate two results; the suite checks each result alone with a tolerance",
  ["src/addition.c", "src/multiplication.c", "src/division.c"],
  [("takum*_addition/multiplication/division", "src/addition.c, src/multiplication.c, src/division.c")],
  "deductive proof; codec used through its exact contract")
p("P24", "No undefined behaviour on any input",
  "No call of any exported function executes undefined behaviour: no signed overflow, no out-of-range shift, no out-of-range "
  "float-to-integer conversion, no out-of-bounds table access, no integer division by zero or overflow, and every call terminates.",
  "every argument of every exported function, floats included",
  "undefined behaviour usually gives the expected result on the test machine; sanitizers see only the sampled inputs",
  ["src/codec.c", "src/conversion.c", "src/root.c", "src/integer_power.c"],
  [("arithmetic on bit patterns and regimes", "src/codec.c, src/conversion.c"), ("integer parameters", "src/root.c, src/integer_power.c")],
  "deductive proof: every signed operation, shift, cast and access generates an obligation on the IR of the real code")
p("P25", "Results depend on the arguments alone, on every history and schedule",
  "Every function assigns nothing outside its own locals and reads no writable global state. So a call's result is a function of its "
  "arguments whatever was called before and whatever other threads call concurrently.",
  "all call histories and all interleavings of concurrent calls", "the suite runs each function single-threaded against its own reference; "
  "a hidden cache is correct in most histories", ["src"], [("absence of state", "src/*.c")],
  "deductive frame check: one obligation per store, load, call and pointer argument of every function; the C library's math functions are "
  "assumed to be functions of their arguments", ("schedules", "histories", "inputs"))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, title, st, text, why, files, mech, note, over in P:
        assert len(title) <= 80, (id, len(title))
        assert sum(st.count(x) for x in (". ", )) <= 2, (id, st)
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": list(over), "text": text},
                            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [
                                {"name": a, "where": b} for a, b in mech]}}) + "\n")
man = {"version": 1, "setup_cmd": "true", "checks": [
    {"property": id, "quick_cmd": "python3-vt -m vc.check " + id, "thorough_cmd": "python3-vt -m vc.check %s --thorough" % id,
     "evidence_file": "evidence/%s.json" % id,
     "technique": "contract-based deductive verification of the C code (own VC generator on clang IR, Z3)" if id != "P25" else
     "contract-based deductive verification: frame (assigns-nothing) contracts on every function",
     "level": "proof", "level_note": note + ". Trusted: clang front end, vc/ (VC generator, float encodings), Z3; assumed: see evidence"}
    for id, title, st, text, why, files, mech, note, over in P],
    "not_applicable": [],
    "notes": "Known findings: known-findings.json. A VIOLATION with no failing input names the undischarged obligations in its replay file."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
