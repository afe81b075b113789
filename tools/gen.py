#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
FX, MA, NU, RN = "include/eirin/fixed.hpp", "include/eirin/math.hpp", "include/eirin/numbers.hpp", "include/eirin/random.hpp"
FO, PA, DI, UT = "include/eirin/io/format.hpp", "include/eirin/io/parse.hpp", "include/eirin/detail/distribution.hpp", "include/eirin/detail/util.hpp"
CO, SI, PF, MC, ER, BI = "include/eirin/ext/cordic.hpp", "include/eirin/ext/simd_math.hpp", "include/eirin/detail/perf.hpp", "include/eirin/macro.hpp", "include/eirin/error.hpp", "include/eirin/ext/builtin_ints.hpp"
ALL = "every operand of every fixed-point format (8 to 64 bit storage, signed and unsigned, any fraction width, rounding on or off)"
P = []


def p(id, title, statement, over, text, tests, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, observe=observe, technique=technique, note=note))


p("C01", "Addition, subtraction, multiplication, division and remainder are exact",
  "Whenever the exact result is representable, a+b, a-b, -a and the compound forms are exact; a*b is the exact product rounded toward minus infinity to the format's resolution and a/b the exact quotient truncated toward zero, while formats with rounding give the nearest value, ties away from zero, for both. a%b has the sign of the dividend and satisfies a = b*trunc(a/b) + a%b; ++ and -- move by exactly 1; every compound assignment agrees with its binary operator.",
  ["inputs", "configurations"], f"all pairs of operands of {ALL} whose exact result fits", "the tests multiply and divide a few dozen literals of two formats; rounding direction, range ends and other formats are never reached",
  [FX], [("fixed_num operator + - * / % and compound forms", FX), ("intermediate type widens before shifting", FX)], ["operator results via internal_value()"],
  "runtime oracle: every operator event compared with exact 128/256-bit integer arithmetic", "each observed event is judged exactly; unobserved operand pairs are not covered except in 8-bit and 16-bit formats, which are swept")
p("C02", "Arithmetic mixed with built-in integers equals arithmetic on converted values",
  "For a fixed-point x and an integer n of any built-in signed or unsigned type whose result fits, x+n, x-n, x*n, x/n, x%n, the reversed operand orders and the compound forms equal the exact mathematical result, with quotients truncated toward zero and remainders taking the dividend's sign; n may be beyond the format's range where only the result has to fit (a factor, a divisor). The signedness and width of the integer type never change the result.",
  ["inputs", "configurations"], "all values x of every format and all n of every built-in integer type whose exact result fits (n itself representable for x+n, x-n, n/x and n%x; remainders of unsigned formats by positive n)", "tests mix a handful of small positive int literals with fixed32/fixed64",
  [FX], [("operators taking std::integral", FX), ("mixed signed/unsigned division", FX)], ["operator results via internal_value()"],
  "runtime oracle: mixed-operand events compared with exact 128-bit arithmetic for each integer type", "exact judgement per event; sampled operands")
p("C03", "Comparison is the exact numeric total order, and hashes and tolerance agree",
  "==, !=, <, <=, >, >= and three-way comparison of two values give the answer of comparing the exact numbers, so sorting and ordered or hashed containers work; equal values have equal hashes. The tolerance comparisons are decided by the exact difference and the library's tolerance of 5*2^-16 (equal means at most that far apart, greater means further above), for values at opposite ends of the range too.",
  ["inputs", "configurations"], f"all pairs of {ALL}", "tests compare a few equal or clearly different values",
  [FX], [("comparison operators and operator<=>", FX), ("nearly_eq and its relatives", FX), ("fixed_hash", FX)], ["comparison results", "hash values"],
  "runtime oracle: comparison events judged against exact integer order; sort/antisymmetry monitors", "exact judgement per event; sampled operands")
p("C04", "Conversion to and from integers and floating point follows one documented rule",
  "Constructing from an integer that fits is exact; casting to an integer gives the floor of the value (any target type that holds it, bool being value != 0); casting to floating point gives the exact value rounded once to the target type. Constructing from a floating-point value truncates toward zero at the format's resolution, or rounds to nearest in formats with rounding, and converting a value to a wide enough floating type and back is the identity.",
  ["inputs", "configurations"], f"every integer and floating-point value in range and {ALL}", "tests convert a few literals and compare with tolerance",
  [FX], [("explicit constructors from integral and floating types", FX), ("explicit conversion operators", FX)], ["conversion results"],
  "runtime oracle: conversion events compared with long double/128-bit exact values", "exact judgement per event (ties and direction included); sampled operands")
p("C05", "Conversion between formats keeps the value, losing only excess fraction bits",
  "Converting between two fixed-point formats whose target can hold the value gives exactly the same number when the target has at least as many fraction bits. With fewer fraction bits the excess is truncated toward zero, or rounded to nearest with ties away from zero when the target format rounds; converting to a wider format and back is the identity.",
  ["inputs", "configurations"], "all values and all ordered pairs of formats", "tests convert between fixed32 and fixed64 for a couple of values",
  [FX], [("converting constructor and from_fixed_num_value", FX)], ["converted raw values"],
  "runtime oracle: each conversion event compared with exact shift/round over 128-bit integers", "exact judgement per event over many format pairs; sampled values")
p("C06", "Sign, parts, raw values and member casts describe the number exactly",
  "The integral part of a value is the whole part of its magnitude and the fractional part the remaining raw fraction with the value's sign, so the two rebuild the value exactly; the sign query is true exactly for negative values. A value built from a raw number reports that raw number, occupies exactly its storage type, survives copying and assignment bit for bit, and ++ and -- (prefix and postfix) step by exactly one.",
  ["inputs", "configurations"], f"{ALL}", "tests look at parts of a few positive numbers",
  [FX, MA], [("integral_part, fractional_part, signbit, internal_value, from_internal_value", FX)], ["member results"],
  "runtime oracle: part/sign events compared with exact integer decomposition; 8/16-bit formats swept completely", "exact judgement per event")
p("C07", "ceil, floor, trunc, round, abs, min, max, fmod and modf are exact",
  "floor is the greatest whole number not above the value, ceil the least not below it (the format's maximum when that is not representable), trunc drops the fraction toward zero and round goes to the nearest whole number with ties away from zero; abs (saturating at the lowest value), min and max are exact. fmod(a,b) differs from a by a whole multiple of b and lies within one divisor of zero on the divisor's side (up to one resolution step), and modf splits a value into its floor and a non-negative fraction that add up to it exactly.",
  ["inputs", "configurations"], f"{ALL}, negative values, exact halves and range ends included", "tests check a few values per function, nearly all positive",
  [MA, FX], [("ceil, floor, trunc, round, abs, min, max, fmod, modf", MA)], ["function results"],
  "runtime oracle: exact integer judgement of every rounding event", "exact judgement per event; 8/16-bit formats swept, fixed32 swept with stride")
p("C08", "Square roots and hypotenuses are accurate over the whole range and always finish",
  "sqrt of a non-negative fixed32 value is exactly the root rounded down to the resolution; for other formats the square of the result is within the library tolerance (5*2^-16) plus two resolution steps of slope of the argument, or the result is within 2 resolution steps of the root. sqrt of a negative value is -1, results are never negative otherwise, and hypot of two or three values whose squares fit equals the root of the summed squares.",
  ["inputs", "configurations"], f"every non-negative value of {ALL} that can hold the number 1, the smallest and largest included", "tests take the root of about ten values with tolerance",
  [MA, FX], [("sqrt Newton iteration and digit-by-digit fixed32 path", MA), ("initial value estimate", FX), ("hypot", MA)], ["sqrt/hypot results", "termination within a watchdog limit"],
  "runtime oracle: exact squared-result bounds in 128-bit integers, with a hang watchdog", "exact judgement per event; fixed32 swept with stride in thorough")
p("C09", "Cube roots keep the sign, are accurate and always finish",
  "cbrt returns a value x with |x^3 - v| at most 10*2^-16 plus (6x^2+4|x|+2) resolution steps and has the sign of its argument. It terminates for every argument.",
  ["inputs", "configurations"], f"{ALL} that can hold the number 2", "tests take two cube roots",
  [MA], [("cbrt iteration", MA)], ["cbrt results", "termination"],
  "runtime oracle: exact cubed-result bounds with a hang watchdog", "exact judgement per event; sampled and strided values")
p("C10", "Sine, cosine and tangent are accurate for every angle, sine is odd and bounded",
  "sin is within 7 resolution steps plus the polynomial's own remainder (theta^11/11! with theta reduced to a quarter turn) plus the error that the stored 2*pi causes at that many turns, cos within 2 steps more; sin is exactly odd, and |sin| exceeds 1 by no more than 8 steps plus 3.7e-6. tan is the quotient of the two and reports a domain error exactly where the cosine is indistinguishable from zero.",
  ["inputs", "configurations"], f"every angle of every signed fixed-point format of 16 to 64 bit storage with four or more integral bits, rounding on or off, including range ends and multiples of pi/4", "tests sample some angles within a few turns against a loose tolerance",
  [MA, FX, NU], [("range reduction and polynomial of sin; cos by shift; tan", MA)], ["sin/cos/tan results"],
  "runtime oracle: 113-bit reference sine with derived error budget, oddness and bound monitors", "budget derived from the algorithm's terms; sampled and strided angles")
p("C11", "Inverse trigonometric functions are accurate, odd and complementary",
  "atan is within min(2.04e-4, 0.0058|x|^3 + 4 steps) + 5 resolution steps of the true angle and exactly odd, staying within a quarter turn; asin and acos on [-1,1] are within 2.04e-4 plus the error the square root tolerance causes, exact at the ends to the same accuracy, and asin(x)+acos(x) is pi/2 within 2 steps.",
  ["inputs", "configurations"], f"every argument in the domain of every signed fixed-point format of 16 to 64 bit storage with three or more integral bits (asin and acos: with more integral bits than half the fraction bits), rounding on or off", "tests sample under twenty arguments with tolerance",
  [MA], [("atan argument inversion and polynomial; asin; acos", MA)], ["function results"],
  "runtime oracle: 113-bit reference with derived budget, oddness and complement monitors", "sampled and strided arguments")
p("C12", "Logarithms are accurate, exact at powers of two and monotone",
  "log2 of a positive value is within 4 resolution steps, exact at powers of two, and never decreases as its argument grows; log is within 3+0.75|ln x| steps and log10 within 2.2+0.4|log10 x| steps. This holds from the smallest positive value to the largest.",
  ["inputs", "configurations"], f"every positive value, whose logarithm is representable, of {ALL} (log and log10: two or more integral bits, 3 to 50 fraction bits)", "tests sample a handful of arguments",
  [MA], [("log2 normalisation and bit-by-bit squaring; log and log10 by constants", MA)], ["function results"],
  "runtime oracle: 113-bit reference, exactness and monotonicity monitors", "sampled and strided arguments")
p("C13", "Exponentials and powers are accurate and fade to zero for tiny results",
  "exp(x), when it fits, is within 2 resolution steps plus e^x(1+|x|) times 2 steps (1.3e-6 more for more than 16 fraction bits), tends to zero for very negative x, and is never negative. An integer power of n>=0 is within (1+n)*max(1,|result|) steps, a negative one is the reciprocal to corresponding accuracy, x^0 is 1, zero to any other power is 0, and a fixed-point power equals exp(y ln x) to the accuracy of those functions.",
  ["inputs", "configurations"], f"every base and exponent of {ALL} whose result fits (unsigned formats: fractional powers of bases from 1 up)", "tests evaluate a few powers and exponentials",
  [MA], [("exp argument reduction and coefficients", MA), ("pow by squaring; pow via log2 and exp", MA)], ["function results"],
  "runtime oracle: 113-bit reference with derived budget", "sampled and strided arguments")
p("C14", "Division by zero and domain errors are reported exactly when they occur",
  "The checked divisions (by a value or an integer) throw divide_by_zero, a domain_error, exactly when the divisor is zero, leaving the operand unchanged, and otherwise give the ordinary quotient; the logarithms throw domain_error exactly for arguments <= 0, asin and acos exactly outside [-1,1], tan exactly where the cosine is within one resolution step of zero, and a power exactly for a negative base with a fractional exponent. No other exception is ever thrown, and the functions defined everywhere never throw.",
  ["inputs", "fault_sequences"], "all argument values, valid and invalid, in any order of calls", "tests expect one or two throws",
  [FX, MA, ER, MC], [("divide/divide_by checks", FX), ("domain checks of tan, asin, acos, log, pow", MA)], ["exceptions thrown, operand state after them"],
  "runtime monitor: exception/no-exception oracle per call, operand state compared after each throw", "sampled calls; every error kind injected many times")
p("C15", "Every decimal numeral in range is read as its value, by every reader",
  "A decimal numeral (optional minus, digits, optional point and digits, digit separators in literals) whose value fits is read as its magnitude truncated to the format's resolution - exactly while its fraction has at most the digits the format distinguishes (4 for fixed32, 9 for fixed64), otherwise never above it and short of it by no more than one unit of the last digit used plus one step. Literals, C-string readers, delimited parsing and narrow or wide stream extraction all obey this, the format's minimum and maximum are readable, and numerals out of range are refused leaving the output untouched.",
  ["inputs", "configurations"], "all numerals of any length for every format and character type", "tests parse about twenty numerals",
  [FX, PA], [("detail::parse and user-defined literals", FX), ("f32_from_cstring, fixed_from_cstring, operator>>", FX), ("io::parse", PA)], ["parsed raw values, end positions, success flags"],
  "runtime oracle: generated numerals judged against exact decimal arithmetic; cross-reader agreement", "generated numerals; exact judgement")
p("C16", "Hostile or malformed text never corrupts, overruns or invents a value",
  "For any byte sequence and length, every text reader stays inside the given range, terminates, and either reports failure leaving the output untouched or reports success with the value of the numeral it consumed; numerals too large for the format are refused, never wrapped, and a literal whose text is no representable numeral is zero. Stream extraction without any digit sets the failure flag, and whatever follows the numeral is left unread.",
  ["inputs", "histories"], "all byte strings, embedded zeros, huge digit runs and non-terminated buffers included", "tests give one or two malformed strings",
  [FX, PA], [("digit loops and overflow guards of the readers", FX), ("range-bounded parser", PA)], ["return flags, out values, stream state and position"],
  "fuzzing-style workload with guarded buffers and an oracle grammar, also under ASan/UBSan (C33)", "random and mutated strings")
p("C17", "Printing gives the exact value in the requested base",
  "Streaming a value, or copying its characters to a buffer, yields the exact number - minus sign, integral digits, and every fraction digit until it terminates - in base 10, 16, 8 or 2 according to the stream's base and case flags (base 2 when none is set), for every value including the minimum. The stream's field width, fill and adjustment apply once, to the number as a whole; its flags are unchanged, a failed stream stays untouched and nothing outside the produced characters is written.",
  ["inputs", "configurations"], f"{ALL}", "tests print a few values in base 10",
  [FX], [("copy_as_chars_to digit loops", FX), ("operator<<", FX)], ["produced text, guard bytes"],
  "runtime oracle: exact expansion compared digit by digit, guard zones around buffers", "exact judgement per event")
p("C18", "std::format output obeys the format specification",
  "For every specification [[fill]align][sign][#][0][width][.precision][type], narrow or wide, formatting yields sign ('-' when negative, '+' or ' ' for others on request), base prefix with # (0x 0X 0b 0B 0), then digits: g, G or no type give the value with up to precision (default 6) fraction digits, truncated; f and F exactly that many, truncated, zero-filled; d x X o b B the whole part of the magnitude; ? the raw value in hexadecimal. The whole is right aligned in the width or as align says, with fill; flag 0 without align puts zeros after sign and prefix. Other specifications are format errors.",
  ["inputs", "programs"], "all values and all specification strings, including nested widths and precisions of any size, for narrow and wide characters", "tests cover about fifteen specification strings",
  [FO], [("specification parser and writer of the std::formatter specialisation", FO)], ["formatted text, exceptions"],
  "runtime oracle: an independent formatter over exact digits compared with std::vformat output", "generated specifications; exact text comparison")
p("C19", "Text written is read back as the same value, and streams stay in step",
  "Text produced by printing a value in base 10 is read back by every reader as the same value, or, if it has more digits than the reader uses, as one with the same sign, not larger in magnitude and at most one unit of the last used digit plus one step away. Any number of values written to a stream with white space between them is read back in order, none lost and none invented, until end of file; text formatted with p fraction digits comes back within 10^-p in the same sense.",
  ["inputs", "histories"], "all values and all sequences of values, separators and stream states", "tests read back a few values one at a time",
  [FX, PA], [("operator<< and operator>>", FX), ("io::parse", PA)], ["values read, stream state"],
  "runtime monitor: write/read histories through real streams checked against a model stream", "generated histories")
p("C20", "Mathematical constants and numeric limits are right in every format",
  "Each constant (e, pi and its fractions and multiples, log2e, log10e, 1/pi, 1/sqrt(pi), ln2, ln10, sqrt2, sqrt3, 1/sqrt3, Euler's gamma, phi) is its true value truncated to the format (rounded where the format rounds), within the 52 bits of the stored tables. numeric_limits reports the true minimum, maximum, lowest, signedness and digit counts, and the library's own minimum and maximum values agree with it.",
  ["configurations"], "every format able to hold the constant", "tests print a few constants of fixed32/fixed64",
  [NU, FX, MA], [("constant tables with 61 fraction bits", NU), ("std::numeric_limits specialisation", FX)], ["constant values"],
  "runtime oracle: every constant of every format compared with 113-bit references", "complete over the instantiated formats")
p("C21", "Random engines follow one fixed sequence and honour the engine contract",
  "The library's own 32 and 64 bit engines give, for a seed and position, always the same output of a fixed reference sequence, within their declared range, using every bit of it evenly; seeding, reseeding, discarding, copying, comparing and serialising in any order all agree on one seed and position, and writing to a stream keeps its flags. The adapter that yields fixed-point numbers presents exactly its engine's outputs as raw values, in step through every operation.",
  ["inputs", "histories"], "all seeds, all interleavings of engine operations, all stream flags", "tests draw a few numbers and compare nothing against a reference",
  [RN], [("pcg engine state transition, output permutation, seeding, stream operators", RN), ("fixed_random_engine_adapter", RN)], ["outputs, states, equality, saved text"],
  "runtime monitor: operation histories checked against an independent model of the generator", "generated histories; exact judgement")
p("C22", "Fixed-point distributions draw exactly like the wrapped integer distribution",
  "A fixed-point distribution over [a,b], given a plain engine or a fixed-point engine, returns exactly the raw values the wrapped integer distribution draws over the raw range from the same engine state: always within [a,b], every value reachable and equally likely, consuming the same engine outputs. Parameters (defaulting to the whole range) can be read, replaced and compared, and a draw with explicit parameters uses those alone and leaves the distribution's own unchanged.",
  ["inputs", "histories"], "all ranges (single point and whole range included), engines and call histories", "tests draw some numbers and check the range",
  [DI, RN], [("fixed_distribution_adapter, fixed_int_distribution_adapter and their param_type", DI)], ["values returned, parameters"],
  "runtime monitor: draw histories compared with the wrapped distribution on a twin engine, range and coverage monitors", "generated histories; exact judgement (coverage monitor at negligible false alarm rate)")
p("C23", "Results are identical in every build: compiler, optimisation level, options",
  "Every arithmetic, mathematical, text and random operation gives bit-identical results whichever supported compiler, optimisation level, language version, char signedness, or exception setting the program is built with. Repeating an evaluation gives the same result.",
  ["inputs", "configurations"], "all inputs, over the builds of g++ and clang++ at -O0 to -O3/-Os with and without exceptions, fused arithmetic and vector options", "tests run in one build",
  [FX, MA, FO, RN, CO], [("integer-only computation", MA), ("compiler-dependent branches", MC)], ["result digests per operation and block"],
  "differential runtime monitoring: the same 93 operations' results digested in ten builds and compared", "two compilers on one architecture")
p("C24", "Arithmetic, conversions and mathematics never execute undefined behaviour",
  "On operands whose exact result fits, no arithmetic, comparison, conversion, rounding or mathematical function executes undefined behaviour: no signed overflow, invalid shift, out-of-range conversion, null or out-of-bounds access, or use of an indeterminate value. This includes range ends, negative operands and every storage width.",
  ["inputs", "configurations"], f"{ALL} within range", "tests run without sanitizers",
  [FX, MA, NU], [("widening to the intermediate type, unsigned arithmetic for wrap", FX)], ["sanitizer reports"],
  "AddressSanitizer and UndefinedBehaviorSanitizer over the C01-C14 workloads", "dynamic: only executed paths and values")
p("C25", "Threads sharing constants or first use never race, and results do not change",
  "Any number of threads may use the library at once on their own values, including the very first use of lazily initialised tables and processor feature detection, without a data race. Each gets the result it would get alone.",
  ["schedules"], "all schedules of concurrent first and later uses", "tests are single threaded",
  [SI, UT, CO, MA, RN], [("function-local statics and feature cache", SI), ("sine table initialisation", UT)], ["ThreadSanitizer reports, result digests per thread"],
  "ThreadSanitizer plus result comparison over many fresh processes with staggered first uses", "schedules sampled by stress and injected delays")
p("C26", "Table and CORDIC sine are accurate and odd for every angle",
  "The CORDIC sine is within 4.2e-4 for fixed32 and 4e-8 for fixed64 (2 resolution steps more per full turn) of the true sine for every angle, and exactly odd; the rotation behind it gives sine and cosine in other formats and with N iterations to within 2^(1-N) plus 18+3N steps. The table sine with N entries is within the error of linear interpolation (h^2/8) plus a few steps for every angle, and exactly odd. The angle table lists the multiples of pi/N, a function table the values at the multiples of pi/(N-1).",
  ["inputs", "configurations"], "every angle, negative and many turns included, and several table sizes", "tests evaluate the CORDIC sine of a few angles with tolerance",
  [CO, UT], [("cordic rotation tables and quadrant mapping", CO), ("lut sine", UT)], ["sine results"],
  "runtime oracle: 113-bit reference sine, oddness monitor", "fixed32 swept with stride; fixed64 sampled")
p("C27", "Vector angle reduction equals whole turns off, lane by lane",
  "Reducing four (or two) angles at once subtracts a whole number of stored turns from each, keeps its sign and leaves less than one turn (up to the rounding of the reciprocal used). Each lane depends on its own input only, two-lane and four-lane forms agree, and feature flags report what the processor supports.",
  ["inputs", "configurations"], "all quadruples of fixed64 angles, over the instruction sets available", "no test covers it",
  [SI], [("vector multiply high, reduction, platform_support", SI)], ["reduced lanes, feature flags"],
  "runtime oracle: exact congruence and range per lane, lane permutation monitor, sanitized run", "AVX2 (and AVX-512 when the processor has it)")
p("C28", "Degrees and radians convert both ways accurately and in order",
  "degrees is within 182 resolution steps plus a third of a step per degree, radians within 6 steps plus one step per 180 degrees, of the exact conversion. Both never decrease as the argument grows, and converting there and back stays within the sum of the two errors.",
  ["inputs", "configurations"], f"every angle of {ALL} whose conversion fits", "tests convert a few round angles",
  [MA], [("degrees and radians constants", MA)], ["conversion results"],
  "runtime oracle: 113-bit reference and monotonicity monitor", "sampled and strided arguments")
p("C29", "Without exceptions every error ends the program and nothing else does",
  "Built with exceptions disabled, the library compiles with both compilers and detects the setting; each operation that would throw (checked division by zero, logarithms, inverse trigonometry, tangent, powers outside their domain, invalid format specifications) ends the program through std::terminate instead of going on with a wrong value. Valid arguments return normally.",
  ["configurations", "fault_sequences"], "all inputs, valid and invalid, in builds with exceptions disabled", "the tests are built with exceptions only",
  [MC, ER, FX, MA, RN, DI], [("exception macros and detection", MC), ("error branches", MA)], ["return or std::terminate per call"],
  "runtime monitor: -fno-exceptions builds by two compilers with a terminate handler that records and resumes, over valid and invalid calls", "sampled calls")
p("C31", "Constant evaluation and error measurement helpers compute what they state",
  "The helper that turns a floating constant into a raw fixed-point value gives the floor of the scaled value; the pi series helper is within its truncation bound for any number of terms and bits. The table of named constants is true to its digits, agrees with the constants the library computes with, and the definitions printed from it carry each name and value for any number of fractional bits. The error measuring helper returns the true largest and smallest absolute difference over the stepped range and the inputs where they first occur.",
  ["inputs", "configurations"], "all constants, widths, term counts, ranges and functions", "no test covers them",
  [UT, PF], [("eval_value, bbp_calc_pi", UT), ("measure_esp", PF)], ["helper results"],
  "runtime oracle: 113-bit references and a brute-force model", "sampled inputs")
p("C32", "Compile-time evaluation gives the same value as run time",
  "Every operation usable in a constant expression - arithmetic, conversions, rounding, roots, trigonometry, logarithms, powers, parsing, limits - is accepted there for valid arguments and yields the bits that the same call yields at run time, with both compilers.",
  ["inputs", "programs", "configurations"], "all arguments for which the run-time call is valid", "tests use a few constexpr literals",
  [FX, MA, NU, CO], [("constexpr functions and is-constant-evaluated branches", MA)], ["compile-time and run-time values"],
  "differential monitoring: seeded constants evaluated by both compilers' constant evaluators (themselves UB interpreters) and again at run time", "about a thousand constants per operation family")
p("C33", "Text, formatting, random and extra modules are memory safe and free of UB",
  "Whatever text, specification, buffer size, seed, range or angle they are given, parsing, printing, formatting, streaming, random generation, CORDIC and table functions never read or write outside the caller's objects, leak, use indeterminate values, or execute undefined behaviour.",
  ["inputs", "histories"], "all inputs, hostile ones included, in any call order", "tests run without sanitizers",
  [FX, FO, PA, RN, DI, CO, UT], [("bounds checks in readers and writers", FX), ("format width and precision limits", FO)], ["sanitizer and memcheck reports"],
  "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer over the C15-C22, C26, C28, C31 workloads and Valgrind memcheck over the mixed operations", "dynamic: only executed paths and values")

p("C34", "Extension 128-bit integers hold, add and narrow values exactly",
  "A 128-bit extension integer built from any built-in integer of up to 64 bits, from the whole part of a floating-point value in that range, or from two halves, holds exactly that number in two's complement, and copies keep it. The sum of two of them is exact, carrying between the halves, whenever it fits; converting to 64 bits gives the value itself, or the nearer end of the 64-bit range when it does not fit.",
  ["inputs", "configurations"], "all 64-bit sources and all pairs of 128-bit values whose sum fits", "no test covers them",
  [BI], [("int128 constructors, sum and narrowing", BI)], ["halves, sums and narrowed values"],
  "runtime oracle: the compiler's own 128-bit integers, by two compilers and under ASan and UBSan", "sampled values; 8- and 16-bit sources exhaustive")


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["tests"],
                                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "checks": [{"property": x["id"], "quick_cmd": f"python3 run.py {x['id']} --tier quick", "thorough_cmd": f"python3 run.py {x['id']} --tier thorough", "evidence_file": f"evidence/{x['id']}.json",
                     "technique": x["technique"], "level": "exploration", "level_note": x["note"]} for x in P],
         "not_applicable": [],
         "notes": "No hooks are needed: the library is header-only and every observation is made at its public interface. Checks compile the harnesses against /repo/include each time (cached by content)."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
