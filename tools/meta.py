"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The tests sample a few dozen operand pairs per layout and mostly two precisions; the property quantifies over every pair of raw values, "
L = "src/lib.rs"
AI = "abstract interpretation of the type-checked MIR (trace partitioning over a relational integer-polynomial domain; obligations discharged by exact linear arithmetic)"
T = []


def prop(id, title, statement, text, why, files, mech, claim=True, over=("inputs",), technique=AI, note="", reason=""):
    T.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, claim=claim, over=list(over), technique=technique, note=note, reason=reason))


prop("C01", "Checked add, sub, int mul, neg and abs are exact or report Overflow",
     "Checked addition, subtraction, multiplication by an integer (either operand order), negation and absolute value of fixed-point numbers, and the same checked operations on plain integers, return exactly the mathematical result whenever it is representable. They return the Overflow error, and nothing else, when it is not, and they never panic.",
     "every layout, every precision, every raw operand value", TESTS + "and wrap-around mistakes show only near the ends of the range.",
     [L, "src/ops/mod.rs"], [("CheckedAdd/CheckedSub/CheckedMul for FixedPoint", L), ("impl_for_ints!", "src/ops/mod.rs")])
prop("C02", "Saturating operations return the exact result clamped to MIN..MAX",
     "Saturating addition, subtraction, multiplication by an integer and rounding multiplication return the (correctly rounded) mathematical result when it is representable, MAX when it is above the range and MIN when it is below. This holds for fixed-point numbers, for plain integers and for the default implementations which user types get when they only define the checked operation.",
     "every layout, precision, rounding mode and raw operand value", TESTS + "including the sign combinations for which the clamping direction must be chosen.",
     [L, "src/ops/mod.rs"], [("saturating_* default methods", "src/ops/mod.rs"), ("saturating_* overrides", L)])
prop("C03", "rmul is the correctly rounded product for every mode",
     "Rounding multiplication of two fixed-point numbers returns the mathematical product rounded to the number's precision: Floor downwards, Ceil upwards, Nearest to the nearest value with ties away from zero. If that rounded value is not representable it returns Overflow; it never panics and never returns Overflow for a representable result.",
     "every layout, precision, rounding mode and pair of raw values", TESTS + "and off-by-one rounding shows only for particular remainders, signs and precisions.",
     [L, "src/i256/mod.rs", "src/i256/u256.rs"], [("RoundingMul for FixedPoint", L), ("I256", "src/i256/mod.rs")])
prop("C04", "rdiv of two fixed-point numbers is the correctly rounded quotient",
     "Rounding division of two fixed-point numbers returns the mathematical quotient rounded to the number's precision: Floor downwards, Ceil upwards, Nearest to the nearest value with ties away from zero. A zero divisor gives DivisionByZero, a non-representable rounded quotient gives Overflow, and it never panics.",
     "every layout, precision, rounding mode and pair of raw values, including divisors at the ends of the range", TESTS + "and divisors beyond half of the range are not sampled at all.",
     [L, "src/i256/mod.rs", "src/i256/u256.rs"], [("RoundingDiv for FixedPoint", L), ("I256", "src/i256/mod.rs")])
prop("C05", "rdiv with integer operands and recip are correctly rounded",
     "Rounding division of plain integers, of a fixed-point number by an integer and of an integer by a fixed-point number, and the reciprocal, return the mathematical quotient rounded as the mode says (Nearest: ties away from zero). A zero divisor gives DivisionByZero; Overflow is returned only if the rounded quotient, or the integer dividend taken as a fixed-point number, is not representable; they never panic.",
     "every integer type i8..i128, every layout, precision, rounding mode and operand value", TESTS + "and MIN, -1 and divisors beyond half of the range are hardly sampled.",
     [L, "src/ops/mod.rs"], [("RoundingDiv for integers", "src/ops/mod.rs"), ("RoundingDiv<int>, RoundingDiv for int, recip", L)])
prop("C06", "integral, floor, ceil and round give the rounded whole part",
     "The integral part of a number in a rounding mode is the number rounded to a whole number in that mode (Nearest: ties away from zero), for every number including MIN. floor, ceil and round return that whole number as a fixed-point number whenever it is representable.",
     "every layout, precision, mode and raw value", TESTS + "and MIN, the largest precision and ties of negative numbers are where mistakes hide.",
     [L], [("integral, floor, ceil, round", L)])
prop("C07", "half_sum is half of the sum, rounded, without overflow",
     "half_sum(a, b, mode) returns (a + b) / 2 rounded to the precision: the nearest value not above for Floor, not below for Ceil, and one of the two neighbours at half a unit for Nearest. It never panics or wraps, whatever the operands.",
     "every layout, precision, mode and pair of raw values", TESTS + "and overflow of the sum or of the difference shows only for large operands of particular signs.",
     [L], [("half_sum", L)])
prop("C08", "rsqrt is the correctly rounded square root",
     "The rounding square root of a non-negative number returns the mathematical square root rounded to the precision: the largest value not above for Floor, the smallest not below for Ceil, the nearest for Nearest. A negative argument gives DomainViolation, and it never panics or overflows.",
     "every layout, precision, mode and raw value", TESTS + "and an off-by-one root shows only next to perfect squares.",
     [L, "src/ops/sqrt.rs", "src/i256/mod.rs"], [("rsqrt", L), ("Sqrt", "src/ops/sqrt.rs")],
     note="std's f64 square root and the integer/float casts are modelled by their IEEE-754 accuracy; loops are decided by inferred inductive invariants and a strictly moving counter.")
prop("C09", "next_power_of_ten is the tightest power of ten, or Overflow",
     "For a non-negative number next_power_of_ten returns the smallest power of ten (as a decimal value, down to the smallest unit) that is not below the number; for a negative number, the negation of that for its absolute value. If that power is not representable it returns Overflow, and it never panics.",
     "every layout, precision and raw value", TESTS + "while the answer comes from per-layout tables with up to 129 rows.",
     [L, "src/power_table.rs"], [("next_power_of_ten", L), ("leading-zeros tables", "src/power_table.rs")])
prop("C10", "round_towards_zero_by truncates to a multiple of the step",
     "Rounding towards zero by a non-zero step returns the multiple of the step that is nearest to the number among those not exceeding it in magnitude and not of the opposite sign. A zero step returns the number unchanged, and the operation never panics.",
     "every layout, precision and pair of raw values", TESTS + "including MIN with a step of minus one unit.",
     [L], [("round_towards_zero_by", L)])
prop("C11", "from_decimal and to_decimal are exact",
     "from_decimal returns exactly mantissa * 10^exponent, or an error if that is not representable or the exponent is outside [-precision, 10]; it never panics or wraps. to_decimal returns a mantissa and an exponent in [-precision, max_exponent] denoting exactly the number, with the largest such exponent.",
     "every layout, precision, mantissa/raw value and exponent", TESTS + "and a lost digit shows only for particular digit patterns.",
     [L], [("from_decimal, to_decimal", L)])
prop("C12", "Conversion from every integer type is exact or an error",
     "Converting an integer of any primitive type to a fixed-point number gives exactly that number, or an error if it is not representable. It never panics, wraps or truncates.",
     "12 integer types, every layout, precision and integer value", TESTS + "and a truncating cast shows only for values beyond the narrower type.",
     [L], [("TryFrom<int> for FixedPoint", L)])
prop("C13", "The 256-bit intermediate arithmetic of the i128 layout is exact",
     "Multiplication, division and square root of 128-bit fixed-point numbers go through 256-bit intermediates; every addition, subtraction, negation, multiplication, division (quotient and remainder), integer square root, comparison and conversion of such an intermediate is exact. Overflow of a conversion back to 128 bits is always detected.",
     "all 256-bit operands that the operations can produce", "The tests reach a handful of operand pairs out of 2^512; carries and borrows between words, and products with particular word patterns, are where such arithmetic goes wrong.",
     ["src/i256/mod.rs", "src/i256/u256.rs"], [("I256, U256", "src/i256/mod.rs"), ("div_mod_knuth, div_mod_word", "src/i256/u256.rs")])
prop("C14", "Conversion from f64 is accurate; an error only if not representable",
     "Converting a finite float gives a number that differs from it by at most 5/9 of a unit in the last place plus 2^-49 of the float's magnitude. Floats that are whole numbers, and floats denoting a decimal with as many places as the precision and at most 15 digits in all, are converted exactly. Infinities and NaN are errors; any other float is an error only if it is too big (up to that accuracy; the minimum is accepted). Nothing panics or wraps.",
     "every layout, precision and float", "The tests convert a few dozen floats; what happens depends on the exponent, on the trailing zero bits of the mantissa and on which of about a thousand multiplications by 5 overflow.",
     ["src/float.rs", "src/power_table.rs"], [("TryFrom<f64> for FixedPoint", "src/float.rs"), ("POWERS_OF_10, POWERS_OF_5, NEXT_EXPONENT_10, MAX_EXPONENT_5", "src/power_table.rs")],
     technique="abstract interpretation of the type-checked MIR with the mantissa symbolic, one class per sign and binary exponent; loops over the exponent by an inductive relation (product of the significand and powers kept up to 2^-100 per iteration), linear arithmetic for the tables and roundings",
     note="Not every binary exponent is analysed for every type: quick takes 94 classes, thorough every exponent between the unit and the maximum for 18 types.")
prop("C15", "Conversion to f64 is accurate, and exact for whole numbers",
     "Converting a number to f64 gives a finite float that differs from the number by at most 2^-50 of its magnitude (so zero gives zero and signs are kept); whole numbers of at most 53 bits are converted exactly.",
     "every layout, precision and raw value", "The tests convert a few dozen numbers of two layouts; large whole parts and large precisions lose bits silently.",
     [L], [("From<FixedPoint> for f64", L)],
     technique="abstract interpretation of the MIR into floating-point terms over integer polynomials, with a static relative error bound (IEEE-754 rounding model, no cancellation) and a polynomial identity for the ideal value",
     note="IEEE-754 double arithmetic in round-to-nearest is assumed.")
prop("C16", "Parsing accepts exactly the decimal grammar and rounds to nearest",
     "from_str accepts exactly the texts [white space][+|-]digits[.digits][white space], for any number of digits, and returns the denoted number rounded to the nearest value (ties away from zero), or an error if that is not representable. from_str_exact returns a number only if the text denotes exactly that number, and does so for every representable text with at most as many fractional digits as the precision. Every other text is an error, and parsing never panics.",
     "every layout, precision and text (digit strings of every length)", "The tests parse a few dozen texts; signs of numbers between -1 and 0, surplus digits, odd characters and texts at the ends of the range are where parsers go wrong.",
     ["src/string.rs"], [("FromStr, from_str_exact, parse_str", "src/string.rs")],
     technique="abstract interpretation of the type-checked MIR over abstract strings (sequences of literal characters, digit runs with symbolic value and length, white space runs, unknown characters) and the relational integer domain",
     note="str methods and the integer FromStr of core are modelled by their documented behaviour.")
prop("C17", "Formatting writes the canonical decimal text of exactly the number",
     "Display and Debug write an optional minus sign (exactly for negative numbers), the whole part without leading zeros, a point, and at least one and at most max(1, precision) fractional digits without superfluous trailing zeros, denoting exactly the number. They do so for every number including MIN, never panic and never cut the text off; hence from_str reads the text back as the same number.",
     "every layout, precision and raw value", TESTS + "and zeros after the point, numbers between -1 and 0 and the longest texts are where formatters go wrong.",
     ["src/string.rs", L], [("Stringify, StrBuf", "src/string.rs"), ("Display, Debug", L)],
     technique="abstract interpretation of the type-checked MIR over abstract strings and the relational integer domain",
     note="itoa's integer formatting and the str methods of core are modelled by their documented behaviour; the formatter is a recorder.")
prop("C18", "The unsafe formatting buffer and raw accesses stay within bounds",
     "The fixed-size buffer behind formatting is never written or read beyond its length, for every layout set, every precision and every number, in debug and in release builds; the text view of it is always valid UTF-8. No other unsafe code of the library can reach undefined behaviour for any input.",
     "every set of enabled layouts, every precision, every raw value, builds with and without debug assertions", "Writes are unchecked in release builds and debug builds stop at an assertion; the longest texts belong to single values of single precisions, which no test formats.",
     ["src/string.rs"], [("StrBuf, Stringify", "src/string.rs")], over=("inputs", "programs"),
     technique="bounds analysis by abstract interpretation of the MIR of debug and release builds for eight layout sets, and a query over all calls of unsafe functions in the program's MIR (each must lie in a completely analysed function)",
     note="The unsafe code of dependencies (itoa, static-assertions, typenum) is trusted.")
prop("C19", "Serialisation gives the canonical string, raw bits, float or option as asked",
     "Serialising a number gives its canonical decimal string in human readable formats and its raw representation in other formats; the modules repr, str and float give the raw representation, the string and the converted float whatever the format. Their option variants wrap exactly the same in Some, or give None. Types that convert to and from fixed-point numbers are serialised like the number.",
     "every layout, precision, raw value, kind of format and serde module", "The tests serialise two numbers with one format; the format's kind and the number decide which code runs.",
     ["src/serde.rs"], [("Serialize for FixedPoint; repr, str, float, *_option", "src/serde.rs")],
     technique="abstract interpretation of the MIR against a recording Serializer (events and abstract strings)", note="f64::from is kept uninterpreted: that it is called on exactly the number is what is decided.")
prop("C20", "Deserialisation yields exactly the number in every accepted form",
     "In human readable formats a number is read exactly from an integer of any type and from a decimal string (borrowed from the input or not), as a conversion from a float, and everything that denotes no representable number is an error (with the quick-xml feature the map {\"$value\": string}, a tag's text, is read like the string); in other formats it is read from its raw representation. The modules repr, str and float read exactly what they write, their option variants distinguish absent from present, and nothing panics.",
     "every layout, precision, kind of format, serde event and value", "The tests read a handful of JSON texts; strings that are not borrowed, wide integers and wrapped values come from other formats.",
     ["src/serde.rs"], [("Deserialize for FixedPoint; repr, str, float, *_option", "src/serde.rs")],
     technique="abstract interpretation of the MIR against a Deserializer that hands over an abstract event", note="TryFrom<f64> is kept uninterpreted here.")
prop("C21", "SCALE encoding is the little endian raw representation, both ways",
     "Encoding a number writes exactly its raw representation as little endian two's complement bytes of the layout's size (2, 4, 8 or 16), with encode, encode_to and using_encoded alike, and the announced sizes agree. Decoding such bytes gives exactly that number and consumes exactly these bytes; incomplete input is an error. The compact form goes through the unsigned integer with the same bits, both ways.",
     "every layout, precision, raw value and byte string", "The crate has no test of this module at all.",
     ["src/parity.rs"], [("Encode, Decode, CompactAs, From<Compact>", "src/parity.rs")],
     technique="abstract interpretation of the type-checked MIR (crate and codec) against a recording Output and an Input of symbolic bytes", note="Vec<u8> is modelled as a growing sequence of bytes; the compact integer code of parity-scale-codec itself is trusted.")
prop("C22", "Errors name their cause, and conversion errors have a text",
     "An arithmetic error's text (as_str and Display alike) is 'overflow', 'division by zero' or 'domain violation' according to its cause, and two errors are equal exactly if their causes are. A failed conversion from an integer, a float or a string gives an error whose as_str and Display are the same text, which is not empty.",
     "every error value and every failing conversion", "The tests look at the texts of a few conversion errors only, and of arithmetic errors hardly at all.",
     ["src/errors.rs"], [("ArithmeticError, ConvertError", "src/errors.rs")],
     technique="abstract interpretation of the MIR against a recording Formatter", note="Conversions from strings are analysed for nine texts per layout; that every rejected text is an error at all is C16.")
prop("C29", "The JSON schema describes what serialisation writes: a string",
     "The JSON schema of a number type is an inline schema of type string without any restriction that a serialised number could violate, for every layout and precision.",
     "every layout and precision", "The crate has no test of the schema at all.",
     ["src/schemars.rs"], [("JsonSchema for FixedPoint", "src/schemars.rs")],
     technique="abstract interpretation of the MIR of the crate and of schemars against an inspecting harness", note="Box, String and the map type are modelled; that serialisation writes a string is C19.")
prop("C24", "Mixing number types, and unchecked operations, do not compile",
     "Numbers of different precision or layout are never mixed: passing one where another is expected, operating on or comparing both, or converting with possible loss but without a check, does not compile. Nor do operations with implicit rounding (number times number without a mode), unchecked operators, results used without handling the error, undeclared operations of wrapper types, or precisions that the layout cannot hold. Numbers stay plain data: Copy, Send, Sync, totally ordered, of their layout's size and transparent representation, usable in constants.",
     "every pair of number types and every program that uses them", "A test that compiles cannot show that something else is rejected; the crate has one compile-fail test, of a literal.",
     [L, "src/macros.rs", "src/ops/mod.rs", "src/const_fn.rs"], [("FixedPoint, Precision", L), ("traits of operations", "src/ops/mod.rs"), ("Operand, impl_op!", "src/macros.rs")], over=("programs",),
     technique="type-level witnesses: compile-fail programs, each with a twin that keeps the rule and compiles, decided by the type checker and constant evaluation",
     note="Witnesses are enumerated over layouts and precisions (quick: three precisions of each layout, thorough: all); a program outside of the enumerated forms is not decided.")
prop("C25", "Literals that compile denote exactly the number that is written",
     "fixnum_const! and fixnum!, given the precision of the type, yield exactly the decimal number that is written (sign, whole digits, optional point and fractional digits). A literal whose text is not such a number, that has non-zero digits beyond the precision, or that the layout cannot hold, never yields a value: it fails to compile or panics. Every other literal of up to 38 (i128) or 19 (i64) digits within plus or minus MAX compiles.",
     "every layout, precision and literal text of up to 41 whole digits", "The tests contain three literals; signs, the longest texts, odd characters and small layouts are not sampled.",
     ["src/macros.rs", "src/const_fn.rs"], [("fixnum_const!, fixnum!", "src/macros.rs"), ("parse_fixed, pow10", "src/const_fn.rs")], over=("inputs", "programs"),
     technique="abstract interpretation of the MIR of the macros' expansions (the declared constant's initialiser over a symbolic text of each shape, the remaining expression over a symbolic constant) and compiler-evaluated witnesses",
     note="Texts are enumerated by shape (sign, numbers of whole and fractional digits), with every digit symbolic.")
prop("C26", "Operations declared by impl_op! act exactly like the underlying ones",
     "A checked addition, subtraction, multiplication, rounding multiplication or rounding division that a user declares for wrapper types with impl_op! computes what the same operation computes on the underlying numbers: the exact or correctly rounded result as the declared result type, or Overflow or DivisionByZero when there is none; the saturating forms clamp to the ends of the result type. Nothing panics or wraps.",
     "every layout, precision, rounding mode, wrapper of a fixed-point number or of a narrower integer, and every pair of raw values", "The tests declare a handful of operations and evaluate each a few times; a swapped operand, a forgotten promotion or a wrong saturating form in one arm of the macro shows only for particular operands.",
     ["src/macros.rs", "src/ops/mod.rs"], [("impl_op!", "src/macros.rs"), ("Operand for wrapped numbers", "src/macros.rs")])
prop("C27", "Equality, ordering, hashing, signum and raw bits follow the number",
     "Equality, ordering (all six operators, cmp, partial_cmp, min, max) and signum of fixed-point numbers are those of the numbers they denote, and the hash depends on the number only. Raw bits pass unchanged through from_bits, as_bits, into_bits and copying.",
     "every layout, precision and pair of raw values", "The tests compare a few numbers; a wrong derive or a manual implementation can be right on all of them.",
     [L], [("derived comparison traits", L), ("from_bits/into_bits/as_bits", L)])
prop("C28", "ZERO, ONE, MIN, MAX, EPSILON, PRECISION and Default have their values",
     "For every layout and every precision it can hold, ZERO and the default value are 0, ONE is 10^precision units, MIN and MAX are the ends of the layout, EPSILON is one unit and PRECISION is the declared precision. The same constants of the plain integers are 0, 1 and the ends of their type.",
     "every layout and precision (i16: 0..4, i32: 0..9, i64: 0..18, i128: 0..38)", "The tests use a few precisions; the power table or its continuation loop can be wrong at one unused precision.",
     [L, "src/const_fn.rs", "src/ops/mod.rs"], [("COEF, pow10", "src/const_fn.rs")], over=("inputs", "programs"))

prop("C30", "Every feature configuration, and a release build, computes the same results",
     "With the standard library turned off, with any single layout enabled on its own, and in release builds (no debug assertions, no overflow checks), the arithmetic, conversions, parsing, formatting and constants keep all their guarantees: the same results and errors for the same operands.",
     "no_std and single-layout builds x operations x precision x raw values", "The tests are run with all features; a mistake under cfg(not(feature)) is never compiled by them.",
     [L, "src/power_table.rs", "src/errors.rs", "src/string.rs"], [("cfg(feature) branches", L), ("ConvertError without std", "src/errors.rs")], over=("inputs", "programs"))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for t in T:
            f.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["text"]},
                                "why_tests_cant": t["why"], "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]]}}) + "\n")
    base = "Sound up to the listed trusted base: every path of the analysed entry points is covered for all operand values; an obligation that cannot be discharged on a changed tree is narrowed to a class that definitely violates before an alarm is raised, otherwise it is recorded as undecided in the evidence."
    m = {"version": 1, "setup_cmd": "python3 -m sa.setup",
         "checks": [{"property": t["id"], "quick_cmd": "python3 -m sa.main %s --tier quick" % t["id"], "thorough_cmd": "python3 -m sa.main %s --tier thorough" % t["id"],
                     "evidence_file": "evidence/%s.json" % t["id"], "technique": t["technique"], "level": "other" if t["id"] == "C24" else "proof", "level_note": (t["note"] + " " + base).strip()} for t in T if t["claim"]],
         "not_applicable": [{"property": t["id"], "reason": t["reason"]} for t in T if not t["claim"]],
         "notes": "Static analysis only: /repo is type-checked by the nightly compiler through a driver that writes its MIR; nothing of /repo is executed. No hooks in /repo."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)


main()
