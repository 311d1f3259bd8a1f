#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

FUZZ = "The repository's random test stops at 256 bits and asserts a few algebraic identities; "
p("C01", "Addition, subtraction, multiplication and negation are exact modulo 2^w",
  "For every bit width w and all operands of width w, adding, subtracting, multiplying, negating, incrementing and decrementing yields exactly the mathematical result reduced modulo 2^w, at width w. This holds for every call form (in place, consuming, operator) and for the untyped, the signed and the unsigned integer alike, and a by-reference right operand is never changed.",
  ["inputs"], "all widths w >= 1, all pairs of w-bit values, all call forms of ApInt, Int and UInt",
  FUZZ + "carry chains across many digits, asymmetric significant lengths and the partially filled top digit of wide integers are never compared with an independent result.",
  ["src/apint/arithmetic.rs", "src/digit.rs", "src/int.rs", "src/uint.rs"],
  [("carry propagation over digits, then clearing of the unused top bits", "src/apint/arithmetic.rs:29-300"),
   ("multiplication paths selected by the significant digit counts of both operands", "src/apint/arithmetic.rs:294-580")],
  [dict(name="digits", meaning="little-endian 64-bit digits of the value; bits above the width are zero", where="src/apint/mod.rs")],
  ["return value / operands after every call"])
p("C02", "Division and remainder are exact and satisfy n = q*d + r",
  "For every width and every non-zero divisor of that width, unsigned division and remainder give the unique q and r with n = q*d + r and 0 <= r < d, and signed division truncates toward zero with a remainder that takes the sign of the dividend, MIN / -1 wrapping to MIN with remainder 0. The separate quotient and remainder calls and the combined calls, in every call form, agree with this. Division by zero is reported as an error that names the operation and carries the dividend, and changes nothing.",
  ["inputs"], "all widths, all dividends, all divisors including zero, all eight division operations and their call forms",
  FUZZ + "the quotient-estimate corrections of the long division fire for about one in 2^64 random operands, and only constructed operands or wide integers reach all branches.",
  ["src/apint/arithmetic.rs", "src/digit.rs", "src/int.rs", "src/uint.rs"],
  [("two copies of one division algorithm, with paths chosen by significant bit counts", "src/apint/arithmetic.rs:639-1525"),
   ("sign handling by negate / divide / negate", "src/apint/arithmetic.rs:1660-1860")],
  observe=["quotient, remainder, both operands after the call, error kind"])
p("C03", "Shifts move every bit by exactly the amount, for all valid amounts",
  "For every width w and every amount s < w, a left shift moves each bit up by s and fills with zeros, a logical right shift moves each bit down by s and fills with zeros, and an arithmetic right shift fills with the sign bit; the signed type's right shift is arithmetic and the unsigned type's is logical. Every amount s >= w is rejected with an error that carries the amount and the width, and the value stays as it was.",
  ["inputs"], "all widths, values and shift amounts (valid and invalid), all call forms of ApInt, Int and UInt",
  "The tests shift a handful of constants of 8 to 128 bits; widths with a partially filled top digit, three and more digits and amounts next to digit boundaries are not sampled.",
  ["src/apint/shift.rs", "src/checks.rs", "src/int.rs", "src/uint.rs"],
  [("digit steps plus bit steps with carry into the neighbouring digit", "src/apint/shift.rs:76-300"),
   ("shift amount validation", "src/checks.rs")])
p("C04", "Bitwise operations, bit access and bit counts match the w-bit vector",
  "For every width and value, not/and/or/xor, setting, clearing, flipping and reading single bits, the whole-value and most-significant-bit variants, the counts of ones, zeros, leading and trailing zeros, and the predicates zero, one, even, odd, all-set and all-unset are exactly those of the w-bit vector, with only the addressed bits changed. A bit position at or beyond the width is rejected with an error carrying position and width, and nothing changes.",
  ["inputs"], "all widths, values, positions and pairs of values, for ApInt, Int and UInt",
  "README lists bitwise and utils tests as not started; the existing ones look at a few constants up to 128 bits.",
  ["src/apint/bitwise.rs", "src/apint/utils.rs", "src/digit.rs", "src/checks.rs", "src/bitpos.rs"],
  [("per-digit operation followed by clearing of unused bits", "src/apint/bitwise.rs:13-245"),
   ("correction of digit counts by the unused bits", "src/apint/bitwise.rs:246-305")])
p("C05", "Truncation, extension, resizing and assignment keep exactly the right bits",
  "Truncating to a width keeps exactly the low bits, zero-extension adds zeros and sign-extension adds copies of the sign bit, the resize operations pick truncation or extension by comparing widths, and a result always has exactly the requested width. Truncating to a larger width or extending to a smaller one is an error carrying both widths that leaves the value unchanged; assignment makes the target equal to the source in width and value, and strict assignment does so only for equal widths and errs otherwise.",
  ["inputs"], "all pairs of widths (w1, w2), all values, all call forms of ApInt, Int and UInt",
  "README lists casting tests as not started; width pairs that cross the inline/heap boundary or change the digit count with a partially filled top digit are not enumerated.",
  ["src/apint/casting.rs", "src/int.rs", "src/uint.rs"],
  [("three storage cases (inline to inline, heap to inline, heap to heap) per operation", "src/apint/casting.rs:106-490"),
   ("assign reusing or replacing the buffer", "src/apint/casting.rs:39-104")])
p("C06", "Construction from and conversion to primitive integers preserve the value",
  "Building an integer from a primitive or from an array of 64-bit digits gives the type's width and exactly that two's complement value, and the zero, one, minimum, maximum, all-set and all-unset constructors give the named value at any width. Resizing conversion to a primitive yields the low bits (sign- or zero-extended by the primitive's signedness when the integer is narrower), and checked conversion yields the value when it fits (for the untyped and the unsigned integer: when the unsigned value needs no more bits than the primitive has; for the signed integer: when the signed value lies in the primitive's range) and otherwise an error carrying the value and the destination type.",
  ["inputs"], "all primitive values, digit arrays, widths, and all eleven destination types, for ApInt, Int and UInt",
  "The tests use powers of two and a few constants; the edges at each (width, destination size) pair and values with high digits set are not covered.",
  ["src/apint/constructors.rs", "src/apint/to_primitive.rs", "src/int.rs", "src/uint.rs"],
  [("width-specific constructors", "src/apint/constructors.rs:85-300"), ("array constructors (big-endian digits)", "src/apint/constructors.rs:375-406"),
   ("resize and checked casts", "src/apint/to_primitive.rs:108-580")])
p("C07", "Equality, hashing and comparison form the mathematical order of the values",
  "Two integers are equal exactly when their widths and values are equal, equal integers hash alike, and for equal widths every unsigned and signed comparison returns what comparing the mathematical values returns, so each order is total, antisymmetric and transitive. For different widths the checked comparisons return an error carrying both widths, partial comparison yields no ordering, and the comparison operators yield false.",
  ["inputs"], "all pairs and triples of values, equal and different widths, both signedness interpretations, all call forms",
  "README lists relational tests as not started; values that differ in a single digit position, or only in sign, at multi-digit widths are not sampled.",
  ["src/apint/relational.rs", "src/apint/utils.rs", "src/int.rs", "src/uint.rs"],
  [("most-significant-digit-first comparison, sign handling", "src/apint/relational.rs:12-260"), ("hash over width and digits", "src/apint/utils.rs:29-34"),
   ("PartialOrd for the signed and unsigned types", "src/int.rs:349, src/uint.rs:291")])
p("C08", "Parsing and printing text denote exactly the value",
  "For every radix from 2 to 36, parsing a string of valid digits (either letter case, leading zeros and interior underscores allowed) yields an integer whose value is exactly the number written, however long the string; an empty string, a leading or trailing underscore or any other character is rejected with an error carrying the input, the radix and, for a bad character, its position. Binary, octal and hexadecimal printing and conversion to a string in any radix give the canonical digits of the value without leading zeros, and parsing that text gives the value back.",
  ["inputs"], "all radices, all strings, all values and widths",
  "The tests parse short strings (at most one 64-bit chunk for radices that are not powers of two) and print a few constants.",
  ["src/apint/serialization.rs", "src/radix.rs", "src/errors.rs"],
  [("three parsers: exact bits, inexact bits, general radix", "src/apint/serialization.rs:143-325"), ("chunk size and base per radix", "src/radix.rs:115-165"),
   ("digit-wise printing with zero padding", "src/apint/serialization.rs:30-100")])
p("C09", "Serialization round-trips and malformed input is rejected without a panic",
  "Serializing any integer or bit width and deserializing the result, in a human-readable or a compact format, gives back an equal one of the same width, and the serialized form is the width followed by the value's 64-bit digits from least to most significant. Deserializing any other data ends in an error or in a well-formed integer, never in a panic: a missing, duplicate or unknown part, a zero width and a digit count that does not fit the width are errors, and surplus bits above the width never reach the value.",
  ["inputs", "fault_sequences"], "all values, both format kinds, all token streams including truncated, reordered and ill-typed ones",
  "The tests check two values per format and no malformed input.",
  ["src/apint/serde_impl.rs"],
  [("separate human-readable and compact visitors", "src/apint/serde_impl.rs:150-325"), ("digit count check, then truncation to the width", "src/apint/serde_impl.rs:231-245")])
p("C10", "Any operation history leaves values in canonical form",
  "After any sequence of public operations, successful or failed, an integer is indistinguishable from one built directly with the same width and bits: equality, hash, debug and text output, serialized form, comparisons, counts and the result of every further operation agree. No operation leaves traces of bits above the width.",
  ["histories", "inputs"], "all finite sequences of public operations over a pool of integers of arbitrary widths",
  "Each test looks at one operation on freshly built values; stray bits above the width show only in a later operation of a particular kind.",
  ["src/apint/utils.rs", "src/apint/mod.rs", "src/apint/arithmetic.rs", "src/apint/bitwise.rs", "src/apint/casting.rs", "src/apint/shift.rs", "src/apint/rand_impl.rs"],
  [("clearing of unused bits at the end of each operation that can set them", "src/apint/utils.rs:366-378")],
  [dict(name="unused bits", meaning="bits of the top digit above the width, always zero", where="src/apint/utils.rs:366")])
p("C11", "Invalid requests are reported as errors and change nothing",
  "Every named fallible operation called with invalid arguments (different widths, zero divisor, shift amount or bit position out of range, wrong cast direction, unrepresentable value, malformed text or radix, zero width) returns an error whose kind, data and text describe exactly that request, and never panics. When it returns an error, every operand that the caller still holds has the width and value it had before; with valid arguments no operation fails or panics.",
  ["inputs", "fault_sequences"], "all fallible operations, all invalid and valid argument combinations, including several things wrong at once",
  "The tests check error results for few operations and never the operands after a failure.",
  ["src/errors.rs", "src/checks.rs", "src/apint/utils.rs", "src/apint/arithmetic.rs", "src/apint/casting.rs", "src/apint/shift.rs", "src/apint/bitwise.rs", "src/apint/relational.rs"],
  [("paired data access that checks widths before handing out digits", "src/apint/utils.rs:140-215"), ("error constructors", "src/errors.rs:172-380")])
p("C12", "No operation history causes memory errors, leaks or undefined behaviour",
  "Under any sequence of operations through the safe interface, including failing operations and user-supplied generators or decoders that panic midway, no memory is read or written out of bounds, after release or before initialisation, every heap block is released exactly once with the size it was requested with, and nothing is leaked.",
  ["histories", "fault_sequences"], "all operation histories over inline and heap-backed integers, all points at which user-supplied code can panic",
  "Assertions cannot see an out-of-bounds access, a wrong release size or a leak; the storage is a hand-written union with manual release.",
  ["src/apint/mod.rs", "src/apint/constructors.rs", "src/apint/casting.rs", "src/storage.rs", "src/apint/utils.rs"],
  [("union of inline digit and heap pointer, discriminated by the width", "src/apint/mod.rs:20-46"), ("manual buffer hand-over and release", "src/apint/constructors.rs:16-85"),
   ("buffer replacement on assign, truncate and extend", "src/apint/casting.rs:39-410")])
p("C13", "Values are independent: clones, operands and errors never alias",
  "A clone, an assignment target and a value captured inside an error are independent copies: whatever is later done to one, including dropping it, never changes the other. An operation changes only the operand it is documented to change; by-reference operands and all other live integers keep width and value.",
  ["histories"], "all histories of clones, assignments, mutations, failures and drops over a pool of integers",
  "Tests observe the result of one call, not every other live value after it.",
  ["src/apint/casting.rs", "src/apint/utils.rs", "src/errors.rs", "src/apint/constructors.rs"],
  [("deep copy on clone and assign", "src/apint/casting.rs:13-75"), ("errors store cloned values", "src/errors.rs")])
p("C14", "Small integers never allocate and the heap footprint depends on the width only",
  "Integers of at most 64 bits never use the heap: constructing, cloning, casting among such widths, converting, comparing, shifting and calculating with them performs no allocation. A wider integer owns exactly one block of eight bytes per started 64 bits whatever its value or history, an integer object is exactly 16 bytes, and addition, subtraction, negation, increment, decrement, bitwise, bit-access, shift and counting operations and comparisons of equal-width integers never allocate at any width.",
  ["inputs", "histories"], "all widths, values and histories; successful calls",
  "No test looks at allocations; README and module documentation promise them.",
  ["src/apint/mod.rs", "src/storage.rs", "src/apint/constructors.rs", "src/apint/casting.rs", "src/apint/arithmetic.rs"],
  [("small value optimisation by width", "src/storage.rs"), ("in-place operations on digit slices", "src/apint/arithmetic.rs, src/apint/bitwise.rs, src/apint/shift.rs")])
p("C15", "Random integers have the requested width and use every bit of it",
  "Drawing a random integer yields exactly the requested width, randomizing an existing one keeps its width, and neither sets bits above it. Every bit of the result follows the supplied generator, each being zero for some draws and one for others independently of the other bits; the same generator state always gives the same integer, through construction and in-place randomization alike, and consumes the same amount of the generator.",
  ["inputs", "histories"], "all widths, all generators including constant and panicking ones",
  "The tests compare one seed at a few widths with recorded values.",
  ["src/apint/rand_impl.rs", "src/int.rs", "src/uint.rs"],
  [("digit-wise sampling and clearing of unused bits", "src/apint/rand_impl.rs:19-75")])
p("C16", "Operators equal the named operations and panic exactly when these err",
  "For the untyped, signed and unsigned integers every arithmetic, bitwise and shift operator, plain and assigning, gives the same value as the corresponding named operation, leaves by-reference operands unchanged, and panics exactly when that operation returns an error. The signed type's division, remainder and right shift are the signed ones and the unsigned type's the unsigned ones.",
  ["inputs"], "all operators, types, operand pairs and shift amounts, valid and invalid",
  "The tests apply each operator to one small pair of values.",
  ["src/std_ops.rs"],
  [("macro-generated operator implementations", "src/std_ops.rs:33-220")])
p("C17", "Signed and unsigned types interpret the same bits as their sign demands",
  "The signed type behaves as a two's complement integer and the unsigned type as a natural number of the same width: sign tests, sign function, absolute value, one, minimum and maximum, comparison, extension, right shift, division, remainder and primitive conversion follow that interpretation at every width including one bit. Converting between the untyped, signed and unsigned types keeps width and bits.",
  ["inputs"], "all widths, values, and methods of Int and UInt",
  "The wrapper types have two tests of their own; everything else is assumed to forward correctly.",
  ["src/int.rs", "src/uint.rs"],
  [("forwarding to the signedness-specific operation", "src/int.rs, src/uint.rs"), ("one-bit special cases", "src/int.rs:100-112, 217-224, 245-280")])
p("C18", "Results do not depend on enabled features or on the build profile",
  "The same program gives the same results, errors and panics with every combination of the crate's features and in optimised and unoptimised builds.",
  ["configurations", "histories"], "all feature combinations (std, serde, rand on or off), debug and release profiles, all operation histories",
  "The tests run in one configuration only.",
  ["Cargo.toml", "src/mem.rs", "src/lib.rs", "src/apint/rand_impl.rs", "src/apint/serde_impl.rs"],
  [("alloc/std shim", "src/mem.rs"), ("feature-gated modules", "src/apint/mod.rs")])
p("C19", "Integers may be shared and sent between threads",
  "Threads may concurrently read, clone, compare, print and use shared integers as right operands, and integers may be moved between threads, under every schedule without a data race, and each thread obtains the result it would obtain alone.",
  ["schedules"], "all interleavings of threads that use shared integers immutably and move owned ones",
  "Send and Sync are asserted by unsafe impls and no test uses a thread.",
  ["src/apint/mod.rs"],
  [("unsafe impl Send / Sync; no interior mutability", "src/apint/mod.rs:40-46")])
p("C20", "Widths, radices, positions and shift amounts accept exactly the valid values",
  "A bit width accepts every positive number and rejects zero, a radix accepts exactly 2 to 36, bit positions and shift amounts accept every number, and each gives back the number it was made from; checked construction reports the rejected number in the error and infallible conversion panics exactly for the values the checked construction rejects. Equality, order and hash of these types are those of the numbers.",
  ["inputs"], "all numbers",
  "The tests check a few numbers per type.",
  ["src/bitwidth.rs", "src/radix.rs", "src/bitpos.rs", "src/apint/shift.rs"],
  [("checked constructors", "src/bitwidth.rs:72, src/radix.rs:38, src/bitpos.rs:29")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["title"]
