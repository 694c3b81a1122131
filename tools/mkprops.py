#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
R, S = "ristretto.go", "scalar.go"
E = "edwards25519/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Scalar arithmetic is exact modulo the group order",
 "Adding, subtracting, negating, multiplying, squaring, multiply-adding, multiply-subtracting and inverting scalars gives the mathematically exact result modulo l = 2^252 + 27742317777372353535851937790883648493. Every result is the unique fully reduced representative in [0, l), so its byte encoding is canonical. The inverse of a non-zero scalar times that scalar is one.",
 ["inputs"], "all pairs/triples of reduced scalars, including those whose exact result lies next to 0, to l or to a limb boundary",
 "The tests draw 100-1000 uniform scalars per operation; carries, borrows and final reductions that fire only for operands or results next to limb boundaries or multiples of l have probability 2^-20 or less under uniform sampling.",
 [S], [("add/sub with conditional add of l", S+": Add, Sub, Neg"), ("21-bit limb products and lazy signed carries", S+": Mul, Square, MulAdd, MulSub, reduceAfterMul"), ("addition chain for l-2", S+": Inverse")],
 ["Scalar.Add/Sub/Neg/Mul/Square/MulAdd/MulSub/Inverse", "Scalar.BytesInto", "Scalar.BigInt"])

prop("C02", "Scalar decoding and derivation reduce exactly, strict decoding is exact",
 "Setting a scalar from 32 bytes yields the little-endian number with its top three bits ignored modulo l; from 64 bytes, from any integer (negative or huge), or from a uint64 it yields that number modulo l, and deriving from data yields SHA-512 of the data modulo l (or, for the short form, its first 16 bytes). Strict decoding succeeds exactly for the 32-byte encodings of numbers below l, then sets that number, and otherwise leaves the scalar untouched. Encoding as bytes or as an integer returns exactly the value that was set.",
 ["inputs"], "all 32- and 64-byte strings, all integers, all byte slices of any length",
 "The tests compare a few hundred uniform buffers with big.Int (top bits are rarely set, values next to l, 2l or k*l never occur) and strict decoding on a handful of hand-picked values.",
 [S], [("SetBytes masks and subtracts l once", S+": SetBytes"), ("compare with t-l", S+": SetBytesStrict"), ("wide reduction", S+": SetReduced"), ("mod via big.Int", S+": SetBigInt, SetUint64"), ("hashing", S+": Derive, DeriveShort")],
 ["Scalar.SetBytes/SetBytesStrict/SetReduced/SetBigInt/SetUint64/Derive/DeriveShort", "Scalar.Bytes/BytesInto/BigInt"])

prop("C03", "Scalar binary/text serialisation round-trips and rejects junk cleanly",
 "Marshalling a scalar to binary, text, String(), JSON or gob and unmarshalling it gives the same scalar; the text form is the unpadded URL-safe base64 of the 32-byte encoding. Unmarshalling any byte string either returns an error or sets the scalar those bytes denote (exactly 32 bytes, after base64 decoding for text, taken modulo l as documented). No input makes unmarshalling panic.",
 ["inputs"], "all scalars, and all byte strings of any length offered to the binary and text unmarshallers",
 "The tests marshal and unmarshal well-formed values only; no malformed, over-long, padded or wrong-alphabet input is ever offered.",
 [S], [("length check + SetBytes", S+": UnmarshalBinary"), ("base64 decode + length check", S+": UnmarshalText"), ("base64 encode", S+": MarshalText, String")],
 ["Scalar.MarshalBinary/UnmarshalBinary/MarshalText/UnmarshalText/String", "encoding/json", "encoding/gob"])

prop("C04", "Point decoding accepts exactly the canonical RFC 9496 encodings",
 "Decoding 32 bytes into a point succeeds if and only if RFC 9496 ristretto255 decoding accepts them: below 2^255-19, non-negative, on the curve, non-negative t, non-zero y. On success the point is the group element RFC 9496 assigns to those bytes and encodes back to exactly the same bytes, so no element has two accepted encodings.",
 ["inputs"], "all 2^256 byte strings, including non-canonical, negative, off-curve and torsion-related ones",
 "The tests try the RFC's 29 bad encodings and encodings of random points; single-condition violations (only t negative, only non-canonical, only the top bit set) adjacent to valid encodings are not explored, and which condition rejects an input is invisible to them.",
 [E+"curve.go", R], [("canonicity, sign, square, t-sign and y checks folded into ret", E+"curve.go: SetRistretto"), ("wrapper", R+": SetBytes, UnmarshalBinary")],
 ["Point.SetBytes", "Point.UnmarshalBinary", "Point.Bytes"])

prop("C05", "Encoding and equality depend only on the group element",
 "Whatever sequence of operations produced it - any of its four Edwards representatives, any projective scaling, any internal limb form - a point encodes to the RFC 9496 bytes of its group element. Two points compare equal exactly when they are the same group element, which is exactly when their encodings are equal. Encoding then decoding returns an equal point.",
 ["inputs", "histories"], "all group elements and all internal representations of them, all pairs of points including near misses (negatives, coset neighbours, shared coordinates)",
 "The tests check a few hundred random points with one torsion shift; identity-class representatives, Z scalings, and unequal pairs sharing coordinates up to sign or swap are not generated.",
 [E+"curve.go", R], [("coset-invariant encoding", E+"curve.go: RistrettoInto"), ("x1y2=x2y1 or x1x2=y1y2", E+"curve.go: RistrettoEqualsI"), ("wrappers", R+": Bytes, BytesInto, EqualsI, Equals")],
 ["Point.Bytes/BytesInto", "Point.Equals/EqualsI"])

prop("C06", "Point addition, subtraction, doubling, negation obey the group law",
 "Adding, subtracting, doubling and negating points computes the group operation of ristretto255 for every pair of elements, with no exceptional cases: equal or opposite operands, the identity, and operands differing by torsion included. Every result is a valid internal point (on the curve, consistent extended coordinates, non-zero Z, even), so it can be used in any further operation.",
 ["inputs"], "all pairs of group elements in all representations",
 "The tests compare 100-1000 uniform pairs against the C reference; P+P, P-P, P+0, coset-shifted and small-multiple pairs have probability zero there, and internal validity is never checked.",
 [E+"curve.go", R], [("unified extended addition", E+"curve.go: AddExtended, SubExtended, DoubleExtended, SetCompleted, Neg"), ("wrappers", R+": Add, Sub, Double, Neg, SetZero, SetBase, Set")],
 ["Point.Add/Sub/Double/Neg/Set/SetZero/SetBase"])

prop("C07", "All scalar multiplications compute s*P for every scalar and point",
 "Constant-time and public (variable-time) multiplication, base-point multiplication and multiplication through a precomputed table all compute exactly s times the point, for every scalar and point. A table keeps giving the multiples of the point it was last computed for, however often it is used or recomputed.",
 ["inputs", "histories"], "all scalars (including 0, 1, l-1, and all signed-window / NAF digit patterns), all points (including the identity), all table histories",
 "The tests multiply a few hundred uniform scalars; extreme window digits at each position, long carry chains, zero and near-l scalars, table reuse and recomputation are not covered.",
 [E+"curve.go", E+"table.go", E+"vartime.go", E+"table_radix51.go", E+"table_generic.go", R],
 [("signed 5-bit windows + constant-time lookup", E+"curve.go: computeScalarWindow5, ScalarMult"), ("signed 4-bit windows + precomputed table", E+"table.go: Compute, ScalarMult, VarTimeScalarMult, selectPoint"), ("5-NAF", E+"vartime.go"), ("precomputed base tables", E+"table_radix51.go, table_generic.go"), ("wrappers", R+": ScalarMult, PublicScalarMult, ScalarMultBase, PublicScalarMultBase, ScalarMultTable, PublicScalarMultTable")],
 ["Point.*ScalarMult*", "ScalarMultTable.Compute"])

prop("C08", "Curve operations are exact on every Edwards25519 point",
 "In the curve package, addition, subtraction, doubling, negation, coordinate conversions (extended, completed, projective, Niels) and scalar multiplication (direct, variable-time and by table, for scalars below 2^253) give exactly the Edwards25519 result, not just up to Ristretto equivalence. This holds for every point on the curve, including the 8-torsion points and points outside the prime-order subgroup, in any projective representation.",
 ["inputs"], "all curve points (all eight torsion cosets) in all representations, all scalars below 2^253",
 "The tests compare up to Ristretto equivalence on random even points, which hides torsion errors, and never use odd points or torsion points.",
 [E+"curve.go", E+"table.go", E+"vartime.go"], [("P1P1/P2/P3 conversions", E+"curve.go"), ("Niels form", E+"table.go: SetExtended, AddExtendedNiels, SubExtendedNiels, Neg"), ("multiplication", E+"curve.go: ScalarMult; "+E+"vartime.go; "+E+"table.go")],
 ["ExtendedPoint/CompletedPoint/ProjectivePoint/NielsPoint methods"])

prop("C09", "Hash-to-group and Elligator equal the RFC 9496 map on every input",
 "Mapping 32 bytes to a point equals the RFC 9496 one-way map of those bytes (top bit ignored, reduced modulo 2^255-19) for every input. Deriving a point from data equals the map of the first half of its SHA-512 digest, and the dalek-style derivation equals the RFC 9496 hash-to-group sum of the maps of both halves, for data of every length. The result is always a valid even point and the same input always gives the same element.",
 ["inputs"], "all 32-byte strings including exceptional field elements (0, roots of the denominators, non-canonical, top bit set), and byte slices of any length",
 "The tests use the RFC vectors and random strings against the C code; exceptional field elements and non-canonical inputs have negligible probability, and data lengths around hash block boundaries are not tried.",
 [E+"elligator.go", R], [("Elligator2 via Jacobi quartic", E+"elligator.go: SetRistrettoElligator2, SetJacobiQuartic"), ("wrappers", R+": SetElligator, Derive, DeriveDalek")],
 ["Point.SetElligator", "Point.Derive", "Point.DeriveDalek"])

prop("C10", "The Elligator inverse returns exactly the preimages of a point",
 "For every group element, in whatever representation, the inverse returns precisely the set of non-negative field elements that the Elligator map sends to that element: each returned value maps to it, and none is missing. The four Jacobi quartic points computed for a point, and their duals, all map back to that same group element.",
 ["inputs"], "all group elements in all representations, including the identity class",
 "The existing test checks that a random element's known preimage is found; completeness is not checked, and the identity class (where the formulas degenerate) is not covered.",
 [E+"elligator.go"], [("representatives on the quartic", E+"elligator.go: ToJacobiQuarticRistretto, Dual"), ("inversion with special cases", E+"elligator.go: elligator2Inverse, RistrettoElligator2Inverse")],
 ["ExtendedPoint.RistrettoElligator2Inverse", "ExtendedPoint.ToJacobiQuarticRistretto"])

prop("C11", "Lizard encoding round-trips and rejects everything else",
 "Encoding 16 bytes with Lizard and decoding the point, in any representation of it, returns the same 16 bytes. Decoding succeeds exactly for points that have exactly one preimage of Lizard form (payload in the middle, SHA-256 of the payload around it); every other point yields an error (or nil). The encoded point is the Elligator image of the documented Lizard buffer.",
 ["inputs"], "all 16-byte payloads, all points, including images of buffers that differ from a Lizard buffer in a single check bit",
 "The tests round-trip random payloads and do not decode forged buffers with one wrong check bit, other representatives, or the identity.",
 [R, E+"elligator.go"], [("SHA-256 check bits and mask", R+": SetLizard, LizardInto, Lizard"), ("inverse", E+"elligator.go")],
 ["Point.SetLizard", "Point.Lizard", "Point.LizardInto"])

prop("C12", "Point binary/text serialisation round-trips and rejects junk cleanly",
 "Marshalling a point to binary, text, String(), JSON or gob and unmarshalling it gives an equal point; the text form is the unpadded URL-safe base64 of the encoding, and unmarshalling text also accepts 64 hexadecimal digits. Unmarshalling any byte string either returns an error or sets the element whose canonical encoding it denotes. No input makes unmarshalling panic.",
 ["inputs"], "all points, and all byte strings of any length offered to the binary and text unmarshallers",
 "The tests marshal and unmarshal well-formed values only; malformed, over-long, mixed hex/base64, padded or wrong-alphabet texts are never offered.",
 [R], [("hex or base64 decode + length check", R+": textToBuf, UnmarshalText"), ("length check", R+": UnmarshalBinary"), ("encode", R+": MarshalText, MarshalBinary, String")],
 ["Point.MarshalBinary/UnmarshalBinary/MarshalText/UnmarshalText/String", "encoding/json", "encoding/gob"])

prop("C13", "Field ring arithmetic modulo 2^255-19 is exact for any operands",
 "Field addition, subtraction, negation, multiplication, squaring, doubled squaring and conversion from and to bytes and integers compute the exact result modulo 2^255-19 and encode it canonically in [0, 2^255-19). This holds for operands given in any way - including non-canonical bytes - and for any sequence of these operations applied to each other's results.",
 ["inputs", "histories"], "all field elements, all byte strings (top bit ignored, values >= p included), all operation sequences",
 "The tests multiply/add 1000 uniform elements; limbs at their maximum, results within 19 of p, and chains of unnormalised intermediate values essentially never occur.",
 [E+"field.go", E+"field_radix51.go", E+"field_mul64.go", E+"field_generic.go", E+"field_amd64.go", E+"field_amd64.s"],
 [("lazy carries and final reduction", E+"field_radix51.go: setReduced, sub, Neg; "+E+"field_generic.go: setReduced, BytesInto"), ("wide multiplication", E+"field_mul64.go, field_generic.go, field_amd64.s")],
 ["FieldElement.Add/Sub/Neg/Mul/Square/DoubledSquare/SetBytes/BytesInto/BigInt/SetBigInt"])

prop("C14", "Field inverses, square roots, signs and comparisons are correct",
 "The inverse of a non-zero field element times it is one; the square root of a square is its non-negative root; the inverse square root routines return a value whose square times the argument (or i times the argument, as reported) is one, and report squareness correctly for non-zero arguments. Absolute value, sign, zero-test, one-test and equality agree with the canonical value for every internal representation.",
 ["inputs"], "all field elements in all representations reachable through the API, squares and non-squares, values near 0 and p",
 "The tests sample 1000 uniform elements; the four residue cases are hit, but not in combination with unnormalised or edge representations.",
 [E+"field.go"], [("addition chains", E+"field.go: Inverse, Exp22523"), ("Lagrange roots", E+"field.go: InvSqrt, InvSqrtI, Sqrt"), ("predicates", E+"field.go: Abs, IsNegativeI, IsNonZeroI, IsOneI, EqualsI, Equals")],
 ["FieldElement.Inverse/Sqrt/InvSqrt/InvSqrtI/Exp22523/Abs/Is*/Equals*"])

prop("C15", "All field backends give identical observable results",
 "The 64-bit backend, the portable generic backend and the assembly backend are interchangeable: any program over the public API, given the same inputs, produces byte-identical encodings, decisions and errors whichever backend the package was built with.",
 ["configurations", "programs", "inputs"], "all build configurations, all sequences of public operations, all inputs",
 "Each backend is only tested on its own against sampled values; no test compares backends on the same operation sequence, and the assembly backend is not built at all by current toolchains.",
 [E+"field_radix51.go", E+"field_mul64.go", E+"field_generic.go", E+"field_amd64.go", E+"field_amd64.s", E+"table_radix51.go", E+"table_generic.go"],
 [("build tags select one backend and its constants", E+"field_*.go, table_*.go")],
 ["all exported results"])

prop("C16", "Receivers may alias operands; other operands and shared data stay intact",
 "As with math/big, every operation gives the same result when its receiver is also an operand, or operands coincide, as when all are distinct, and the receiver's previous contents never matter. Operations return their receiver, never change the value of an operand that is not the receiver, of a caller's buffer they only read, or of the library's constants, and returned slices or integers are never shared with later calls.",
 ["inputs", "histories"], "all operations, all aliasing patterns, all operand values, all previous receiver contents (including points left behind by a failed decode)",
 "The tests almost always use fresh receivers; aliasing patterns and operand preservation are not tested.",
 [R, S, E+"curve.go", E+"field.go", E+"table.go", E+"elligator.go", E+"field_generic.go", E+"field_radix51.go", E+"field_mul64.go"],
 [("temporaries before writing the receiver", "all arithmetic methods"), ("constants copied with Set", E+"curve.go: SetBase; "+E+"field.go: SetOne, SetI")],
 ["all methods that take operands"])

prop("C17", "Concurrent use of shared points, scalars and tables is safe",
 "Any number of goroutines may at the same time read the same points, scalars, tables and the base table as operands of any operations (each with its own receivers), without data races, and each gets the same result as when run alone. The same holds for concurrent calls of the C reference, each on operands of its own.",
 ["schedules", "programs"], "all programs of operations over shared read-only operands, all interleavings",
 "No test uses more than one goroutine, and the race detector is not part of the test run.",
 [R, S, E+"curve.go", E+"field.go", E+"field_generic.go", E+"elligator.go", E+"table.go", E+"vartime.go", "cref/cref.c", "cref/cref.go"],
 [("no package-level mutable state; operands are only read", "all methods")],
 ["all methods under the race detector"], [("shared tables and constants", "read-only after initialisation", E+"table_*.go, field_*.go")])

prop("C18", "The C reference implementation agrees with the specification",
 "The C reference computes the same field elements, scalars, group elements, encodings and Elligator images as RFC 9496 and as the Go code, on its whole domain: packing, unpacking (which accepts valid encodings and refuses canonical byte strings that encode no element), addition, doubling, negation, scalar and base multiplication, and its scalar arithmetic; results do not depend on what the result variable held before, group operations may be done in place, and no memory outside the operands is touched.",
 ["inputs"], "all valid encodings, scalars and field elements given to the reference",
 "The reference is only used as an oracle on random inputs; nothing checks it, and most of its functions (scalar arithmetic, base and multi-scalar multiplication) are not run by any test.",
 ["cref/cref.c", "cref/cref.h", "cref/cref.go", "cref/base_multiples.data"], [("PandA-based C code", "cref/cref.c"), ("cgo wrappers", "cref/cref.go")],
 ["cref.GroupGe, cref.GroupScalar, cref.Fe25519 methods", "C functions declared in cref.h"])

prop("C19", "Any history of API calls on points, scalars and tables matches the model",
 "Any sequence of public operations over a set of point, scalar and table variables - including reuse of variables, overwriting inputs, failed decodes, serialisation round trips and protocols such as ElGamal built from them - leaves every variable holding exactly the value the mathematical model of ristretto255 assigns to it.",
 ["histories", "inputs"], "all finite sequences of operations with arbitrary variable choices and arguments",
 "Tests perform one operation (or one fixed flow) on fresh values; long mixed histories with reused variables are not explored.",
 [R, S, E+"curve.go", E+"table.go", E+"vartime.go", E+"elligator.go"], [("every method re-establishes the representation invariant of its receiver", "all methods")],
 ["Point, Scalar, ScalarMultTable"])

prop("C20", "Conditional assignment and 0/1 predicates are exact",
 "Conditionally setting a point, scalar, field element or table entry copies the source exactly when the flag is 1 and leaves the destination exactly as it was when the flag is 0, for all values of both. Predicates that return an integer return exactly 0 or 1, agree with their boolean versions, and are reflexive, symmetric and correct for equal values in different representations.",
 ["inputs"], "all pairs of values, both flags, all representations",
 "Conditional assignment of points and scalars is tested on a few random values; every limb of every type in both directions, and predicates on values differing in a single bit, are not.",
 [R, S, E+"curve.go", E+"field.go", E+"field_radix51.go", E+"field_generic.go", E+"table.go"], [("masked xor per limb", "ConditionalSet methods"), ("or-folding", S+": IsNonZeroI; "+E+"field.go: IsNonZeroI")],
 ["ConditionalSet, EqualsI, Equals, IsNonZeroI, IsOneI, IsNegativeI"])

prop("C21", "Random points and scalars use the system's entropy, or fail loudly",
 "Generating a random scalar or point draws fresh bytes from the system's cryptographic randomness source each time, and its result is a valid, evenly spread value that depends on those bytes. If the source fails at any point, generation never returns a value: it panics or aborts.",
 ["fault_sequences", "inputs"], "all contents and chunkings delivered by the randomness source, and a failure after any number of bytes",
 "The tests call Rand without faults and cannot see a swallowed error, reuse of buffers or a reduced range.",
 [R, S], [("rand.Read with panic on error", R+": Rand; "+S+": Rand")],
 ["Point.Rand", "Scalar.Rand", "crypto/rand.Reader"])

prop("C22", "Operations on secrets take a secret-independent control path",
 "Every operation not documented as variable-time - scalar arithmetic and comparison, constant-time scalar multiplication (direct, by table, base), conditional assignment, point addition, comparison and encoding, decoding of valid encodings, the Elligator map, Lizard decoding - executes the same sequence of code and uses the same array indexes whatever the values of its scalar, point, field element, data or flag operands; only data lengths and the outcome that the operation reports may matter. In particular no branch, loop bound, early exit or table index depends on a secret.",
 ["inputs"], "all pairs of operand values for each operation",
 "Functional tests cannot see which code ran: an early exit or secret-dependent branch leaves all results correct.",
 [R, S, E+"curve.go", E+"table.go", E+"field.go", E+"elligator.go", E+"field_radix51.go", E+"field_generic.go", E+"field_mul64.go"],
 [("masked selection instead of branches", E+"curve.go: ScalarMult; "+E+"table.go: selectPoint; ConditionalSet methods"), ("arithmetic predicates", E+"field.go; "+S)],
 ["basic blocks entered and indexes used, recorded by instrumented copies of the sources", "instruction addresses under single-stepping"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
