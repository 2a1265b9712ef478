#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is editable)."""
import json
P=[]
def prop(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
I="include/bls12-381/"
prop("C01","Base-field arithmetic is exact and canonical on every back end",
 "For all field operands, addition, doubling, subtraction, negation, multiplication and squaring of base-field elements return the mathematically exact residue modulo p, in canonical (fully reduced) form, also when the output aliases an input, and conversion to and from Montgomery form is exact and inverse. "
 "The non-reducing variants return the exact integer result, and multiplication still returns the exact canonical product for operands that went through at most one non-reducing step. "
 "The generic x86-64 multiplier, the BMI2/ADX multiplier and the portable C++ implementation all compute the same function, and no operation touches memory or callee-owned state other than its result.",
 ["inputs","configurations"],"all 2^384-sized limb representations of field elements (and unreduced ones up to the documented bound), all aliasing patterns, all three multiplication back ends",
 "Tests sample a few hundred random operands; carry chains that fail for one operand in 2^64 or more, or only on a back end the machine does not select, are never reached.",
 ["src/arithmetic.cpp","src/arithmetic.s","src/fp.cpp",I+"arithmetic.hpp",I+"fp.hpp"],
 [("limb routines","src/arithmetic.s"),("portable limb routines and CPU dispatch","src/arithmetic.cpp"),("field wrappers","src/fp.cpp")],
 [("limbs","six 64-bit words, value < p in Montgomery form",I+"fp.hpp")],
 ["return value and written limbs of each arithmetic operation"])
prop("C02","Field inversion, exponentiation, square roots and reductions are exact",
 "For every base-field or extension-field element, inversion returns the multiplicative inverse (and zero for zero), exponentiation by any exponent returns that power, and the square-root and residuosity operations succeed exactly on the squares and then return an actual root. "
 "The sign and lexicographic-order predicates agree with their mathematical definition, and reduction of an arbitrary multi-word integer modulo p is exact.",
 ["inputs"],"all field elements of the base field and its quadratic, sextic and degree-12 extensions, all exponents and integers of the supported widths",
 "Loops with data-dependent iteration counts, special elements (zero, minus one, purely imaginary, non-residues) and very long integers are only sampled by random tests.",
 ["src/fp.cpp",I+"fp.hpp"],
 [("binary extended Euclid inversion, exponentiation by squaring, sqrt, modPrime","src/fp.cpp")],
 None,["results of inverse, exp, sqrt, isQuadraticNonResidue, sign, modPrime"])
prop("C03","Extension-field arithmetic obeys the field tower definition",
 "For all operands, addition, subtraction, negation, conjugation, multiplication, squaring, sparse multiplication and multiplication by the tower constants in the degree 2, 6 and 12 extensions return exactly the value defined by u^2=-1, v^3=1+u and w^2=v, in canonical form, with in-place variants agreeing with value-returning ones even when operands alias. "
 "Cyclotomic squaring and cyclotomic exponentiation equal ordinary squaring and exponentiation on every element of the cyclotomic subgroup, and the zero, one and equality predicates are exact.",
 ["inputs"],"all elements of the three extension fields (cyclotomic operations: all elements of the cyclotomic subgroup), all aliasing of operands and result",
 "The tests check ring identities on random elements; an error visible only for particular coefficients, unreduced intermediate values near the overflow bound or aliased operands is missed.",
 ["src/fp.cpp",I+"fp.hpp"],[("Karatsuba-style fp2/fp6/fp12 formulas with lazy reduction","src/fp.cpp")],
 None,["returned and in-place updated extension field elements"])
prop("C04","Frobenius maps equal p-power exponentiation for every power",
 "Applying the Frobenius map with parameter k to an element of the degree 2, 6 or 12 extension yields that element raised to p^k, for every element and every non-negative k, whichever of the value-returning and in-place variants is used. "
 "No value of k makes the operation read outside the coefficient tables.",
 ["inputs"],"all extension-field elements and all 64-bit values of k",
 "The tests call the map for a handful of small powers only, and compare variants on few elements.",
 ["src/fp.cpp",I+"fp.hpp"],[("coefficient tables and per-power cases","src/fp.cpp")],None,["result of frobeniusMap / frobeniusMapAssign"])
prop("C05","Curve group operations implement the complete group law",
 "For all points on the curve, in any projective representation and including the identity, equal and opposite operands, point addition, mixed addition, doubling, negation and subtraction in both groups return a representation of the group-law result. "
 "Equality and identity tests decide equality of the represented points, and conversion to affine form preserves the point and its result is normalised.",
 ["inputs"],"all pairs of points of E(F_p) and E'(F_p^2) in all Jacobian representations",
 "Special-case branches (doubling through addition, P + (-P), identity in either position, non-normalised equal points) are only sampled, and wrong coordinates can still look plausible.",
 ["src/g.cpp",I+"g.hpp"],[("Jacobian formulas and case splits","src/g.cpp")],
 [("x,y,z","Jacobian coordinates; z=0 is the identity",I+"g.hpp")],["resulting points up to projective equivalence"])
prop("C06","Scalar multiplication and weighted sums are exact for every scalar",
 "For every point and every scalar of any supported width, scalar multiplication (including the endomorphism-accelerated variant) returns exactly the integer multiple of the point in both groups. "
 "Multi-point weighted sums return the sum of the individual multiples for every number of points and scalars, and a cooperative yield callback is invoked without affecting any result.",
 ["inputs","histories"],"all points, all scalars (0, 1, >= group order, maximal words included), all vector lengths",
 "Tests use a few random scalars and lengths; window, bucket and decomposition boundaries are functions of scalar size and vector length that are never swept.",
 ["src/g.cpp","src/scalar.cpp",I+"g.hpp",I+"scalar.hpp"],[("double-and-add, GLV decomposition, Pippenger buckets","src/g.cpp"),("GLV and Barrett/division helpers","src/scalar.cpp")],None,["returned points"])
prop("C07","On-curve and prime-order-subgroup checks are exact",
 "The on-curve predicate accepts exactly the points that satisfy the curve equation (and the identity) in every projective representation, for both groups. "
 "The subgroup predicate accepts exactly the curve points whose order divides r, and cofactor clearing maps every curve point to such a point and acts as the prescribed scalar multiple. The validity predicate of the target group accepts exactly the elements whose r-th power is one.",
 ["inputs"],"all triples of coordinates for the curve check; all points of E(F_p) and E'(F_p^2) for the subgroup check and cofactor clearing",
 "The fast endomorphism-based tests must reject every point outside a subgroup of index about 2^125 (or 2^507); random tests check one or two such points.",
 ["src/g.cpp",I+"g.hpp"],[("endomorphism-based subgroup check and cofactor clearing","src/g.cpp")],None,["isOnCurve / inCorrectSubgroup results, clearCofactor output"])
prop("C08","Field-element byte encodings are canonical bijections",
 "Serialising any field element of the base field or an extension in either byte order and parsing it back returns the same element, and the bytes are the fixed-width big- or little-endian representation of its canonical value(s). "
 "Parsing with validation enabled accepts exactly the strings whose every coordinate is below p, and never reads or writes outside the given fixed-size buffers.",
 ["inputs"],"all byte strings of length 48, 96, 288 and 576, both endiannesses, all option combinations",
 "Only a few valid encodings are tested; non-canonical coordinates in each position of the tower, and byte-order or position errors symmetric under round trip, are not.",
 ["src/fp.cpp","src/scalar.cpp",I+"fp.hpp",I+"scalar.hpp"],[("fromBytes/toBytes and range check before Montgomery conversion","src/fp.cpp")],None,["accept/reject decision, decoded element, encoded bytes"])
prop("C09","Point encodings round-trip and are accepted only in canonical form",
 "Encoding any valid point of either group in any of the supported point formats (compressed, affine, Jacobian) and decoding it returns the same point, including the identity in every representation of it. "
 "Decoding with validation enabled accepts only encodings of points on the curve with canonical coordinates and correct flag bits, so every accepted compressed string is the unique encoding of the point it decodes to.",
 ["inputs"],"all byte strings of the fixed point-encoding lengths; all curve points in all projective representations",
 "Malleable encodings (x >= p, stray flag or padding bits, non-normalised identity) are rare adversarial strings that sampled round trips never produce.",
 ["src/g.cpp",I+"g.hpp"],[("toCompressedBytesBE/fromCompressedBytesBE and affine/Jacobian codecs","src/g.cpp")],None,["accept/reject decision, decoded point, encoded bytes"])
prop("C10","Hashing to the curve follows the standard map and lands in the subgroup",
 "For every input the map from field elements to either curve returns a point on the curve in the prime-order subgroup, equal to the standardised simplified-SWU plus isogeny plus cofactor-clearing map, including its exceptional inputs. "
 "Hashing a message with a domain tag is the sum of the maps of two field elements derived by the standard expansion, for every message and tag.",
 ["inputs"],"all field elements (exceptional ones included), all byte strings as message and tag",
 "Exceptional inputs are hit with probability 2^-381, so random vectors cannot distinguish a correct implementation from one that leaves the curve on them.",
 ["src/g.cpp","src/fp.cpp",I+"g.hpp"],[("swuMap, isogenyMap, clearCofactor, fromMessage","src/g.cpp")],None,["points returned by mapToCurve / fromMessage"])
prop("C11","The pairing is the optimal ate pairing, bilinear and multiplicative",
 "For all subgroup points the computed pairing equals a fixed non-degenerate power of the optimal ate pairing, hence is bilinear, and it is one when either argument is the identity. "
 "A multi-pairing over any list of point pairs is the product of the individual pairings, and the callback offered for cooperative scheduling never changes a result.",
 ["inputs","histories"],"all pairs of subgroup points and all lists of pairs, in any order and any projective representation",
 "Tests check bilinearity for one or two scalars and short lists; wrong line coefficients or final-exponent chains may only show on specific inputs or list lengths.",
 ["src/pairing.cpp",I+"pairing.hpp"],[("line functions, Miller loop, final exponentiation","src/pairing.cpp")],None,["value returned by the pairing computation"])
prop("C12","Signing, verification and aggregation decide exactly the pairing equations",
 "Every signature produced by a key verifies under that key's public key and message, for the basic, proof-of-possession and aggregated schemes (message augmentation is done by the caller, by prefixing the message), and aggregation of keys and signatures is the group sum of the inputs whatever their number and order. "
 "Verification returns true exactly when all keys and the signature are valid subgroup points and the scheme's pairing equation holds; lists of different length and, for fast aggregate verification, an empty list of keys are rejected, repeated messages are rejected where asked for, "
 "and aggregate verification of two empty lists accepts exactly the identity signature.",
 ["inputs","histories"],"all keys, messages and signatures, valid or not, and all list lengths and orders",
 "Forgery-type inputs (points outside the subgroup, identity points, swapped or duplicated list entries) cannot be enumerated by examples.",
 ["src/signatures.cpp",I+"signatures.hpp"],[("sign, verify, aggregate, pop","src/signatures.cpp")],None,["boolean verdicts and returned points"])
prop("C13","Hash, HMAC, HKDF and message expansion conform for all lengths and chunkings",
 "SHA-256 returns the standard digest for every message length and every way of splitting the message into updates. "
 "HKDF extract and expand and the domain-separated message expansion return the standard output for every input length they accept, and never write beyond the output buffer or use an uninitialised one.",
 ["inputs","histories"],"all messages, all sequences of update calls, all key, info and output lengths accepted",
 "Padding and block-boundary behaviour depends on length modulo 64 and on how updates are split; tests use a few vectors.",
 ["src/sha256.cpp","src/sha256.hpp","src/signatures.cpp","src/g.cpp"],[("block buffering, padding and compression","src/sha256.cpp"),("HKDF","src/signatures.cpp"),("message expansion","src/g.cpp")],
 [("buffered block and bit length","partial block state between updates","src/sha256.hpp")],["digests and derived bytes"])
prop("C14","Key generation and derivation give valid, consistent keys",
 "Key generation from any seed and every derivation step yields the scalar prescribed by the documented derivation, reduced below the group order. "
 "Deriving a non-hardened child of a private key and taking its public key gives the same public key as deriving the child of the public key, and the public key of an aggregate of private keys is the aggregate of the public keys.",
 ["inputs","histories"],"all seeds (any length), all private keys, all child indices, all lists of keys",
 "Reduction carries in scalar addition occur for special keys only, and consistency must hold for every key and index rather than the listed vectors.",
 ["src/signatures.cpp","src/scalar.cpp",I+"scalar.hpp",I+"signatures.hpp"],[("HKDF mod r, lamport, child derivation, scalar aggregation","src/signatures.cpp"),("multi-word add and division","src/scalar.cpp")],None,["derived scalars and public keys"])
prop("C15","Multi-word integer helpers and text conversions are exact",
 "For operands of every supported width, multi-word addition, multiplication, division, comparison and bit-length helpers return the exact mathematical result, including all carries (the divisor is non-zero; a sum too wide for its result is refused with an exception). "
 "Conversions between integers, byte strings in either order and hexadecimal text are exact inverses on valid input (the fixed-size readers of hexadecimal text need a text of at least the stated number of digits), and no other input makes them access memory outside their arguments.",
 ["inputs"],"all operand values and instantiated widths; all byte and hexadecimal strings",
 "Carry and quotient-estimate corner cases have probability 2^-64 per word and need operands chosen for them; empty and odd-length strings are not tested.",
 ["src/scalar.cpp",I+"scalar.hpp","src/arithmetic.cpp"],[("add, mul, bn_divn, cmp, bitLength, hex and byte conversion","src/scalar.cpp and "+I+"scalar.hpp")],None,["returned integers, bytes and strings"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
