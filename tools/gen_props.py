#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text stays readable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
SI = "secret-integers/src/lib.rs"
MI = "hacspec/src/machine_integers.rs"
TR = "hacspec/src/traits.rs"
MU = "hacspec/src/math_util.rs"
AR = "hacspec/src/array.rs"
SQ = "hacspec/src/seq.rs"
VI = "hacspec/src/vec_integers.rs"
SE = "spec-examples/src/"
IN = ["inputs"]

p("S01", "Secret integers compute exact wrapping, bitwise, shift and rotate results",
  "For every secret integer type and every pair of operand values, addition, subtraction, multiplication and (unsigned) negation give the two's-complement result modulo 2^width, and the bitwise operators, complement, shifts by less than the width and rotations give exactly the result of the corresponding public machine integer operation. The assigning forms (+=, ^=, <<= ...) leave the same value as the plain operators.",
  IN, "all operand values of all ten secret integer widths, all shift/rotate amounts below the width",
  "the secret integer tests add a handful of constants; the operand space is up to 2^256 pairs per operation",
  [SI], [("define_wrapping_op / define_bitwise_op / define_shift macros", SI), ("Neg for unsigned", SI)])
p("S02", "Constant-time comparison masks of secret unsigned integers are exact",
  "For all unsigned secret operands of equal width, each comparison (equal, not equal, >=, >, <=, <) yields a mask that is all ones when the relation holds between the declassified values and all zeroes otherwise; no other mask value is ever produced.",
  IN, "all operand pairs of U8, U16, U32, U64, U128, all six comparisons, through the secret integer interface and the numeric trait's bit-mask functions",
  "the ct tests try a few pairs; the borrow-propagation formula for >= can be wrong only at the extremes (high bits set, equal values, zero)",
  [SI, MI], [("comp_eq/comp_ne/comp_gte/comp_gt/comp_lte/comp_lt", SI), ("*_bm", MI)])
p("S03", "Checked secret arithmetic is exact or panics",
  "For every secret integer type and operands, the checked addition, subtraction and multiplication return the exact mathematical result when it is representable in the type, and panic otherwise; they never return a wrapped value.",
  IN, "all operand pairs of all ten secret integer types",
  "no test exercises the overflow branch of the checked operations; it depends on every operand pair at the representability boundary",
  [SI], [("checked_add / checked_sub / checked_mul", SI)])
p("S04", "Secret integer byte serialisation is little/big-endian and invertible",
  "For every slice of secret integers, conversion to little-endian (big-endian) bytes lists every integer's bytes least (most) significant first, in order, and conversion from bytes is its exact inverse. Byte slices whose length is not a multiple of the integer width are rejected with a panic.",
  IN, "all integer values and all slice lengths, for the ten secret integer types and both byte orders",
  "the conversion tests round-trip a few constants of some widths",
  [SI], [("from_le_bytes / to_le_bytes / from_be_bytes / to_be_bytes", SI)])
p("S05", "Width casts of secret integers keep the value modulo 2^width",
  "Classifying then declassifying is the identity, and every conversion between secret integer types, between secret and public integers, and from usize to secret integers yields the source value reduced modulo 2^(target width), with sign extension from signed sources and zero extension from unsigned ones.",
  IN, "all values of every source type for every conversion provided",
  "around seventy conversions exist, tests touch a few of them with small constants",
  [SI], [("define_*_casting macros", SI), ("classify / declassify", SI)])

p("H01", "Bit access and rotation act on exactly the named bit",
  "For every machine integer type, public or secret, reading bit i gives 0 or 1 according to that bit of the two's-complement representation, setting bit i to a bit b changes that bit to b and no other, and copying a bit from another integer does the same with that integer's bit. The generic rotations by n < width rotate the two's-complement pattern left or right by n, reading byte i of an unsigned secret integer gives that byte, and construction from a literal reduces it modulo 2^width.",
  IN, "all values, all bit positions below the width, all types implementing the integer trait (get_bit on negative signed values included)",
  "tests use a few literals; errors show only at the sign bit, bit 0 or the top byte",
  [TR, MI], [("Integer::get_bit/set_bit/set/rotate_left/rotate_right", TR), ("UnsignedSecretInteger::get_byte", TR), ("from_literal", MI)])
p("H02", "Comparison functions and masks of the numeric trait agree with integer order",
  "For all machine integers, public or secret, the boolean comparisons of the numeric trait agree with the order of the (declassified) values. For public machine integers, signed or unsigned, each bit-mask comparison gives the value with all bits set when the relation holds and zero otherwise.",
  IN, "all operand pairs of all integer types",
  "only a handful of pairs are compared in tests",
  [MI], [("equal / greater_than / ... / *_bm", MI)])
p("H03", "Modular arithmetic on machine integers is exact or panics",
  "For public and secret machine integers and a positive modulus n, modulo, addition, subtraction and multiplication modulo n return the least non-negative residue of the exact mathematical result, or panic when an intermediate overflows the type; they never return a wrong residue. For non-negative operands inversion modulo n > 1 of a value coprime to n returns the unique inverse in [1, n), and a non-zero value that shares a factor with n panics.",
  IN, "all operands and moduli of all widths; overflow is checked as in the repository's own (debug) builds",
  "tests sample a few small moduli; wrong results appear for operands above the modulus, moduli above half the range, or quotients that overflow",
  [MI, MU], [("ModNumeric impls", MI), ("extended_euclid_invert, signed_mod", MU)])
p("H04", "Constant-time select, swap and division compute the plain result",
  "Conditional swap, set-bit, add, subtract and multiply with an all-ones (all-zeroes) condition return exactly the result of performing (not performing) the plain wrapping operation, the single-bit swap does so for condition 1 (0). For unsigned operands and a non-zero divisor d, constant-time division of a by d returns the quotient and remainder of a / d.",
  IN, "all operands of all unsigned integer widths (signed ones for the conditional operations), both conditions, all divisors not zero",
  "ct_div runs one loop per bit over all operands; the tests divide eleven pairs; errors hide in divisors with the top bit set",
  [MU], [("cswap_bit/cswap/cset_bit/cadd/csub/cmul/ct_div", MU)])
p("H05", "Slice and update operations copy exactly the named range",
  "For sequences and fixed-length arrays of any contents, taking a sub-range yields exactly those elements in order, updating a range replaces exactly that range by the given elements and leaves every other element and the length unchanged, and new sequences hold only default values. A range outside the source or destination panics and never reads or writes other elements.",
  IN, "all lengths, start offsets, range lengths and contents",
  "tests copy one or two fixed ranges; the framing claim is about every element and every offset",
  [TR, SQ, AR], [("SeqTrait::update_sub/update/update_start", TR), ("from_sub/from_sub_range/sub/subr/from_seq/from_slice/from_vec", SQ), ("_array_base!", AR)])
p("H06", "Chunking tiles the sequence exactly",
  "For every sequence length and positive chunk size, the number of chunks is the length divided by the chunk size rounded up, chunk i consists of elements i*size up to the smaller of (i+1)*size and the length, and the reported chunk length is its length, so that all chunks concatenated give the sequence back. Replacing chunk i changes exactly those elements, and a replacement of another length panics.",
  IN, "all lengths, chunk sizes and chunk numbers below the number of chunks, for sequences and fixed-length arrays",
  "tests use fixed lengths; the last, partial chunk is where off-by-one errors sit",
  [SQ, AR], [("num_chunks/get_chunk/set_chunk/get_chunk_len", SQ), ("num_chunks/get_chunk/set_chunk/get_chunk_len", AR)])
p("H07", "Word, byte array and byte sequence conversions keep order and endianness",
  "Converting a word to a byte array or sequence and back in the same byte order is the identity, and byte j of the little-endian (big-endian) form is the word shifted right by 8*j (8*(width/8-1-j)) modulo 256. Converting an array of words to bytes, and a byte array to a sequence of 32-, 64- or 128-bit words, does this word by word in order.",
  IN, "all word values and array contents, secret and public, 16 to 128 bits",
  "tests use a few constants and array lengths",
  ["hacspec/src/transmute.rs", AR, TR], [("U*_to_*_bytes / u*_from_*_bytes", "hacspec/src/transmute.rs"), ("to_be_U32s ... to_U128s_le, to_be_bytes, to_le_bytes", AR), ("UnsignedSecretInteger / UnsignedPublicInteger", TR)])
p("H08", "Vector arithmetic acts element by element",
  "For two equally long secret or public fixed-length arrays of unsigned machine integers, or public sequences of any public integers, +, -, * and ^ yield a result of the same length whose element i is the wrapping (for ^: exact) result of the operator on the two elements i. The pointwise modular addition, subtraction and multiplication of two sequences reduce each element's result modulo n. Operands of different length panic.",
  IN, "all contents, all array lengths, public and secret element types",
  "tests add one pair of arrays; nothing tests public sequences or the modular forms",
  [VI], [("_implement_numeric_* macros and Seq operator impls", VI)])
p("H09", "Hexadecimal parsing and printing are inverse",
  "For every byte sequence or byte array, printing as hexadecimal gives two lower-case digits per byte in order, and parsing that (or its upper-case form) gives the bytes back; strings of odd length or with any character that is not a hexadecimal digit are rejected with a panic.",
  IN, "all byte strings of all lengths",
  "tests parse fixed test vectors; no test prints and re-parses",
  [SQ, AR, "hacspec/src/util.rs"], [("from_hex / from_string / to_hex", SQ), ("from_hex / to_hex", AR), ("hex_string_to_bytes", "hacspec/src/util.rs")])
p("A01", "Bounded integers never leave their range and compute exactly",
  "A bounded integer type accepts exactly the integers between its lower and upper bound and panics on any other; addition, subtraction, multiplication, division and remainder return the exact integer result when it is in range and panic otherwise. Comparisons, conversions to and from big-endian and little-endian byte strings, and conversions from machine literals (negative ones for signed types included) preserve the integer value. An even number of hexadecimal digits, in either letter case, is read as the number it writes; other text panics.",
  IN, "all operand values of unsigned and signed bounded types of any declared size",
  "the tests build one type per flavour and compute one expression; overflow of the range and the two bounds themselves are not exercised",
  ["abstract-integers/src/abstract_int.rs"], [("define_abstract_integer_checked and its arithmetic macros", "abstract-integers/src/abstract_int.rs")])
p("A02", "Modular integer types are the ring of integers modulo n",
  "Every value of a modular integer type is represented canonically in [0, n) after every operation; +, -, *, powers with non-negative exponents, literals of absolute value at most n (negative ones included) and byte-string conversions agree with arithmetic modulo n; larger literals and byte strings wider than the declared width panic. For prime n, the inverse satisfies x * x^-1 = 1 for all non-zero x, and the comparison order is that of the canonical representatives.",
  IN, "all operands for any modulus that can be declared, secret and public flavours",
  "tests compute a few sums and one power for two moduli; canonicity has to hold for every operation sequence",
  ["abstract-integers/src/nat_mod.rs"], [("nat_mod!/public_nat_mod! operator impls, pow, inv, from_literal, to/from_byte_seq", "abstract-integers/src/nat_mod.rs")])
p("P01", "Polynomial arithmetic over Z_n is exact",
  "For polynomials with coefficients in [0, n), addition, subtraction and multiplication modulo n return the coefficients of the exact polynomial result reduced into [0, n). For a divisor whose leading coefficient is invertible modulo n, division returns quotient q and remainder r with a = q*b + r and deg r < deg b, and an inverse returned for a modulo an irreducible polynomial satisfies a * inv = 1. The fixed-length types declared with poly! compute accordingly in Z_n[x] modulo the declared polynomial, and reject a coefficient vector with a non-zero coefficient beyond their length.",
  IN, "all coefficient vectors and lengths, public and secret coefficients, moduli whose products fit the type",
  "the polynomial tests use fixed small polynomials over one modulus",
  ["hacspec/src/poly.rs"], [("poly_add/poly_sub/poly_mul/poly_div/extended_euclid/...", "hacspec/src/poly.rs")])

RFC = "the published test vectors fix a handful of lengths and contents"
p("C01", "SHA-256 agrees with FIPS 180-4 on every message",
  "For every byte message the hash function returns the SHA-256 digest defined by FIPS 180-4, including padding for every message length (empty, block-aligned and every partial block).",
  IN, "all messages of every length below 2^61 bytes",
  RFC + " (none at the padding boundaries); the padding logic branches on length modulo 64",
  [SE + "sha2/sha2.rs"], [("hash, compress, schedule, shuffle, sigma, ch, maj", SE + "sha2/sha2.rs")])
p("C02", "HMAC-SHA-256 agrees with RFC 2104 on every key and message",
  "For every key (shorter than, equal to or longer than one hash block) and every message the result is the RFC 2104 HMAC with SHA-256.",
  IN, "all key lengths and contents, all message lengths and contents", RFC + "; key lengths 63, 64 and 65 are not covered",
  [SE + "hmac/hmac.rs"], [("hmac", SE + "hmac/hmac.rs")])
p("C03", "HKDF-SHA-256 agrees with RFC 5869 for every permitted length",
  "Extract and expand return the RFC 5869 values for every salt (an empty salt meaning a string of hash-length zeroes), input key material, info and every output length from 0 up to 255 hash lengths; longer requests are rejected with a panic.",
  IN, "all salts, keys, infos and output lengths", RFC + "; the length boundary and lengths that are multiples of 32 are not covered",
  [SE + "hkdf/hkdf.rs"], [("extract, expand, build_hmac_txt, div_ceil", SE + "hkdf/hkdf.rs")])
p("C04", "ChaCha20 agrees with RFC 8439 and is its own inverse",
  "For every key, nonce, counter and message the block function and the stream cipher (initial counter 1) return the RFC 8439 values, output has the message's length, and applying the cipher twice gives the message back.",
  IN, "all keys, nonces, counters (wrapping at 2^32) and message lengths", RFC + "; partial last blocks and counter wrap are hardly covered",
  [SE + "chacha20_poly1305/chacha20.rs"], [("line, quarter_round, double_round, block_init, block_inner, block, chacha", SE + "chacha20_poly1305/chacha20.rs")])
p("C05", "Poly1305 agrees with RFC 8439 on every key and message",
  "For every 32-byte one-time key and every message, of any length including empty, the tag is the RFC 8439 Poly1305 value: the clamped-key polynomial modulo 2^130-5 plus the second key half, modulo 2^128.",
  IN, "all keys and messages", RFC + "; the carries out of 2^130-5 and 2^128 need special keys",
  [SE + "chacha20_poly1305/poly1305.rs"], [("encode_r, encode, poly_inner, poly", SE + "chacha20_poly1305/poly1305.rs")])
p("C06", "ChaCha20-Poly1305 agrees with RFC 8439, inverts, and rejects forgeries",
  "Encryption returns the RFC 8439 ciphertext and tag for every key, nonce, associated data and message. Decryption returns the message exactly when the tag is the RFC 8439 tag of the given associated data and ciphertext, and otherwise returns an error and no plaintext.",
  IN, "all keys, nonces, associated data, messages and tags of all lengths", RFC + "; no test modifies a tag, ciphertext or associated data",
  [SE + "chacha20_poly1305/chacha20poly1305.rs"], [("pad_aad_msg, encrypt, decrypt", SE + "chacha20_poly1305/chacha20poly1305.rs")])
p("C07", "AES-128 and AES-256 agree with FIPS 197 and CTR mode inverts",
  "For every key and block the AES-128 and AES-256 encryptions return the FIPS 197 ciphertext, and counter mode over any message length xors the message with the encrypted 32-bit big-endian counters following the given nonce (wrapping modulo 2^32), so that decrypting an encryption gives the message back.",
  IN, "all keys, blocks, nonces, counters and message lengths", RFC,
  [SE + "aes_gcm/aes.rs"], [("key_expansion, block_cipher, aes_encrypt_block, aes_counter_mode ...", SE + "aes_gcm/aes.rs")])
p("C08", "GHASH agrees with NIST SP 800-38D",
  "For every 16-byte hash key and every byte string (zero-padded to whole blocks), the universal hash returned is the SP 800-38D GHASH of the string, i.e. Horner evaluation in GF(2^128) with the polynomial x^128+x^7+x^2+x+1 and GCM's bit order.",
  IN, "all keys and messages", "one test vector exists",
  [SE + "aes_gcm/gf128.rs"], [("fmul, poly, gmac", SE + "aes_gcm/gf128.rs")])
p("C09", "AES-GCM agrees with NIST SP 800-38D, inverts, and rejects forgeries",
  "For AES-128 and AES-256, every key, 96-bit nonce, associated data and message, encryption returns the SP 800-38D ciphertext and 128-bit tag. Decryption returns the message exactly when the tag is the one encryption would compute for that ciphertext and associated data, and otherwise an error and no plaintext.",
  IN, "all keys, nonces, associated data, messages and tags of all lengths", RFC + "; no test submits a forged tag",
  [SE + "aes_gcm/aesgcm.rs"], [("pad_aad_msg, encrypt_aes, decrypt_aes", SE + "aes_gcm/aesgcm.rs")])
p("C10", "SHA-3 and SHAKE agree with FIPS 202 on every message and output length",
  "For every message the four SHA-3 functions and the two SHAKE functions (for every requested output length) return the FIPS 202 value.",
  IN, "all message lengths and contents, all output lengths", RFC + "; messages at rate boundaries and long SHAKE outputs are sampled only",
  [SE + "fips202/fips202.rs"], [("theta, rho, pi, chi, iota, keccakf1600, absorb_block, squeeze, keccak", SE + "fips202/fips202.rs")])
p("C11", "BLAKE2b agrees with RFC 7693 on every message",
  "For every message the 64-byte BLAKE2b digest returned is the RFC 7693 unkeyed BLAKE2b-512 value, for every length including zero and whole multiples of the block size, and the internal 128-bit byte counter never loses a carry.",
  IN, "all message lengths and contents, all counter values", RFC + "; block-aligned lengths and the counter carry are not covered",
  [SE + "blake2/blake2b.rs"], [("mix, inc_counter, compress, get_byte, blake2b", SE + "blake2/blake2b.rs")])
p("C12", "X25519 agrees with RFC 7748 on every input",
  "For every 32-byte scalar and u-coordinate (non-canonical ones and ones with the top bit set included) scalar multiplication returns the RFC 7748 X25519 output, and the public key of a secret is X25519 with base point 9.",
  IN, "all scalars and coordinates", "two RFC vectors and one exchange are tested; special points and non-canonical encodings are not",
  [SE + "curve25519/curve25519.rs"], [("mask_scalar, decode_scalar, decode_point, encode_point, point_add_and_double, montgomery_ladder, scalarmult", SE + "curve25519/curve25519.rs")])
p("C13", "P-256 scalar multiplication agrees with the group law",
  "For every scalar k in [1, n-1], n being the group order, base-point multiplication returns the affine point k*G of NIST P-256; in particular the result is on the curve and differs from the result for every other scalar in that range.",
  IN, "all scalars from 1 to the group order minus 1", "a few known-answer scalars are tested",
  [SE + "p256/p256.rs"], [("jacobian_to_affine, point_double, point_add, montgomery_ladder, point_mul", SE + "p256/p256.rs")])

p("N01", "Secret integers offer no secret-dependent branching or indexing",
  "Code written only against the secret integer interface without declassification cannot branch on, index with, divide by or compare secret values, so its sequence of operations is independent of secret data.",
  ["programs", "inputs"], "all programs using the secret integer types",
  "a property of which trait implementations do not exist, and of pairs of executions",
  [SI], [("absence of Div/PartialEq/Index implementations", SI)])
p("N02", "Random sequences and arrays are of the requested length and unpredictable",
  "The random constructors return values of the requested length drawn uniformly from the operating system seeded generator.",
  ["inputs"], "all lengths",
  "distributional property",
  [SQ, AR], [("random / get_random_vec", SQ)])
p("N03", "Test vector files are loaded faithfully",
  "Reading a JSON test-vector file yields every vector with the field values given in the file, and a malformed file is reported by a panic.",
  ["inputs"], "all files", "a single file is read in the tests",
  ["hacspec-dev/src/test_vectors.rs"], [("TestVector::from_file", "hacspec-dev/src/test_vectors.rs")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
