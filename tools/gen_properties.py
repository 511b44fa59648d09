#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once when a statement changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

I = "include/"
p("C01", "Every signature produced for a key pair verifies under that key pair",
  "For every key pair the library generates, for Falcon-512 and Falcon-1024, and every message of any length (including empty), signing succeeds and the signature verifies under the matching public key. This holds for both the one-shot signing call on the encoded secret key and the prepared-key signing call, and for any order and interleaving of keys, parameter sets, messages and reused buffers within a process.",
  ["inputs", "histories", "configurations"],
  "all key pairs x all messages (all lengths) x both signing interfaces x all call sequences",
  "The repository's sign/verify test (not even buildable here: its SHA-3 submodule is empty) signs 1024 random messages under one key pair per parameter set, in a fixed order; it cannot cover all keys, rare signature shapes (a coefficient >= 1024, an exactly full encoding) or sequences that reuse buffers and mix keys.",
  [I+"falcon.hpp", I+"signing.hpp", I+"verification.hpp", I+"keygen.hpp", I+"encoding.hpp", I+"decoding.hpp"],
  [("sign loop: resample until short and compressible", I+"signing.hpp sign()"), ("verify", I+"verification.hpp verify()")],
  ["return value of sign", "return value of verify"])
p("C02", "Verification accepts exactly well-formed, short signatures",
  "Verification returns true if and only if the public key and signature decode and the vector (c - s2*h mod q, s2), with every coefficient taken in [-(q-1)/2, (q-1)/2] and c the hash of salt and message, has squared Euclidean norm at most 34034726 (Falcon-512) or 70265242 (Falcon-1024). The decision is exact for every public key, message and signature an adversary can supply, including norms on and next to the bound and arbitrarily large norms.",
  ["inputs"],
  "all (public key, message, signature) byte strings of the right length, adversarially chosen",
  "The tests only ever call verify on honest signatures and expect true; no test expects a rejection, so any accept-too-much defect (wrap-around of the norm, off-by-one at the bound, wrong centring) passes them.",
  [I+"verification.hpp", I+"falcon.hpp", I+"decoding.hpp", I+"hashing.hpp"],
  [("s1 = c - s2*h in the NTT domain, centring, norm test", I+"verification.hpp verify()")],
  ["return value of verify on crafted inputs"])
p("C03", "A signature is bound to its key, its message and its own bytes",
  "Changing any bit or byte of the message (including appending or removing bytes), or of any byte of the signature (header, salt, body or padding) makes a valid signature fail to verify, and so does changing the public key unless the signature happens to be short under the changed key too (only a change of one coefficient by a unit or two can do that). A signature never verifies under an independently generated key or with the other parameter set.",
  ["inputs"],
  "all honest (key, message, signature) triples x all single-position modifications, truncations, extensions and swaps",
  "No test verifies a modified message, signature or key at all.",
  [I+"verification.hpp", I+"decoding.hpp", I+"hashing.hpp", I+"falcon.hpp"],
  [("hash of salt||message; strict decoding", I+"hashing.hpp, "+I+"decoding.hpp")],
  ["return value of verify after a modification"])
p("C04", "Signature compression is lossless, canonical and fails only when too long",
  "Compressing an integer polynomial succeeds exactly when its encoding (sign bit, 7 low bits most significant first, unary high part ended by a one, per coefficient, zero padded) fits in the signature body of 625 (Falcon-512) or 1239 (Falcon-1024) bytes, and then decompression returns exactly that polynomial. Decompression accepts a body exactly when it is such an encoding of some polynomial - so minus zero, non-zero padding, and truncated or surplus data are rejected and no polynomial has two accepted encodings - and a refused body yields the all-zero polynomial.",
  ["inputs"],
  "all integer polynomials (including large coefficients and exact fits) and all byte strings of signature length",
  "The tests compress one honest signature and try one random byte string per parameter set; coefficients needing eight or more unary bits, exact fits, and near-valid malformed bodies are never reached.",
  [I+"encoding.hpp", I+"decoding.hpp"],
  [("compress", I+"encoding.hpp compress_sig()"), ("decompress", I+"decoding.hpp decompress_sig()")],
  ["output bytes, output polynomial and return value"])
p("C05", "Public key encoding is a bijection onto the accepted byte strings",
  "Encoding a public key polynomial over Z_q writes the parameter-set header and each coefficient in 14 bits, least significant bit first, and decoding returns the same polynomial. Decoding accepts a byte string exactly when its header is right and every 14-bit value is below q = 12289; otherwise it returns false and an all-zero polynomial. Encoded keys have 897 or 1793 bytes, which is what the length function says.",
  ["inputs"], "all polynomials over Z_q and all byte strings of public-key length, both parameter sets",
  "The test round-trips one random polynomial per parameter set through matching encoder and decoder; it never pins the byte layout nor decodes a malformed key.",
  [I+"encoding.hpp", I+"decoding.hpp", I+"utils.hpp"],
  [("encode", I+"encoding.hpp encode_pkey()"), ("decode", I+"decoding.hpp decode_pkey()")],
  ["bytes written, polynomial read, return value"])
p("C06", "Secret key encoding round-trips every valid key",
  "For all f, g with coefficients in [-31, 31] (Falcon-512) or [-15, 15] (Falcon-1024) and F with coefficients in [-127, 127], encoding writes a header and fixed-width two's complement fields (6, 5 and 8 bits, least significant bit first, f then g then F) and decoding returns exactly the same three polynomials. A byte string with any other header is refused with all-zero polynomials. Encoded keys have 1281 or 2305 bytes, which is what the length function says.",
  ["inputs"], "all triples (f, g, F) in range, all headers, both parameter sets",
  "The test round-trips one generated key per parameter set, so coefficient values and positions that Gaussian keys rarely contain (range ends) are not exercised and the byte layout is not pinned.",
  [I+"encoding.hpp", I+"decoding.hpp", I+"utils.hpp"],
  [("encode", I+"encoding.hpp encode_skey()"), ("decode", I+"decoding.hpp decode_skey()")],
  ["bytes written, polynomials read, return value"])
p("C07", "Key generation yields a valid, encodable, consistent key pair",
  "Every generated secret (f, g, F, G) satisfies f*G - g*F = q exactly modulo x^N+1, has f invertible modulo q, Gram-Schmidt norm at most 1.17*sqrt(q), f, g within +-31 (N=512) or +-15 (N=1024) and F within +-127 so that the encoded secret key decodes to the same key. The encoded public key h of the same pair satisfies h*f = g mod q, and this holds for whatever random bytes the generator draws.",
  ["inputs", "configurations"], "all random tapes of the key generator, natural and hostile, both parameter sets",
  "The tests generate a handful of keys with fresh randomness and check the NTRU equation in floating point; a key with an unencodable coefficient appears about once in a thousand generations and is not looked for.",
  [I+"ntru_gen.hpp", I+"keygen.hpp", I+"falcon.hpp", I+"encoding.hpp"],
  [("rejection loop", I+"ntru_gen.hpp ntru_gen()"), ("h = g/f", I+"keygen.hpp compute_public_key()")],
  ["f, g, F, G; encoded keys"])
p("C08", "The NTRU equation solver is exact and fails only when no solution exists",
  "For integer polynomials f, g modulo x^N+1 the solver either returns integer polynomials F, G with f*G - g*F = q exactly, or reports failure, and it reports failure exactly when the resultants of f and g with x^N+1 have a common factor. Reducing (F, G) by (f, g) never changes the value of f*G - g*F; when f and g have coefficients of key-generation size it leaves (F, G) with no multiple of (f, g) above one half, so a solution for a Gaussian key-generation input comes out short.",
  ["inputs"], "all pairs f, g of every degree 1..1024, with dense coefficients from key-generation size up, and any pair without solution (reduction: (F, G) within a short vector of a multiple of (f, g), as the tower produces them)",
  "The tests reach the solver only through whole key generations with random Gaussian inputs and check the result with floating point FFT; the failure branch and smaller degrees are unobserved.",
  [I+"ntru_gen.hpp", I+"karatsuba.hpp"],
  [("tower of rings descent", I+"ntru_gen.hpp ntru_solve(), field_norm(), lift(), galois_conjugate()"), ("Babai reduction", I+"ntru_gen.hpp reduce()"), ("integer xgcd", I+"ntru_gen.hpp xgcd()")],
  ["returned F, G and status"])
p("C09", "Big-integer polynomial multiplication is exact",
  "The product of two big-integer polynomials equals the schoolbook product, and the reduced product equals the schoolbook product modulo x^N+1, for every power-of-two length from 1 and coefficients of any sign and size (including zero and mixed magnitudes). The operands are left unchanged.",
  ["inputs"], "all lengths 2^i (1..1024), all integer coefficients",
  "karatsuba.hpp has no test that can run here; even upstream it is exercised only inside whole key generations.",
  [I+"karatsuba.hpp"], [("recursive 3-multiplication split", I+"karatsuba.hpp karatsuba()"), ("reduction", I+"karatsuba.hpp karamul()")],
  ["returned coefficients"])
p("C10", "Key expansion rebuilds the signing basis and sampling tree of the key",
  "From the decoded f, g, F of any valid key, recomputation returns exactly the G of key generation, the matrix is the FFT of [[g, -f], [G, -F]], and the tree is the normalised LDL* tree of its Gram matrix: unit-triangular factors and leaves reproduce the Gram matrix, and every leaf (a standard deviation) lies in [sigma_min, sigma_max]. The tree built during key generation and the tree rebuilt from the encoded secret key are the same to floating point accuracy.",
  ["inputs", "configurations"], "all valid keys of both parameter sets",
  "One test recomputes G for one key per parameter set; no test looks at the matrix, the Gram matrix, the tree or its leaves, and signatures still verify with a wrong tree.",
  [I+"falcon.hpp", I+"falcon_tree.hpp", I+"keygen.hpp"],
  [("recompute G", I+"falcon.hpp recompute_G()"), ("LDL tree", I+"falcon_tree.hpp ldl(), ffldl(), normalize_tree()"), ("Gram matrix", I+"keygen.hpp compute_gram_matrix()")],
  ["G, B, T arrays"])
p("C11", "Lattice sampling is exact, and its distribution leaks nothing about the key",
  "For every valid key and every target, fast Fourier sampling returns integer polynomials z, so the signature vector s satisfies s1 + s2*h = c mod q exactly. Every one of its 2N sampling steps follows the discrete Gaussian centred on the projected target with the standard deviation of that tree leaf, so that s is distributed as a spherical Gaussian of standard deviation 165.7 (N=512) or 168.4 (N=1024), whatever the key.",
  ["inputs", "histories"], "all keys, targets and random tapes; the distribution over many signatures",
  "One test checks the congruence for one target; a sampler with a wrong tree branch, leaf or centre still yields verifying signatures while leaking the secret key, which no unit test observes.",
  [I+"ffsampling.hpp", I+"falcon_tree.hpp", I+"samplerz.hpp", I+"signing.hpp"],
  [("recursive nearest-plane with randomised rounding", I+"ffsampling.hpp ff_sampling()")],
  ["z0, z1 arrays replayed through an independent tree"])
p("C12", "The integer sampler follows the discrete Gaussian for every centre and width",
  "For every real centre of magnitude below 2^30 and every standard deviation in [sigma_min, sigma_max], the integer sampler returns z with probability proportional to exp(-(z-mu)^2/(2 sigma^2)), independently of earlier draws. The base sampler it uses follows the specification's 72-bit table exactly for every 9-byte input, and the version that takes explicit random bytes returns the specification's value and consumes the specification's number of bytes for every sufficiently long byte string.",
  ["inputs", "histories"], "all centres, widths and random tapes",
  "The known-answer tests cannot be built here and pin one tape per recorded (mu, sigma) pair; they do not touch the generator-driven version that signing uses, nor any distribution.",
  [I+"samplerz.hpp", I+"u72.hpp"],
  [("rejection from half-Gaussian base sampler", I+"samplerz.hpp samplerz(), base_sampler()"), ("RCDT", I+"samplerz.hpp PDT/CDT/RCDT")],
  ["returned integers"])
p("C13", "Rejection probabilities are computed to full precision over the whole range",
  "The integer approximation of 2^63*ccs*exp(-x) is within a relative error of 2^-40 of the true value for all x in [0, ln 2] and ccs in [0.5, 1], and the Bernoulli trial accepts with probability ccs*exp(-x), to within 2^-40 relative plus 2^-60, for every x in [0, 2^32] and every random tape. Near-multiples of ln 2 and large x are no exception. The product of 64-bit integers it is built on is exact to all 128 bits.",
  ["inputs"], "all doubles x in [0, 2^32], ccs in [0.5, 1], all random tapes",
  "Only indirectly touched by the known-answer tests of the sampler (not buildable here), at a few hundred points.",
  [I+"samplerz.hpp"],
  [("fixed-point polynomial", I+"samplerz.hpp approx_exp(), full_mul_u64(), top_63_bits()"), ("lazy Bernoulli comparison", I+"samplerz.hpp ber_exp()")],
  ["returned value, accept bit, bytes consumed"])
p("C14", "Hash-to-point is the specified function of salt and message",
  "For every 40-byte salt and every message, hashing reads SHAKE256(salt || message) as consecutive big-endian 16-bit words, keeps exactly those below 61445 in order, each reduced modulo 12289, and returns the first N of them. It is a pure function: equal inputs always give equal polynomials and only the bytes given are read.",
  ["inputs"], "all salts, all messages of all lengths, both parameter sets",
  "hashing.hpp has no test at all; signing and verification share it, so any consistent deviation (a dropped message byte, a biased reduction) still round-trips.",
  [I+"hashing.hpp"], [("absorb, squeeze, rejection", I+"hashing.hpp hash_to_point()")], ["polynomial c"])
p("C15", "The random generator is fully seeded from system entropy or not at all",
  "Each generator draws at least 256 bits from the system entropy source, its output stream depends on all of them, and generators seeded independently give independent, uniformly distributed streams. The stream does not depend on how it is cut into reads, and if the entropy source fails, the failure propagates and no key, signature or random byte is produced.",
  ["inputs", "fault_sequences", "histories"], "all entropy values, all failure points of the entropy source, all read sequences",
  "The tests use the generator only as a convenience; none of them controls or counts the entropy it draws or makes the source fail.",
  [I+"prng.hpp"], [("seeding and squeezing", I+"prng.hpp prng_t")], ["entropy words requested, bytes returned, exceptions"])
p("C16", "Every signature carries a fresh random salt, and it is the salt that was hashed",
  "Each signing call draws a new 40-byte salt from its random generator, stores exactly that salt in bytes 1..40 of the signature and hashes exactly that salt with the message; salts never repeat across calls, keys, messages, interfaces or threads and every salt byte is uniformly distributed. Signing the same message twice with the same key therefore gives two different signatures.",
  ["inputs", "histories"], "all sequences of signing calls",
  "No test compares two signatures or looks at a salt; a constant or partially random salt passes every test but breaks the scheme's security argument.",
  [I+"signing.hpp", I+"prng.hpp"], [("salt sampling and placement", I+"signing.hpp sign()")], ["bytes 1..40 of each signature against the generator's output"])
p("C17", "Arithmetic modulo 12289 is exact for every operand",
  "Addition, subtraction, negation, multiplication, division, inversion and exponentiation (and their compound forms) on field elements return the canonical residue in [0, 12289) of the mathematical result, for every pair of elements and every exponent. Inverse of zero and division by zero give zero, construction reduces any 16-bit value, comparisons follow the canonical residues, right shifts and (while the result fits 16 bits) left shifts are those of the canonical residue, and random elements are canonical, uniform over the field and independent of each other.",
  ["inputs"], "all 12289^2 operand pairs, all 2^16 constructor arguments, all 64-bit exponents",
  "The test draws 1024 random pairs and checks algebraic identities of the operators against each other (not against integers), so it misses rare operands and mutually consistent errors.",
  [I+"ff.hpp"], [("Barrett reduction", I+"ff.hpp ff_t::operator*"), ("extended gcd inverse", I+"ff.hpp xgcd(), inv()")], ["returned element values"])
p("C18", "The number theoretic transform computes multiplication modulo x^N+1",
  "For N = 512 and 1024, transforming two polynomials over Z_q, multiplying pointwise and transforming back gives their product modulo x^N+1 and q, and the inverse transform undoes the transform exactly. The transform is linear, its N outputs are the values of the polynomial at the N roots of x^N+1, and all outputs are canonical residues; pointwise division undoes multiplication whenever no value of the divisor is zero, and gives zero where it is.",
  ["inputs", "configurations"], "all polynomials over Z_q, both lengths",
  "The test only checks (a*b)/b = a through the transform, which holds for any invertible map - wrong roots or butterflies pass.",
  [I+"ntt.hpp", I+"polynomial.hpp"], [("Cooley-Tukey / Gentleman-Sande butterflies", I+"ntt.hpp ntt(), intt()"), ("root tables", I+"ntt.hpp compute_powers_of_zeta")], ["output coefficients"])
p("C19", "The complex FFT is accurate and consistent at every supported length",
  "For every length 2^1..2^10, the transform returns the values of the polynomial at the complex roots of x^N+1 to double precision (error a small multiple of machine epsilon), the inverse undoes it, and pointwise products correspond to products modulo x^N+1, for real and complex coefficients. Splitting and merging in the transform domain equal splitting into even and odd coefficients and merging, the adjoint corresponds to f(1/x), and pointwise addition, subtraction, multiplication and division are the exact complex operations to rounding error.",
  ["inputs", "configurations"], "all real polynomials (all magnitudes) of every supported length",
  "The test checks (a*b)/b = a and split/merge with small integers after rounding to the nearest integer, which hides wrong constants, precision loss and any consistent wrong transform.",
  [I+"fft.hpp", I+"polynomial.hpp"], [("butterflies and 1024-entry constant table", I+"fft.hpp fft(), ifft(), POWERS_OF_zeta"), ("split/merge/adjoint", I+"fft.hpp split_fft(), merge_fft(), adj_poly()")], ["output coefficients"])
p("C20", "72-bit unsigned integers behave as integers modulo 2^72",
  "Addition, subtraction and negation of 72-bit values are exact modulo 2^72 for every pair of operands, with carries and borrows across the 64-bit limb, and the order comparisons are exact. Conversion to and from 9 little-endian or big-endian bytes is lossless in both directions.",
  ["inputs"], "all pairs of 72-bit values",
  "u72.hpp has no test; the sampler tests that use it cannot be built here.",
  [I+"u72.hpp"], [("two-limb arithmetic", I+"u72.hpp u72_t")], ["returned limbs and bytes"])
p("C21", "No entry point touches memory out of bounds or has undefined behaviour",
  "No call of the library - key generation, signing, verification, encoding, decoding, hashing, sampling, transforms - with buffers of exactly the documented sizes reads or writes outside them or executes undefined behaviour, whatever bytes the buffers contain (hostile public keys, signatures, messages and secret keys included). Every output buffer is written in full and nothing beside it.",
  ["inputs"], "all byte contents of all correctly sized buffers, all message lengths, all random tapes",
  "Tests run uninstrumented on well-formed data; a one-byte over-read or a signed overflow on a hostile signature is invisible to them.",
  [I+"decoding.hpp", I+"encoding.hpp", I+"verification.hpp", I+"signing.hpp", I+"falcon.hpp", I+"samplerz.hpp", I+"hashing.hpp"],
  [("bounds kept by loop structure", I+"decoding.hpp decompress_sig(), "+I+"encoding.hpp compress_sig()")], ["AddressSanitizer, UndefinedBehaviorSanitizer reports; guard bytes"])
p("C22", "Concurrent calls on separate buffers are race free and give sequential results",
  "Any number of threads may generate keys, sign and verify at the same time, sharing read-only keys, prepared keys and messages, as long as each has its own output buffers and generator: there is no data race and every result is the one a single thread would get.",
  ["schedules"], "all interleavings of library calls from several threads",
  "All tests are single threaded.",
  [I+"falcon.hpp", I+"signing.hpp", I+"verification.hpp", I+"ntt.hpp", I+"fft.hpp", I+"ff.hpp"],
  [("no mutable shared state; constant tables", "all headers")], ["ThreadSanitizer reports; results against a sequential replay"])
p("C23", "Results depend only on the inputs and the entropy drawn",
  "Given the same inputs and the same entropy, every operation writes the same bytes, whatever was called before, whatever the stack, heap and output buffers contained, and whether or not its inputs are reused; inputs are never modified. No operation reads uninitialised memory or lets its contents reach an output.",
  ["histories", "inputs"], "all call sequences and all prior memory contents",
  "Tests draw fresh randomness on every run and never run the same operation twice on equal inputs, so stale or uninitialised state cannot show.",
  [I+"falcon.hpp", I+"keygen.hpp", I+"signing.hpp", I+"verification.hpp", I+"encoding.hpp", I+"decoding.hpp", I+"ntru_gen.hpp"],
  [("all working storage is local and fully written before use", "all headers")], ["output bytes of repeated calls; MemorySanitizer and memcheck reports"])
p("C24", "Malformed secret keys are refused",
  "One-shot signing with a byte string that is not a valid secret key - wrong header, corrupted coefficients, or f, g, F that do not form a valid basis - returns false after bounded work, or else produces a signature that verifies under g/f; it never hangs, crashes or executes undefined behaviour. A correct secret key is never refused.",
  ["inputs", "fault_sequences"], "all byte strings of secret-key length: random, bit-flipped valid keys, structured degenerate keys",
  "Tests only sign with keys they have just generated.",
  [I+"falcon.hpp", I+"decoding.hpp"], [("decode check and recomputation of G", I+"falcon.hpp sign()")], ["return value, randomness consumed, crash or hang"])
p("C25", "Signing and key generation finish within bounded randomness",
  "Every signing call with a valid key and every key generation terminates: with a sound generator a signing call uses fewer than 20 full sampling attempts and a key generation fewer than 1000 candidate pairs, measured in random bytes drawn. A sampling attempt is repeated only if its vector is too long or its encoding does not fit, a candidate pair is discarded only if it is out of range, not invertible, too long or unsolvable, so the number of attempts stays at the rate the specification predicts (nearly all signatures need one attempt).",
  ["inputs", "histories"], "all keys, messages and random tapes",
  "A test can only show that one call returned; it neither counts attempts nor notices a rejection rate that has drifted.",
  [I+"signing.hpp", I+"ntru_gen.hpp", I+"samplerz.hpp"], [("restart loops", I+"signing.hpp sign(), "+I+"ntru_gen.hpp ntru_gen()")], ["random bytes drawn per call"])
p("C26", "Every emitted signature is well-formed and short for an independent verifier",
  "Every signature the library emits has exactly 666 (Falcon-512) or 1280 (Falcon-1024) bytes, as the length function says, the header 0x39 or 0x3A, a 40-byte salt and a canonical, zero-padded compressed polynomial s2 such that, computed independently in exact integer arithmetic from the public key, (c - s2*h, s2) has squared norm at most 34034726 or 70265242. Its squared norm has the distribution of a spherical Gaussian (mean 2N*sigma^2), for every key and message.",
  ["inputs", "histories"], "all keys, messages and random tapes",
  "The tests accept whatever the library's own verifier accepts, so a signer and verifier that drift together (looser bound, different hash, different layout) pass.",
  [I+"signing.hpp", I+"encoding.hpp", I+"hashing.hpp", I+"falcon.hpp"], [("norm check and encoding", I+"signing.hpp sign()")], ["signature bytes, judged by the reference verifier"])
p("C27", "Key polynomials follow the specified distribution and keys never repeat",
  "The coefficients of f and g are sums of 4096/N independent integer Gaussians of width 1.43300980528773, identically distributed at every position and uncorrelated within and between f and g; keys accepted from them keep that distribution up to the acceptance bounds. Two key generations, whether from fresh generators, from one generator, or from entropy differing in a single bit, share no polynomial.",
  ["inputs", "histories"], "all key generations and entropy values",
  "A test generates a handful of keys and checks that they work; weak, biased or repeated secrets sign and verify just as well.",
  [I+"ntru_gen.hpp", I+"samplerz.hpp", I+"prng.hpp"], [("gen_poly", I+"ntru_gen.hpp gen_poly()")], ["coefficients of sampled polynomials; f, g, h of generated keys"])
p("C28", "Convenience functions agree with their building blocks",
  "Under the same entropy keygen(pkey, skey) writes the encodings of exactly the f, g, F and h that ntru_gen and compute_public_key produce, keygen(B, T, h) produces their expansion, one-shot signing writes the same bytes as decoding, recomputing G, expanding and prepared signing; verify on bytes equals decode_pkey followed by verification on h; and the generator-fed sampler and Bernoulli routines return the same values from the same bytes as their explicit-byte versions.",
  ["inputs", "programs"], "all keys, messages, signatures and byte sequences",
  "Tests use one path per operation and fresh randomness for each call, so two paths that compute different things still pass.",
  [I+"falcon.hpp", I+"keygen.hpp", I+"signing.hpp", I+"verification.hpp", I+"samplerz.hpp"], [("wrappers", I+"falcon.hpp")], ["bytes and verdicts of both paths"])
p("C29", "Hexadecimal conversion of byte strings is lossless and canonical",
  "For every byte string, of whatever length, the text conversion writes exactly two lowercase hexadecimal digits per byte, in order, and parsing such a text - digits of either case - gives back exactly the bytes, floor(length/2) of them, writing nothing else. The power-of-two logarithm used to derive N is exact for all 64 powers.",
  ["inputs"], "all byte strings, all strings of hexadecimal digits",
  "Nothing tests the conversions; the example programs print keys and signatures through them and the sampler test reads its vectors through them.",
  [I+"common.hpp"], [("digit formatting", I+"common.hpp to_hex()"), ("digit parsing", I+"common.hpp to_byte_array()"), ("log2", I+"common.hpp log2()")], ["text", "parsed bytes"])
p("C30", "Calls leave nothing behind and fit an ordinary thread",
  "However a call ends - success, rejected signature, refused key, attempts thrown away, equation without solution, exception from a failing entropy source - it gives back all heap memory it took (beyond what its first uses in a process may set up once), leaves the state of the process as it was (open files, threads, signal handling, timers, limits, scheduling, locale, environment, working directory, file mode mask, stream formats, the C library's random sequence, floating-point control), and writes nothing to the standard streams. Every call fits a thread with 8 MiB of stack.",
  ["inputs", "fault_sequences", "histories"], "all calls and ways of ending, however many in one process",
  "Tests make few calls, none of which fails, and look at results only; what is lost per call shows only in long-running processes.",
  [I+"ntru_gen.hpp", I+"signing.hpp", I+"prng.hpp", I+"falcon.hpp", I+"karatsuba.hpp"], [("GMP numbers released by their destructors", I+"ntru_gen.hpp ntru_solve()"), ("buffers on the stack", I+"falcon.hpp, signing.hpp")], ["heap balance", "descriptors, threads, output", "stack high-water mark"])
p("U01", "Signatures cannot be forged without the secret key",
  "No efficient adversary with access to a signing oracle can produce a valid signature on a message that was not signed. Nor can it recover the secret key from public keys and signatures.",
  ["programs"], "all efficient adversaries",
  "A cryptographic hardness statement; no set of executions settles it.",
  ["include/"], [("GPV framework over NTRU lattices", "the whole library")], [])
p("U02", "Execution time and memory access do not depend on secrets",
  "The sequence of branches taken and addresses accessed during key generation and signing is independent of secret values. No timing difference reveals the secret key.",
  ["inputs"], "all secret keys",
  "Not functional behaviour; the library makes no such promise and its sampler branches on secret data by design.",
  ["include/samplerz.hpp"], [("none", "-")], [])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
