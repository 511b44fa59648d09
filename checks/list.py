from checks.table import check

check("C17", "every pair of field elements is a case (x,y in [0,12289)^2), plus every 16-bit constructor argument and "
      "every base with structured/random 64-bit exponents, every shift, and random elements; all are distinct by enumeration, exponent cases counted by hash",
      {"rel": 1.0, "gxx": 1.0},
      exhaustive="binary operators: all 12289^2 operand pairs; unary operators: all operands; constructor: all 2^16 arguments")

check("C20", "pairs of 72-bit values: every pair of limb/power-of-two edge values, plus random pairs biased to neighbours, near-"
      "negations and equal limbs; distinct by value", {"rel": (4.0, 1.0), "gxx": 0.3})

check("C18", "polynomials over Z_q: every scaled unit vector (in both domains) of both lengths, plus random/extreme/sparse pairs; "
      "distinct by coefficients", {"rel": (8.0, 1.0), "gxx": (0.2, 0.1)},
      exhaustive="all unit vectors x^j and all unit value vectors for N=512 and N=1024")

check("C19", "real polynomials of every length 2^1..2^10: all unit vectors of both domains, plus random, sparse, wide-spread and huge "
      "real and complex coefficients; distinct by coefficients", {"rel": (4.0, 1.0), "o1": (0.3, 0.1), "gxx": (0.3, 0.1)},
      exhaustive="all unit vectors of all ten lengths in both domains")

check("C09", "pairs of integer polynomials of every length 1..1024 with small, limb-boundary, sparse, mixed and dense coefficients "
      "of up to 5000 bits and either sign; distinct by contents", {"rel": (8.0, 1.0)})

check("C01", "signatures made (one-shot, prepared, both parameter sets, stored and fresh keys, all message length classes, "
      "long interleaved histories, forced restarts, sampling led to chosen vectors on the norm bound, the body size and with large coefficients, a message longer than 2^32 bytes), "
      "each then verified; distinct by signature bytes",
      {"rel": 1.0, "gxx": (0.2, 0.1)}, cpu=300)

check("C02", "(key, message, signature) triples with the key solved for: norms on/next to the bound, next to multiples of 2^31, "
      "concentrated in each single coefficient, coefficients next to q/2 and beyond q, honest signatures and structured variants; "
      "distinct by key and signature bytes", {"rel": (3.0, 1.0), "gxx": (0.25, 0.2)},
      exhaustive="norm concentrated in each of the N positions of s1 and of s2, both signs, on and one over the bound")

check("C03", "changed (key, message, signature) triples: every single-bit flip, all values of chosen bytes, insertions, deletions, "
      "exchanges, splices, other keys and parameter sets, public key coefficients encoded as themselves plus q, long messages changed and cut near and beyond powers of two "
      "(2^32 included), each derived from a valid signature; distinct by construction or hash",
      {"rel": 1.0, "gxx": (0.1, 0.1)}, exhaustive="all single-bit flips of each base signature, its key and its message")

check("C04", "polynomials compressed (Gaussian, exact fits and off by one, spikes up to INT32_MIN, every value in +-2600) and bodies "
      "decompressed (valid, damaged in 12 ways, ending within 9 bits of the end, arbitrary); distinct by contents",
      {"rel": (4.0, 1.0), "gxx": (0.3, 0.2), "asan": (0.1, 0.1)})

check("C05", "public keys: all q values swept through all positions, each bit at each position, values at or above q at each position, "
      "all headers, random and damaged strings; distinct by bytes", {"rel": (8.0, 1.0), "gxx": (0.3, 0.2)},
      exhaustive="all 256 headers; every value below q; every position with values q-1, q, q+1, 16383")

check("C06", "secret keys: every value of f and g at every position on three backgrounds, every value of F at every position, all headers, "
      "random keys; distinct by bytes", {"rel": (8.0, 1.0), "gxx": (0.3, 0.2)},
      exhaustive="all (position, value) pairs of f, g and F; all 256 headers")

check("C07", "key pairs generated through all three interfaces, with sound randomness, with bursts of forced sampler output, and with "
      "recorded seeds that lead to unencodable candidates, and candidates dictated through the random tape (zero at each single NTT slot, on and "
      "beyond the bounds, chosen keys); each judged in exact arithmetic; distinct by (f, g)",
      {"rel": 1.0, "gxx": (0.15, 0.1)}, cpu=400)

check("C08", "pairs (f, g) of every degree 1..1024: Gaussian, sparse, constant, large (to 150 bits), with equal / common factors / zero "
      "parts; and (F, G) of up to 600 extra bits to reduce; distinct by coefficients", {"rel": (4.0, 1.0)}, cpu=60)

check("C10", "keys (stored, freshly generated, and images of those under ring automorphisms, units and other completions F, G) expanded; "
      "every tree node, leaf and basis entry compared; distinct by (f, F)", {"rel": (2.0, 1.0), "gxx": (0.2, 0.1), "o1": (0.1, 0.05)}, cpu=300)

check("C11", "signatures mapped back to their 2N sampling residuals with the secret basis: one fixed key, many keys (stored keys under ring "
      "automorphisms and units, edge keys), one fixed target; attempts led to planned vectors; calls replayed step by step from the bytes they drew; "
      "distinct by salt and signature prefix", {"rel": 1.0}, cpu=300)

check("C12", "(centre, width) cells of 200000 samples each (integers, halves, one ulp beside, large and negative centres; ends and inside of the "
      "width range); 9-byte inputs at, beside and one bit from each table entry; byte tapes (random, table entries, extremes, short); "
      "specification vectors; distinct by contents", {"rel": (2.0, 1.0), "gxx": (0.1, 0.1), "asan": (0.02, 0.01)})

check("C13", "(x, ccs) pairs: even grid and structured points of [0, ln2] for the approximation; thresholds recovered by bisection at random "
      "points, at and within 40 ulp of every multiple k ln2 (k < 70), beside random large multiples and up to 2^32; distinct by value",
      {"rel": (8.0, 1.0), "gxx": (0.3, 0.2), "o1": (0.2, 0.1), "ubsan": (0.1, 0.05)},
      exhaustive="k ln2 +- 40 ulp for all k < 70")

check("C14", "(salt, message) pairs: every message length 0..1399 (both parameter sets), block boundaries, up to 1 MiB, one beyond 4 GiB; bit "
      "flips, prefixes, other surroundings; distinct by contents", {"rel": (2.0, 1.0), "gxx": (0.1, 0.1), "asan": (0.1, 0.05)}, cpu=300,
      exhaustive="all message lengths 0..1399")

check("C15", "generators built from controlled entropy: every drawn bit and pair of bits flipped, every draw made to fail in generator, sign and "
      "keygen, thousands in a row, interleaved and on threads; streams cut into reads in 6 ways; distinct by stream prefix",
      {"rel": (5.0, 1.0), "gxx": (0.3, 0.2)}, exhaustive="all single-bit and all two-bit flips of the entropy drawn; failure of opening and of each draw")

check("C16", "signatures (one-shot, prepared, same and different messages, 24 stored and fresh keys, both sets, threads, forced restarts) with the "
      "log of generator reads of each call; distinct by salt", {"rel": (2.0, 1.0), "gxx": (0.1, 0.1)}, cpu=300)

MEM = ("sanitizer", "crash", "out-of-bounds-write", "out-of-bounds-read", "header-touched")
check("C21", "calls of every entry point on exact-size buffers at even and odd addresses with honest, damaged, structured and random contents; "
      "and the workloads of the other checks, rebuilt with the sanitizers; distinct by contents",
      {"asan": 1.0, "gasan": (1.0, 0.3), "rel": (0.5, 0.3)}, cpu=300, also_keys=MEM,
      also={("C02", "asan"): 0.02, ("C03", "asan"): 0.02, ("C04", "asan"): (0.05, 0.02), ("C05", "asan"): 0.03, ("C06", "asan"): 0.03,
            ("C09", "asan"): 0.03, ("C12", "asan"): (0.01, 0.005), ("C13", "asan"): 0.03, ("C14", "asan"): 0.05,
            ("C15", "asan"): 0.02, ("C17", "asan"): 0.02, ("C18", "asan"): 0.02, ("C19", "asan"): 0.05, ("C20", "asan"): 0.1})

check("C22", "runs of 2..8 threads over shared inputs (first use in a process, mixed operations, everyone on one prepared key, key generation "
      "beside signing), each replayed sequentially; distinct by inputs and observed completion order", {"tsan": 1.0, "rel": (1.0, 2.0)}, cpu=300)

check("C23", "calls of 15 kinds, each determined by (kind, parameter set, job seed), repeated over different stack, heap and output contents, after "
      "histories and in fresh processes; and the workloads of other checks under MemorySanitizer; distinct by output",
      {"rel": 1.0, "gxx": (0.2, 0.2), "msan": (0.4, 0.2), "valgrind": 1.0}, cpu=300, also_keys=("sanitizer", "crash"),
      also={("C02", "msan"): 0.02, ("C04", "msan"): 0.03, ("C05", "msan"): 0.05, ("C06", "msan"): 0.05, ("C12", "msan"): 0.01, ("C13", "msan"): 0.05,
            ("C14", "msan"): 0.1, ("C18", "msan"): 0.05, ("C19", "msan"): 0.1, ("C20", "msan"): 0.1})

check("C24", "secret key strings: correct (stored keys and their images under automorphisms, units and other completions, fresh ones), 36 kinds of "
      "malformed polynomials, damaged strings, all headers, short NTRU bases with singular f, keys failing the NTRU equation in one chosen coefficient only; distinct by bytes",
      {"rel": (1.5, 1.0), "gxx": (0.2, 0.2), "asan": (0.3, 0.1)}, cpu=60, exhaustive="all 256 headers")

check("C25", "calls (prepared and one-shot signing with stored, derived and fresh keys; key generation; bursts of bad randomness; acceptable and "
      "unacceptable attempts and candidates dictated through the tape; the sampler over a grid of centres and widths) with the random bytes each drew; distinct by output", {"rel": 1.0, "gxx": (0.15, 0.1)}, cpu=300)

check("C26", "signatures judged by the reference (prepared, one-shot, stored, derived and fresh keys, equal and different messages, attempts forced to "
      "norms around the bound, attempts led to chosen vectors); distinct by signature bytes", {"rel": (3.0, 1.0), "gxx": (0.15, 0.1)}, cpu=300)

check("C27", "polynomials sampled for keys (distribution, positions, correlations at every distance), whole keys from fresh and shared generators, polynomials "
      "from neighbouring entropy; distinct by coefficients", {"rel": 1.0, "gxx": (0.15, 0.1)}, cpu=300)

check("C28", "calls of the convenience functions (key generation, both signing functions, verification, the generator-fed sampler) repeated through their "
      "building blocks under the same entropy, key generation also led to chosen keys; distinct by output", {"rel": 1.0, "gxx": (0.2, 0.2)}, cpu=300)

check("C29", "byte strings written as digits and read back in lower, upper and mixed case: every value at every position of lengths 0..20, every pair "
      "of neighbours, all lengths to 300 and up to MiB, on threads; distinct by contents", {"rel": 1.0, "asan": 0.3, "gxx": 0.3},
      exhaustive="all values at all positions of all lengths up to 20, all pairs of neighbouring bytes")

check("C30", "calls of every entry point, ended in every way (success, refusal, restarts, entropy failure), each repeated with the heap balance, open files, "
      "threads, output and process state compared; and on painted stacks; distinct by kind of call and case (keys, messages, damage and entropy of its own) and by stack use", {"rel": 1.0, "gxx": (0.5, 0.3)}, cpu=300)
