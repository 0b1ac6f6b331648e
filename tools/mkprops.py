#!/usr/bin/env python3
"""Write properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


D = "poc/vdaf_poc/"

prop("C01", "Field arithmetic is exact modular arithmetic in every field",
     "For each of the four fields, addition, subtraction, negation, multiplication, exponentiation, inversion, equality and conversion from and to integers agree with arithmetic modulo the field's prime on canonical representatives, for all operands. Every nonzero element times its inverse is one, a negative integer denotes the additive inverse, and an integer outside the open interval (-p, p) is refused. Each NTT-friendly field's generator has exactly the advertised power-of-two order, so that its roots of unity have exactly the order asked for.",
     ["inputs"], "all four fields, all pairs of elements, all exponents, all integers",
     "Tests add, multiply and invert a handful of random or small elements; the fields have up to 2^255 elements and wrap-around, zero and p-1 boundaries are hit with negligible probability.",
     [D + "field.py"],
     [("Field operators reduce modulo MODULUS", D + "field.py:60-105"),
      ("concrete field constants and generators", D + "field.py:176-222")],
     ["field element operators", "integer value of an element"])

prop("C02", "Field vector encoding is a canonical bijection",
     "Encoding a vector of field elements yields exactly the concatenation of fixed-width little-endian canonical values, and decoding it returns the same vector. Decoding accepts a byte string only if its length is a multiple of the element width and every element is below the modulus, and re-encoding what was decoded reproduces the input bytes exactly. Everything else is rejected with an error.",
     ["inputs"], "all four fields, all vectors of any length including empty, all byte strings of any length",
     "Tests round-trip a few random vectors; a non-canonical value at or just above the modulus in any position is never tried in most fields.",
     [D + "field.py", D + "common.py"],
     [("encode_vec / decode_vec", D + "field.py:49-78")],
     ["encoded bytes", "decoded vector", "rejection"])

prop("C03", "Integer, byte-string and vector primitives meet their definitions",
     "Integer-to-bytes conversions produce the unique big- or little-endian representation of the requested width, refuse integers that do not fit, and invert exactly. Splitting off a front part and concatenating lose, reorder or invent nothing and refuse to split past the end; XOR, zero strings, power-of-two rounding and bit reversal equal their mathematical definitions. Vector addition, subtraction and negation are element-wise and refuse vectors of different lengths.",
     ["inputs"], "all integers, widths, byte strings and vectors",
     "Unit tests exercise these only indirectly through a handful of fixed calls; widths, boundaries and mismatched lengths are not covered.",
     [D + "common.py"],
     [("to_/from_ le/be bytes, front, concat, xor, vec_*", D + "common.py:27-170")],
     ["return values", "rejection"])

prop("C04", "NTT and inverse NTT are exact evaluations and mutual inverses",
     "The forward transform of a coefficient vector at size n returns the values of that polynomial at the n-th roots of unity in order, or at the coset shifted by a 2n-th root when requested; shorter inputs behave as if padded with zero coefficients. The inverse transform recovers the coefficients of the unique polynomial of degree below n with the given values. Sizes that are not powers of two are refused.",
     ["inputs", "configurations"], "every NTT-friendly field, every power-of-two size, every coefficient or value vector",
     "Tests transform a few random vectors at a few sizes.",
     [D + "field.py"],
     [("ntt butterfly loops with bit reversal", D + "field.py:133-165"), ("inv_ntt reordering and scaling", D + "field.py:120-131")],
     ["transform outputs"])

prop("C05", "Polynomial arithmetic agrees with polynomial algebra in both bases",
     "In the coefficient basis, adding, multiplying, evaluating, stripping and interpolating polynomials agree with polynomial algebra over the field for every input, including zero and constant polynomials. In the values-at-roots-of-unity basis, evaluation at any point (one polynomial or a batch), multiplication, doubling the number of values and extending values to a power of two all describe the same underlying polynomial. Unequal or non-power-of-two lengths where these are required are refused.",
     ["inputs", "configurations"], "all fields, all polynomials of any length, all evaluation points including roots of unity and zero",
     "Tests use a few random polynomials and points; degenerate polynomials and points on the evaluation domain are not covered.",
     [D + "field.py"],
     [("poly_strip/mul/add/eval/interp", D + "field.py:229-350"), ("class Lagrange", D + "field.py:353-444")],
     ["returned polynomials and values"])

prop("C06", "XOF output is one well-defined byte stream however it is read",
     "For both extendable-output functions, the bytes obtained by any sequence of reads are consecutive slices of a single stream that depends only on the seed, domain separation tag and binder string, exactly as the construction defines it. Reading in different chunk sizes, deriving a seed, or expanding into a vector never skips, repeats or reorders stream bytes. A tag or seed too long to be length-prefixed, or a seed of the wrong size for the fixed-key cipher construction, is refused.",
     ["inputs", "histories"], "all seeds, tags, binders and all sequences of read lengths",
     "Tests compare fixed test vectors read in one go; reads that straddle block boundaries after an unaligned read are barely sampled.",
     [D + "xof.py"],
     [("XofTurboShake128", D + "xof.py:102-150"), ("XofFixedKeyAes128.next offset arithmetic", D + "xof.py:163-252")],
     ["bytes returned by successive reads"])

prop("C07", "Field sampling from an XOF is exact rejection sampling",
     "The sampled vector consists of precisely the first requested number of stream chunks (each of the field's encoded width, masked to the bit length of the modulus) that are below the modulus, in order, for every field. Sampling m then n elements gives the same elements and leaves the stream at the same position as sampling m+n elements. Every sampled element is a canonical field element and the requested length is always delivered.",
     ["inputs", "histories"], "all fields, all streams (including those with rejected candidates), all requested lengths and all splittings",
     "Rejection happens with probability around 2^-32 or less for most fields, so tests practically never execute the rejection branch.",
     [D + "xof.py"],
     [("next_vec / expand_into_vec", D + "xof.py:58-98")],
     ["sampled vectors", "subsequent stream bytes"])

prop("C08", "Domain separation: distinct uses never collide",
     "The domain separation tag starts with the document version, class, algorithm identifier and usage in fixed-width fields, so different usages, algorithms or classes never yield the same tag for equal application contexts, and out-of-range values are refused. What an XOF absorbs determines tag, seed and binder uniquely. Within Prio3 and within Poplar1, each distinct purpose (and each aggregator, where the value must differ per aggregator) draws from a different tag or binder, and every derived value is bound to the application context.",
     ["inputs", "configurations"], "all algorithm identifiers, usages, contexts, seeds, binders, aggregator ids and numbers of proofs",
     "Tests fix one context and identifier; a collision between two uses does not change any single test vector comparison if both sides change alike.",
     [D + "common.py", D + "vdaf.py", D + "xof.py", D + "vdaf_prio3.py", D + "vdaf_poplar1.py", D + "idpf_bbcggi21.py"],
     [("format_dst", D + "common.py:163-182"), ("domain_separation_tag", D + "vdaf.py:203-212"), ("USAGE_* constants and binders", D + "vdaf_prio3.py:13-19")],
     ["bytes absorbed by the XOF"])

prop("C09", "Range-checked integer encoding represents exactly 0..max",
     "Every integer from zero to the maximum encodes to a vector of zeros and ones of the advertised length that decodes to the same integer. Every vector of zeros and ones of that length decodes to an integer between zero and the maximum, so no 0/1 vector can represent an out-of-range value. Decoding is linear, hence the sum of decoded shares is the decoding of the sum, and integers outside the range are refused.",
     ["inputs", "configurations"], "all maxima that fit the field, all values, all 0/1 vectors, all additive sharings, all fields",
     "Tests enumerate maxima 14 to 16 only.",
     [D + "flp_bbcggi19.py"],
     [("encode_range_checked_int / decode_range_checked_int", D + "flp_bbcggi19.py:1148-1206")],
     ["encoded vectors", "decoded integers"])

prop("C10", "Measurement encoding, truncation and decoding compute the aggregate",
     "For every measurement type, encoding a measurement in its domain yields a vector of the advertised length whose truncation has the advertised output length, and decoding the sum of truncated encodings of any batch yields the exact aggregate of the measurements (sum, per-coordinate sums, or bucket counts) as long as it is below the modulus. Truncation is linear, so it commutes with secret sharing. Measurements outside the domain (wrong length, too large, negative, index out of range, too many ones) are refused.",
     ["inputs", "configurations"], "all measurement types, all legal parameters, all measurements, all batches",
     "Tests use one small configuration per type.",
     [D + "flp_bbcggi19.py"],
     [("encode/truncate/decode of Count, Sum, SumVec, Histogram, MultihotCountVec", D + "flp_bbcggi19.py:657-1146")],
     ["encoded measurement", "aggregate result", "rejection"])

prop("C11", "Validity circuits accept exactly the valid encodings",
     "Evaluated with genuine gadgets on one share, each validity circuit outputs all zeros on every valid encoding, for every joint randomness and every chunk length. On a vector that is not valid (an entry that is neither zero nor one, or the wrong number of ones, or a wrong claimed weight) the output is not identically zero as a function of the joint randomness. The circuit calls each gadget exactly the advertised number of times with inputs of the advertised arity, outputs the advertised number of elements, and refuses wrong input lengths.",
     ["inputs", "configurations"], "all circuits, legal parameters (including lengths not divisible by the chunk length), encoded vectors and joint randomness",
     "Tests evaluate one or two parameter choices with a few inputs each; partial last chunks and position-dependent errors slip through.",
     [D + "flp_bbcggi19.py"],
     [("eval of each circuit, gadget eval", D + "flp_bbcggi19.py:560-1146")],
     ["circuit outputs", "gadget call count"])

prop("C12", "FLP completeness and linearity over secret shares",
     "For every circuit and every valid encoded measurement, an honestly generated proof is accepted for all prover, joint and query randomness (query randomness on the evaluation domain is refused instead). Querying additive shares of measurement and proof with any number of aggregators yields shares of the same verifier message that querying the whole would give, so the verdict does not depend on how, or among how many, the inputs were shared. Proof and verifier messages have exactly the advertised lengths.",
     ["inputs", "configurations"], "all circuits and parameters, valid measurements, randomness, numbers of shares and sharings",
     "Tests run the proof system once per listed measurement with two or three shares and random coins.",
     [D + "flp_bbcggi19.py", D + "flp.py"],
     [("prove/query/decide with gadget wrappers", D + "flp_bbcggi19.py:219-545")],
     ["proof", "verifier message", "verdict"])

prop("C13", "FLP verdict: rejects whenever any check fails",
     "The verifier message is accepted if and only if its reduced circuit output is zero and, for every gadget, the gadget applied to the claimed wire values equals the claimed gadget value. A proof whose gadget polynomial differs from the honest one in any coordinate, or a measurement that is not valid, is rejected for all but a bounded number of query points (at most the polynomial degree) and circuit-output coefficients. Messages of the wrong length and query points that are roots of unity of the evaluation domain are refused.",
     ["inputs"], "all verifier messages, all modified proofs, all invalid measurements, all circuits",
     "Tests try a few invalid measurements; single-coordinate proof changes, later gadgets and later output coordinates are not covered.",
     [D + "flp_bbcggi19.py"],
     [("decide, root-of-unity check, output reduction", D + "flp_bbcggi19.py:432-545")],
     ["verdict", "rejection"])

prop("C14", "Prio3 sharding splits the measurement and proofs exactly",
     "For every number of aggregators and proofs, expanding all input shares of a report and adding them gives exactly the encoded measurement and exactly the honest proofs for it, each made with its own disjoint portion of the prover and joint randomness. The public share holds, in aggregator order, the joint-randomness part each aggregator will itself compute, or is absent when no joint randomness is used. Wrong nonce or randomness lengths are refused, and every seed portion of the random input is used for one purpose only.",
     ["inputs", "configurations"], "all numbers of shares (2..255) and proofs, all measurements, nonces, contexts and random inputs, every FLP",
     "Tests cover two and three shares and a few proof counts with random coins, and only check the final aggregate.",
     [D + "vdaf_prio3.py"],
     [("shard, shard_with/without_joint_rand, expand_input_share", D + "vdaf_prio3.py:92-120,270-430")],
     ["public share", "input shares"])

prop("C15", "Prio3 accepts every honest report and outputs shares of the measurement",
     "For every honestly sharded report, verification by all aggregators succeeds and the resulting output shares add up to the truncated encoding of the measurement. This holds for every number of aggregators, proofs, verification key, context and nonce, provided no query point falls on the evaluation domain. All aggregators and the client derive identical joint and query randomness.",
     ["inputs", "configurations"], "all measurements, parameters, keys, nonces, contexts and random inputs",
     "Tests run a few measurements end to end with fixed or random coins.",
     [D + "vdaf_prio3.py"],
     [("verify_init, verifier_shares_to_message, verify_next", D + "vdaf_prio3.py:135-235")],
     ["acceptance", "output shares"])

prop("C16", "Prio3 rejects failed proofs and joint-randomness mismatches",
     "Combining verifier shares succeeds only if exactly one share per aggregator is given and every one of the proofs verifies; it fails if any single proof fails, in any position. An aggregator releases its output share only when the verifier message equals the joint-randomness seed it derived itself from its own recomputed part, so a report whose public share, blind or measurement share was altered for any aggregator is rejected. Verifier shares with missing joint-randomness parts or wrong lengths are refused.",
     ["inputs", "fault_sequences"], "all tampered public shares, input shares, verifier shares and messages, for all aggregator positions and proof indices",
     "Tests do not tamper with reports at all, except for wrong-size inputs.",
     [D + "vdaf_prio3.py"],
     [("decide loop, joint_rand_seed comparison, own part substitution", D + "vdaf_prio3.py:145-235")],
     ["rejection", "released output share"])

prop("C17", "Aggregation is exact and independent of order and partition",
     "For Prio3 and Poplar1, aggregating any multiset of output shares in any order, in any grouping into partial aggregates that are later merged, starting from an empty aggregate, gives the same aggregate share: the element-wise sum. Unsharding all aggregators' shares yields the decoded sum over all reports. Shares of mismatched length are refused.",
     ["inputs", "histories"], "all batches, orders, partitions and aggregation parameters",
     "Tests aggregate a handful of shares in one order and rarely merge.",
     [D + "vdaf_prio3.py", D + "vdaf_poplar1.py"],
     [("agg_init, agg_update, merge, unshard", D + "vdaf_prio3.py:245-290"), ("same for Poplar1", D + "vdaf_poplar1.py:330-380")],
     ["aggregate shares", "aggregate result"])

prop("C18", "IDPF shares sum to the programmed point function at every node",
     "For every index, programmed values, context, nonce and randomness, the two parties' evaluations at any prefix of any level add up to that level's programmed value when the prefix is a prefix of the index, and to the zero vector otherwise. This holds for every tree depth (including one) and value length and independently of which or how many other prefixes are evaluated together, and output shares appear in the order of the prefixes. Wrong-length, duplicate or out-of-range arguments are refused.",
     ["inputs", "configurations"], "all depths, value lengths, indices, programmed values, levels, prefix sets and random inputs",
     "Tests check a few indices and depths with random keys.",
     [D + "idpf_bbcggi21.py", D + "idpf.py"],
     [("gen / eval / eval_next correction words", D + "idpf_bbcggi21.py:66-250")],
     ["evaluation outputs", "rejection"])

prop("C19", "Poplar1 accepts honest reports and outputs shares of the prefix indicator",
     "For every honestly sharded report, every level and every set of distinct candidate prefixes, both rounds of verification succeed. The two output shares add up to one at the candidate that is a prefix of the measurement and to zero at all others. This holds for every bit length, verification key, context, nonce and random input.",
     ["inputs", "configurations"], "all bit lengths (including one), measurements, levels, candidate sets and random inputs",
     "Tests run a few measurements and levels.",
     [D + "vdaf_poplar1.py", D + "idpf_bbcggi21.py"],
     [("shard correlated randomness and sketch in verify_init/verify_next", D + "vdaf_poplar1.py:70-320")],
     ["acceptance", "output shares"])

prop("C20", "Poplar1 releases output only after the sketch check succeeds",
     "An aggregator's output share is released only in the second round and only after a message denoting a zero combined sketch; any nonzero combined second-round sketch, message of the wrong length, missing or unexpected message, or unknown state is refused. The combined sketch of shared vectors is computed as specified, so that inputs that are not shares of a one-hot or zero vector with matching authenticator yield a nonzero sketch for all but a bounded set of verification randomness. Exactly two verifier shares are required.",
     ["inputs", "fault_sequences"], "all verifier shares, messages, states, tampered reports",
     "Tests check only that honest runs succeed plus a couple of wrong-size cases.",
     [D + "vdaf_poplar1.py"],
     [("verify_next state machine and verifier_shares_to_message", D + "vdaf_poplar1.py:262-330")],
     ["rejection", "released output share"])

prop("C21", "Aggregation-parameter reuse rules are enforced exactly",
     "A Poplar1 aggregation parameter is accepted if and only if its candidate prefixes are strictly increasing in lexicographic order and, when the report was used before, its level is strictly greater than the previous one and every candidate extends a candidate of the previous parameter. A Prio3 report may be aggregated exactly once.",
     ["inputs", "histories"], "all parameters and all histories of previous parameters",
     "Tests list a dozen hand-picked parameter pairs.",
     [D + "vdaf_poplar1.py", D + "vdaf_prio3.py"],
     [("is_valid, get_ancestor", D + "vdaf_poplar1.py:185-225"), ("is_valid", D + "vdaf_prio3.py:122-130")],
     ["accept/refuse decision"])

prop("C22", "Poplar1 aggregation-parameter encoding is a canonical bijection",
     "Every parameter whose prefixes have the level's length encodes to the specified layout and decodes to itself, for every level up to 2^16-1 and any number of prefixes including none. Decoding accepts only byte strings of exactly the right length whose unused bits are zero, and re-encoding an accepted string reproduces it. Parameters that do not fit the layout are refused.",
     ["inputs"], "all levels, all sets of prefixes, all byte strings",
     "Tests encode two or three small parameters.",
     [D + "vdaf_poplar1.py"],
     [("encode_agg_param / decode_agg_param", D + "vdaf_poplar1.py:382-450")],
     ["encoded bytes", "decoded parameter", "rejection"])

prop("C23", "Prio3 message encodings round-trip and reject malformed input",
     "Every public share, input share, verifier share, verifier message, output share, aggregate share and aggregation parameter that the protocol produces decodes from its encoding to an equal value. Decoding a public, input or verifier share or aggregation parameter accepts only byte strings of exactly the right total length with canonical field elements, for which re-encoding reproduces the bytes. Everything else is refused.",
     ["inputs", "configurations"], "all messages and all byte strings, for leader and helpers, with and without joint randomness, any number of shares and proofs",
     "Tests round-trip protocol messages of a few runs and never feed malformed bytes.",
     [D + "vdaf_prio3.py"],
     [("encode_*/decode_* methods", D + "vdaf_prio3.py:520-625")],
     ["encoded bytes", "decoded messages", "rejection"])

prop("C24", "Poplar1 and IDPF message encodings round-trip and reject malformed input",
     "Every IDPF/Poplar1 public share, input share, verifier share, verifier message, output share and aggregate share that the protocol produces decodes from its encoding to an equal value in the field of its level. Packing and unpacking control bits are exact inverses for any number of bits. Decoding public and input shares accepts only byte strings of exactly the right length with zero padding bits and canonical field elements, and re-encoding reproduces them; everything else is refused.",
     ["inputs", "configurations"], "all bit lengths, messages and byte strings, inner and leaf levels",
     "Tests round-trip a few messages and do not feed malformed bytes.",
     [D + "vdaf_poplar1.py", D + "idpf_bbcggi21.py"],
     [("encode_/decode_ methods", D + "vdaf_poplar1.py:455-560"), ("pack_bits/unpack_bits and public share codec", D + "idpf_bbcggi21.py:305-387")],
     ["encoded bytes", "decoded messages", "rejection"])

prop("C25", "Ping-pong message framing is canonical",
     "Every ping-pong message (initialize, continue, finish, with its one or two items of any length) encodes to its type byte followed by length-prefixed items and decodes to itself. Decoding accepts only the three types, with exactly the announced items and nothing after them, and re-encoding reproduces the bytes; every other byte string is refused.",
     ["inputs"], "all item contents and lengths, all byte strings",
     "Tests only decode messages produced by honest runs.",
     [D + "vdaf_ping_pong.py"],
     [("encode / decode", D + "vdaf_ping_pong.py:260-287")],
     ["encoded bytes", "decoded items", "rejection"])

prop("C26", "Ping-pong state machine is total and agrees with broadcast verification",
     "For any number of rounds and any inbound bytes, each step returns a continued, finished or rejected state and never raises; a malformed, out-of-round, wrong-type or undecodable message, or any failure of the underlying verification, leads to rejection. When both parties follow the protocol they alternate and finish after exactly the VDAF's number of rounds with the same output shares that broadcast verification gives, combining verifier shares in leader-helper order at each round. An output share is only ever released in the last round upon the matching message type.",
     ["inputs", "histories", "fault_sequences"], "all VDAFs, numbers of rounds, message sequences and states",
     "Tests run honest exchanges with a toy VDAF for a few rounds and a few hand-written bad messages.",
     [D + "vdaf_ping_pong.py"],
     [("leader_init, helper_init, transition, continued", D + "vdaf_ping_pong.py:95-257")],
     ["returned states", "outbound messages"])

prop("C27", "Operations are deterministic and leave their inputs untouched",
     "No operation of the fields, transforms, proof systems, IDPF or VDAFs changes its arguments or the instance it is called on, except where the operation is documented to advance a stream or extend a list in place. Calling an operation again with equal arguments, in any order relative to other calls, gives an equal result; only the explicitly random helpers draw randomness. Returned values do not alias later mutations of internal state or of other results.",
     ["inputs", "histories"], "all operations, all interleavings of calls, repeated use of one instance",
     "Tests call each operation once on fresh inputs and never look at the arguments afterwards.",
     [D + "field.py", D + "flp_bbcggi19.py", D + "vdaf_prio3.py", D + "idpf_bbcggi21.py", D + "vdaf_poplar1.py", D + "xof.py"],
     [("copies before in-place updates", D + "vdaf_prio3.py:155, " + D + "flp_bbcggi19.py:262,300,350")],
     ["argument values after a call", "results of repeated calls"])

prop("C28", "End-to-end orchestration computes the aggregate of all measurements",
     "Running a DAF, VDAF or FLP through the reference orchestration routes each party's own messages to it in aggregator order, runs exactly the declared number of rounds, includes every measurement exactly once and unshards with the true number of measurements. The result equals the aggregation function applied to the whole batch, for any batch including the empty one. A verification key of the wrong size is refused, a report that fails verification makes the run fail, and additive sharing recombines to the shared vector.",
     ["inputs", "configurations", "histories"], "all DAF/VDAF instances (numbers of shares and rounds), batches and keys",
     "Tests run a few batches with order-insensitive toy schemes.",
     [D + "vdaf.py", D + "daf.py", D + "flp.py"],
     [("run_vdaf", D + "vdaf.py:284-371"), ("run_daf", D + "daf.py:210-246"), ("run_flp, additive_secret_share", D + "flp.py:128-190")],
     ["aggregate result", "calls made to the VDAF"])

prop("C29", "Parameters are validated and advertised sizes are the actual sizes",
     "Constructing an instance with parameters outside the documented ranges (number of aggregators or proofs, lengths, chunk lengths, maxima or weights that do not fit the field, depths) is refused, and every legal combination is accepted. The advertised sizes of randomness, encoded measurement, joint, prover and query randomness, proof, verifier message, output, keys and nonces equal the sizes actually consumed and produced, and identifiers of the standard instances are the registered ones.",
     ["configurations"], "all constructor arguments of fields, circuits, FLPs, IDPF and VDAFs",
     "Tests construct a few legal instances and check a few identifiers.",
     [D + "flp_bbcggi19.py", D + "vdaf_prio3.py", D + "vdaf_poplar1.py", D + "idpf_bbcggi21.py"],
     [("constructors and *_len methods", D + "flp_bbcggi19.py:90-130,320-335; " + D + "vdaf_prio3.py:70-92")],
     ["constructor success/refusal", "sizes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
