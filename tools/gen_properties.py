#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
E = "src/group/edwards25519/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Scalar arithmetic is exact arithmetic modulo the group order",
  "Every scalar operation (add, subtract, negate, multiply, fused multiply-add, invert, divide, set from integer, set from bytes) returns the canonically encoded residue, modulo the prime order of the edwards25519 subgroup, of the exact integer result. This holds for every 32-byte operand, reduced or not, whatever value the receiver held before, and for the three interchangeable scalar implementations alike.",
  ["inputs", "histories"], "all 256-bit operand values (including limb, carry and order boundaries) and all sequences of operations reusing one receiver",
  "The tests try a few dozen random scalars; a lost carry or a wrong fold constant in the hand-unrolled limb code shows only for operands in tiny regions, and receiver state is never varied.",
  [E+"scalar.rs", E+"scalar_test_types.rs", "src/group.rs"],
  [("sc_mul_add / sc_add / sc_sub / sc_mul / sc_reduce_limbs limb reduction", E+"scalar.rs"), ("Scalar::{set,set_int64,set_bytes,inv,div,neg}", E+"scalar.rs"), ("SimpleCTScalar, FactoredScalar", E+"scalar_test_types.rs")],
  ["marshal_binary of the resulting scalar"])

p("C02", "Scalar encodings are canonical, fixed-width and round-trip exactly",
  "Encoding any scalar yields exactly the 32 little-endian bytes of its residue below the group order, and decoding them gives back a scalar that encodes the same, through the binary, streamed, hexadecimal and serde routes alike; decoding input of any other length is an error. The canonicity predicate accepts a byte string exactly when it is 32 bytes long and represents an integer below the group order, little-endian.",
  ["inputs"], "all byte strings (any length) and all scalar values; all ways of chunking a stream",
  "The tests check canonicity on two or three constants and round trips on random scalars; the boundary around the order, short or long inputs and streamed reads are not covered.",
  [E+"scalar.rs", "src/group/internal/marshalling/marshal.rs", "src/encoding/encodings.rs"],
  [("Scalar BinaryMarshaler/BinaryUnmarshaler/Marshaling", E+"scalar.rs"), ("is_canonical", E+"scalar.rs"), ("point/scalar marshal_to/unmarshal_from helpers", "src/group/internal/marshalling/marshal.rs")])

p("C03", "Point operations implement the edwards25519 group law",
  "Addition, subtraction, negation and scalar multiplication (fixed-base, variable-base, constant-time and variable-time) return the point that the twisted Edwards group law of curve25519 prescribes, for every pair of curve points including the identity, equal, opposite and small-order points. Scalar multiplication is correct for every 256-bit scalar, and results do not depend on what the receiver held before or on the operands' internal representation.",
  ["inputs", "histories"], "all curve points (with and without torsion, in any projective representation) and all 256-bit scalars",
  "The tests check algebraic identities on random prime-order points using the same code on both sides; exceptional points, recoding edge scalars and table entries rarely selected are not reached, nor compared with an independent model.",
  [E+"point.rs", E+"ge.rs", E+"fe.rs", E+"ge_mult_vartime.rs", E+"constants.rs"],
  [("ExtendedGroupElement add/double, ge_scalar_mult, ge_scalar_mult_base, ge_scalar_mult_vartime", E+"ge.rs"), ("field arithmetic fe_add..fe_mul, fe_invert", E+"fe.rs"), ("precomputed base table", E+"constants.rs")])

p("C04", "Only valid curve points decode, and equality is equality of group elements",
  "Every decoding route (binary, streamed, hexadecimal, serde) accepts exactly the 32-byte strings that describe a point of the curve, yields that point, and rejects everything else with an error, leaving no invalid element behind. Encoding is canonical: two points are equal, order equal and encode identically exactly when they are the same group element, however they were computed; the canonical-encoding and small-order predicates answer exactly per their definitions.",
  ["inputs"], "all byte strings of all lengths, all serialized point structures, and all projective representations of a point",
  "The tests decode a handful of encodings and a list of weak keys; non-canonical, off-curve, wrong-length and representation-dependent cases are not enumerated.",
  [E+"point.rs", E+"ge.rs", E+"fe.rs", "src/group/internal/marshalling/marshal.rs"],
  [("ExtendedGroupElement::set_bytes/write_bytes", E+"ge.rs"), ("Point Eq/Ord/serde, is_canonical, has_small_order", E+"point.rs"), ("WEAK_KEYS, PRIME constants", E+"constants.rs")])

p("C05", "Data embedding in points round-trips and random picks are valid",
  "Embedding data in a point yields a valid curve point in the prime-order subgroup from which exactly the embedded bytes (the data truncated to the advertised capacity) are extracted again, and which survives encoding. Randomly picked points lie in the prime-order subgroup and are a deterministic function of the randomness stream; extracting data from any point either yields at most the advertised number of bytes or an error.",
  ["inputs"], "all data strings of all lengths, all randomness streams and all curve points",
  "The tests embed two fixed strings; lengths around the capacity, empty data, arbitrary bytes and points that embed nothing are not covered.",
  [E+"point.rs", E+"curve.rs"], [("Point::embed/data/embed_len/pick", E+"point.rs")])

p("C06", "Modular integers compute exactly in their ring",
  "For every modulus of at least two and every pair of residues, the modular-integer type's add, subtract, negate, multiply, divide (by invertible residues), invert, exponentiate, set and compare operations yield the mathematically correct residue, reduced to the range from zero to modulus minus one. The Jacobi symbol equals the reference value, and a square root exists in the result exactly when the operand is a square modulo a prime, in which case its square is the operand.",
  ["inputs", "histories"], "all moduli (small, word-boundary, large, prime and for ring operations composite), all operands including negative and oversized, all receiver states",
  "The tests use four or five fixed constants, so sign handling, negative inputs, division, exponentiation with a distinct receiver and non-residues are never exercised.",
  ["src/group/integer_field/integer.rs"],
  [("Int arithmetic (add, sub, mul, div, inv, exp, jacobi, sqrt, set_int64, set_string)", "src/group/integer_field/integer.rs")])

p("C07", "Modular integers encode to fixed width in either byte order and round-trip",
  "A modular integer encodes to exactly the byte length of its modulus in its byte order, and decoding returns an equal value; out-of-range or wrong-length encodings are rejected with an error. Encodings padded to a requested minimum are the value's bytes padded with zeros to that length, and hexadecimal, streamed and serialized forms round-trip too.",
  ["inputs", "configurations"], "all moduli, all residues including ones with leading zero bytes, both byte orders, all requested lengths",
  "The tests use values that fill the whole width in big-endian order; leading-zero values and little-endian width are never seen.",
  ["src/group/integer_field/integer.rs", "src/encoding/encodings.rs"],
  [("Int::{little_endian,big_endian,marshal_binary,unmarshal_binary,marshal_to,unmarshal_from}", "src/group/integer_field/integer.rs")])

p("C08", "EdDSA keys and signatures are exactly RFC 8032 Ed25519",
  "For every seed and message, key derivation and signing produce byte for byte the public key and signature that RFC 8032 Ed25519 specifies, signing is deterministic, and the signature verifies. Key material round-trips through its 64-byte encoding, and a signer built from any key pair keeps its nonces secret: they depend on secret data and on the message.",
  ["inputs"], "all 32-byte seeds, all messages of all lengths (hash-block boundaries included), all key pairs",
  "The tests replay the fixed RFC vector file, which a defect depending on other seeds, clamping bits or message lengths passes.",
  ["src/sign/eddsa/eddsa_sig.rs", E+"curve.rs"],
  [("EdDSA::new/sign/marshal_binary/unmarshal_binary, From<Pair>", "src/sign/eddsa/eddsa_sig.rs"), ("Curve::new_key_and_seed", E+"curve.rs")])

p("C09", "Schnorr signatures by the key holder always verify, under EdDSA rules too",
  "For every key pair and message, a Schnorr signature verifies under the matching public key, and the same signature is accepted by the EdDSA verifier; a valid EdDSA signature is accepted by the Schnorr verifier. Two signatures made with fresh randomness never reuse a nonce, and each satisfies the Schnorr verification equation of an independent implementation.",
  ["inputs"], "all private keys, all messages of all lengths",
  "The tests sign a constant message with one or a few random keys.",
  ["src/sign/schnorr/schnorr_sig.rs", "src/sign/eddsa/eddsa_sig.rs"],
  [("schnorr::sign/verify, challenge hash", "src/sign/schnorr/schnorr_sig.rs"), ("eddsa::verify", "src/sign/eddsa/eddsa_sig.rs")])

p("C10", "Signature verification rejects every altered, malleable or malformed signature",
  "Verification by the EdDSA and Schnorr verifiers succeeds only for the exact message, key and signature encoding that was signed: any change to a message, signature or key byte, a scalar shifted by a multiple of the group order, a non-canonical or small-order key or nonce commitment, or a wrong length is rejected. Verification returns success exactly when an independent implementation of the strict verification rules does, and never crashes.",
  ["inputs"], "all (key, message, signature) triples, in particular all mutations of valid ones, all encodings of small-order points and crafted torsion-component signatures",
  "The tests flip one byte or use one malleability vector; the space of accepted-by-mistake triples is unbounded.",
  ["src/sign/eddsa/eddsa_sig.rs", "src/sign/schnorr/schnorr_sig.rs", "src/sign/dss/dss_sig.rs", E+"point.rs", E+"scalar.rs"],
  [("verify_with_checks, canonicity and small-order checks", "src/sign/eddsa/eddsa_sig.rs and src/sign/schnorr/schnorr_sig.rs"), ("dss::verify", "src/sign/dss/dss_sig.rs")])

p("C11", "Any threshold of private shares recovers exactly the shared secret",
  "For every polynomial of every threshold, a share is the polynomial evaluated at one plus the share index, and recovery from any list of shares containing at least threshold distinct present indices, in any order, with gaps, absentees or extra shares, returns exactly the secret (and the polynomial). With fewer distinct shares recovery is an error, never a wrong secret; adding and multiplying polynomials agree with adding and multiplying their evaluations.",
  ["inputs", "configurations"], "all thresholds and share counts, all coefficient values, all subsets, orders and duplications of shares",
  "The tests use one (n, t) pair with random coefficients and remove the first shares; arbitrary subsets, sparse indices, threshold one and duplicates are not covered.",
  ["src/share/poly.rs"], [("PriPoly::{eval,shares,add,mul,coefficients}, recover_secret, recover_pri_poly, xy_scalar, minus_const, lagrange_basis", "src/share/poly.rs")])

p("C12", "Public commitment polynomials commit to exactly the private polynomial",
  "For every private polynomial and base point, evaluating its commitment at any index gives the commitment of the share at that index, share checking accepts exactly the correct share, and recovery from any threshold of distinct public shares, in any order or subset, returns exactly the committed secret (and the polynomial), and is an error with fewer. Commitments add homomorphically, and equality holds exactly for equal polynomials of equal length.",
  ["inputs", "configurations"], "all thresholds, indices, bases, coefficient values, share subsets and orders, including empty and differing-length commitments",
  "The tests use one threshold with contiguous shares and compare equal-length polynomials only.",
  ["src/share/poly.rs"], [("PubPoly::{eval,check,add,equal,info}, recover_commit, recover_pub_poly", "src/share/poly.rs")])

p("C13", "Key exchange agrees and derived-key encryption is standard and authenticated",
  "Both sides of a Diffie-Hellman exchange compute the same point for every pair of keys; key derivation, context hashing and sealing produce exactly the output of standard HKDF-SHA256 and AES-256-GCM on the documented inputs. Opening returns the sealed plaintext only for the same key, nonce, additional data and ciphertext; any alteration or truncation is an error.",
  ["inputs"], "all keys, contexts, plaintexts and nonces, all alterations and all buffer lengths",
  "The tests use constant vectors and one round trip.",
  ["src/dh/dh_impl.rs"], [("dh_exchange, hkdf, AEAD seal/open, context", "src/dh/dh_impl.rs")])

p("C14", "ECIES decrypts exactly what was encrypted and rejects everything else",
  "For every message of every length and every key pair, decrypting an encryption with the matching private key returns the message, repeated encryptions differ, and the ciphertext is the documented ephemeral-key construction. Decryption of an altered, truncated, extended, arbitrary or wrongly addressed ciphertext is an error and never a panic or a wrong message.",
  ["inputs"], "all messages, keys and ciphertext byte strings",
  "The tests round-trip one constant message and try one wrong key and one corrupted ciphertext.",
  ["src/encrypt/ecies/ecies_impl.rs"], [("ecies::encrypt/decrypt/derive_key", "src/encrypt/ecies/ecies_impl.rs")])

p("C15", "The extendable-output cipher depends only on total input, not on call pattern",
  "The stream an extendable-output function produces is the standard keyed-less hash stream of everything absorbed, however writes and reads are chunked; cloning forks an independent identical state, reseeding absorbs the next key-size bytes of output, and stream encryption is the XOR of the data with the stream and therefore its own inverse. No sequence of supported calls panics or loops.",
  ["histories", "inputs"], "all sequences of write, read, xor, clone, reseed and flush calls with all chunk sizes",
  "The tests use one call pattern per feature; interactions across the internal buffer boundaries and states are not explored.",
  ["src/xof/blake3/xof.rs", "src/xof/traits.rs", "src/cipher/stream.rs", E+"suite.rs"],
  [("Blake3 Xof new/write/read/xor_key_stream/reseed/clone", "src/xof/blake3/xof.rs")])

p("C16", "Randomness utilities honour bounds and sources, and key pairs are consistent",
  "Random integers are below their bound and derived from exactly the stream given; random bit strings respect the requested length and exact top bit; mixed randomness streams are a deterministic function of all their readers, change when any reader changes, and fail loudly when all sources fail instead of returning predictable output. Every generated key pair satisfies public = private times base, with private keys derived by the documented rule, and equal streams give equal keys.",
  ["inputs", "fault_sequences"], "all bounds, bit lengths, stream contents, numbers of readers and patterns of short or failing readers",
  "The tests draw a few values from system randomness, where a bias, a dropped reader or a swallowed stream failure is invisible.",
  ["src/util/random/random_stream.rs", "src/util/key/key_pair.rs", "src/random.rs", E+"curve.rs"],
  [("bits, random_int, RandStream::xor_key_stream", "src/util/random/random_stream.rs"), ("Pair::gen, new_key_pair", "src/util/key/key_pair.rs"), ("new_key_and_seed", E+"curve.rs")])

p("C17", "A secret-sharing verifier approves exactly the valid deals from its dealer",
  "In both verifiable-secret-sharing variants, for every number of participants and threshold, an honest dealer's encrypted deal is accepted and approved by the participant it addresses and by no one else. A deal whose share, index, threshold, commitments or session do not match gets a complaint or an error and never an approval; a deal with altered ciphertext, nonce, ephemeral key or signature is an error.",
  ["inputs", "configurations", "fault_sequences"], "all participant counts, thresholds, secrets and participants, all single-field deal corruptions by a dishonest dealer and all transport alterations",
  "The tests use one committee size and a few hand-picked corruptions of one verifier's deal.",
  ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs"],
  [("Verifier::process_encrypted_deal, decrypt_deal, Aggregator::verify_deal", "src/share/vss/pedersen/vss.rs and src/share/vss/rabin/vss.rs")])

p("C18", "Deal certification is decided exactly by the recorded responses",
  "For every sequence of responses, justifications and timeouts, in any order, a response is recorded exactly when it is authentic, for this session, from a known participant and its first; everything else is an error that changes nothing. A participant that knows the deal reports it certified exactly when there is no proven dealer misbehaviour, at least threshold approvals, and in the Pedersen variant no open complaint and nobody unheard before the timeout (afterwards at most n minus t), in the Rabin variant nobody unheard (its timeout counts the unheard as complaints) - independently of the order in which messages arrived.",
  ["histories", "schedules", "fault_sequences"], "all histories of authentic, duplicated, forged, replayed and out-of-range responses from all subsets of participants, interleaved with timeouts, for all committee sizes and thresholds",
  "The tests feed a few fixed response sequences; the certification rule is a function of the whole history.",
  ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs"],
  [("Aggregator::verify_response/add_response/deal_certified/set_timeout", "src/share/vss/pedersen/vss.rs"), ("Aggregator::enough_approvals/clean_verifiers/deal_certified", "src/share/vss/rabin/vss.rs")],
  state=[("responses", "recorded response per participant", "Aggregator"), ("bad_dealer", "dealer proven to have misbehaved", "Aggregator")])

p("C19", "Complaints are resolved: honest dealers are exonerated, cheaters exposed",
  "When a participant complains, an honest dealer's justification is accepted by every participant and turns the complaint into an approval, so that the deal can still be certified; a justification revealing a deal that does not verify marks the dealer as bad and the deal is never certified afterwards. A justification from someone else, for another session, for a participant that did not complain, or for another participant's share is rejected and changes nothing.",
  ["histories", "fault_sequences"], "all sets of complainers, all valid and invalid justifications, in all orders relative to the responses",
  "The tests check one complaint and one altered justification and do not look at the certification outcome.",
  ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs"],
  [("Dealer::process_response, Verifier::process_justification, Aggregator::verify_justification", "src/share/vss/pedersen/vss.rs and src/share/vss/rabin/vss.rs")])

p("C20", "Any threshold of certified deals reconstructs the dealer's secret",
  "After an honest sharing, every participant's deal opens to a share consistent with the dealer's public commitments, and any threshold-sized or larger subset of deals, in any order, reconstructs exactly the dealer's secret. Fewer deals, duplicates in place of distinct deals, or deals from different sessions give an error, never a wrong secret.",
  ["inputs", "configurations", "histories"], "all committee sizes, thresholds, secrets, subsets and orders of deals",
  "The tests reconstruct from all deals of one committee size.",
  ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/poly.rs"],
  [("recover_secret, Dealer::secret_commit, minimum_t", "src/share/vss/pedersen/vss.rs and src/share/vss/rabin/vss.rs")])

p("C21", "Distributed key generation (Pedersen) gives all honest nodes one key",
  "For every committee size, threshold and message order, with any tolerated set of absent dealers and dealers that send invalid or missing deals or leave complaints unanswered (responses reaching everyone), honest nodes that finish agree on the qualified set and on the same public key and commitments, and each node's share lies on the committed polynomial. Any threshold of shares reconstructs the one private key matching the public key, which equals the sum of the qualified dealers' secrets; a node whose protocol is not certified gets an error, not a key.",
  ["configurations", "schedules", "fault_sequences", "histories"], "all committee sizes and thresholds, all delivery orders and duplications of deals, responses and justifications, all tolerated fault patterns",
  "The tests run one committee of five to seven nodes with in-order delivery and one fault scenario.",
  ["src/share/dkg/pedersen/dkg.rs", "src/share/dkg/pedersen/structs.rs"],
  [("DistKeyGenerator::{deals,process_deal,process_response,process_justification,certified,qual,dist_key_share}", "src/share/dkg/pedersen/dkg.rs")])

p("C22", "Distributed key generation (Rabin) gives all honest nodes one key",
  "For every committee size, threshold and message order, with any tolerated set of absent or cheating dealers, honest nodes that finish agree on the qualified set and the same public key, and any threshold of their shares reconstructs the private key matching it. A qualified dealer that later falsifies its public commitments is exposed by a complaint and its contribution is reconstructed, so the key is still the sum over the qualified set; unfounded complaints are rejected and a node that still lacks commitments gets an error, not a key.",
  ["configurations", "schedules", "fault_sequences", "histories"], "all committee sizes and thresholds, all delivery orders, all tolerated fault patterns in the sharing and in the commitment phase",
  "The tests run one committee size in order with a single hand-made complaint.",
  ["src/share/dkg/rabin/dkg.rs"],
  [("DistKeyGenerator::{process_deal,process_response,secret_commits,process_secret_commits,process_complaint_commits,process_reconstruct_commits,finished,dist_key_share}", "src/share/dkg/rabin/dkg.rs")])

p("C23", "Resharing hands the same key to a new committee and threshold",
  "For every pair of old and new committees (disjoint, overlapping or equal) and thresholds, a completed resharing leaves the public key unchanged and gives the new committee's members shares of a new polynomial of the new threshold, any new-threshold of which reconstructs the same private key. A dealer whose contribution does not match its old share is never counted as qualified, and tolerated absences do not change the outcome.",
  ["configurations", "schedules", "fault_sequences"], "all old and new committee sizes, overlaps and thresholds, all delivery orders and tolerated faults",
  "The tests reshare a few fixed committee shapes with everyone honest or one absent.",
  ["src/share/dkg/pedersen/dkg.rs", "src/share/vss/pedersen/vss.rs"],
  [("new_dist_key_handler, process_resharing_response, resharing_key", "src/share/dkg/pedersen/dkg.rs")])

p("C24", "Renewing shares keeps the distributed key and changes every share",
  "Adding to each share the matching share of a distributed sharing of zero leaves the public key unchanged, keeps every share consistent with the renewed commitments, and any threshold of renewed shares reconstructs the original private key. Renewal with a sharing of a non-zero secret, for a different share index, or of incompatible size is an error and leaves the share unchanged.",
  ["inputs", "configurations", "histories"], "all committee sizes and thresholds, repeated renewals, all mismatching renewals",
  "The tests renew once for one committee.",
  ["src/share/dkg/pedersen/structs.rs"], [("DistKeyShare::renew", "src/share/dkg/pedersen/structs.rs")])

p("C25", "Threshold signing yields one standard signature from any threshold of signers",
  "For every committee, threshold, message and order of arrival, once any threshold of valid distinct partial signatures is processed the combined signature is an ordinary Ed25519 signature valid under the distributed public key, identical for every signer and subset. Fewer partials give an error; duplicate, altered, wrongly signed, wrong-session or outsider partials are rejected and leave the state unchanged.",
  ["configurations", "histories", "fault_sequences"], "all committee sizes and thresholds, all messages, all subsets and orders of partial signatures and all alterations",
  "The tests combine partials of one committee in order with a few hand-made bad partials.",
  ["src/sign/dss/dss_sig.rs"], [("DSS::{partial_sig,process_partial_sig,enough_partial_sig,signature}, session id", "src/sign/dss/dss_sig.rs")])

p("C26", "Hostile bytes and messages are rejected with errors, never a crash or a hang",
  "Whatever bytes or structurally well-formed but malicious protocol messages a peer supplies (arbitrary indices, thresholds, empty or oversized lists, missing parts, non-canonical elements), every decoding, verifying and message-processing entry point returns normally with success or an error. It never panics, never loops, and after an error keeps working for subsequent honest messages.",
  ["inputs", "histories", "fault_sequences"], "all byte strings for every decoder and all well-typed protocol messages with arbitrary field values, in every protocol state",
  "The tests send well-formed messages and a few fixed corruptions only.",
  ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/encrypt/ecies/ecies_impl.rs", "src/sign/dss/dss_sig.rs", "src/sign/eddsa/eddsa_sig.rs", "src/sign/schnorr/schnorr_sig.rs", E+"point.rs", "src/encoding/encodings.rs"],
  [("input validation in decode and process_* entry points", "all listed files")])

p("C27", "Serialized objects and mid-protocol state resume exactly",
  "Every serializable object (points, scalars, polynomials, shares, deals, responses, justifications, key pairs, partial signatures, dealer, verifier and key-generation state) decodes from its serialized form to an equal object. A protocol participant that is saved and restored between any two protocol steps behaves from then on exactly as if it had not been interrupted.",
  ["crash_points", "histories", "inputs"], "all object values and all points of a protocol run at which any subset of participants is saved and restored",
  "The tests serialize a few objects and never continue a protocol from a restored state.",
  ["src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/poly.rs", E+"point.rs", E+"scalar.rs", "src/util/key/key_pair.rs"],
  [("serde and binary marshaling implementations", "all listed files")])

p("C28", "Altered, misattributed or replayed protocol messages are rejected without effect",
  "Any alteration of any authenticated field of a deal, response, justification-bearing message, secret commitment, complaint, reconstruction or partial signature, any replay of a message other than a deal into another session, and any message attributed to someone else is rejected with an error. Rejection leaves the receiver's state and its later results unchanged, so that the honest message is still accepted afterwards.",
  ["fault_sequences", "histories", "inputs"], "all message types, all fields and all alterations, all cross-session and cross-sender substitutions, at all protocol states",
  "The tests alter one field of some message types once and rarely look at the state afterwards.",
  ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/sign/dss/dss_sig.rs"],
  [("message hashes and signature checks", "all listed files"), ("session identifiers", "src/share/vss/*/vss.rs and src/sign/dss/dss_sig.rs")])

p("C29", "Formatting for logs never reveals secret material",
  "The Display and Debug renderings of key pairs, signing keys, secret shares, secret polynomials, deals, dealers, verifiers, key-generation states and configurations, distributed key shares and signers never contain the secret scalars they hold, in any encoding, and neither do the errors that their operations return. Renderings of public values are unaffected.",
  ["inputs", "histories"], "all secret values and all protocol states of all secret-holding types",
  "The tests print nothing and search for nothing.",
  ["src/share/poly.rs", "src/util/key/key_pair.rs", "src/sign/dss/dss_sig.rs", "src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/pedersen/structs.rs", "src/share/dkg/rabin/dkg.rs"],
  [("hand-written Debug/Display implementations that omit secrets", "all listed files")])

p("C30", "Secrets, nonces and ephemeral keys are fresh and come from the set source",
  "Every dealing, key generation, resharing, signature, encryption and key pair draws new independent secret values: no polynomial coefficient, contribution, signing nonce or ephemeral key ever repeats, is predictable from public values, or coincides with a long-term key. A node's contribution to key generation comes from exactly the entropy source it was configured with when that source is exclusive, and otherwise always includes system randomness. When the randomness source fails, the operation fails too and nothing is produced without randomness.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all keys, messages, committee sizes and thresholds, repeated operations in one process, all points of failure of the random source",
  "The tests never compare the randomness of two operations and never let a random source fail inside a protocol.",
  ["src/sign/schnorr/schnorr_sig.rs", "src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/encrypt/ecies/ecies_impl.rs", "src/util/random/random_stream.rs", "src/util/key/key_pair.rs", "src/share/poly.rs"],
  [("schnorr::sign", "src/sign/schnorr/schnorr_sig.rs"), ("new_dealer, encrypted_deal", "src/share/vss/pedersen/vss.rs and src/share/vss/rabin/vss.rs"), ("new_dist_key_handler, Config::reader", "src/share/dkg/pedersen/dkg.rs"), ("new_dist_key_generator", "src/share/dkg/rabin/dkg.rs"), ("encrypt", "src/encrypt/ecies/ecies_impl.rs"), ("RandStream", "src/util/random/random_stream.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
