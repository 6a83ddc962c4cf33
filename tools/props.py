"""The properties, one call of P per property."""
PROPS = []
NA = {
    "X01": "the arithmetic of bn/rust.rs is num-bigint's and glass_pumpkin's: equivalence of multi-word multiplication, division and modular exponentiation at the sizes used is out of reach of a SAT or SMT solver (not attempted), and the module is what the CL shim replaces; its conversions are one-line delegations",
    "X02": "the FFI is pointer and handle marshalling around functions decided above; the symbolic values live in the arithmetic crates below libursa and cannot be passed as the C strings, JSON and raw bytes that this layer exchanges; a bit-level encoding of it would have to include serde_json and the cryptography underneath, which is out of reach (not attempted)",
    "X03": "the wrappers delegate everything but length checks to libsecp256k1, ed25519-dalek and x25519-dalek; the exactness claimed is that of those crates, whose curve arithmetic does not bit-blast, and an ideal stand-in would leave nothing of the repository's own to decide",
    "X04": "wasm_bindgen's glue needs the wasm32 target and a JavaScript engine, neither of which is installed",
}


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append(d)


SH = "ursa_sharing/src/"
P("S01", "Shamir: any threshold-sized set of shares reconstructs the secret",
  "For every threshold and limit, every nonzero secret and every random polynomial, any set of at least threshold distinct shares, in any order, combines to exactly the secret, both for field values and for shares lifted into a group. Combining arbitrary shares with distinct identifiers yields the value at zero of the interpolating polynomial.",
  ["inputs", "configurations"], "all secrets, polynomials and x coordinates; every threshold/limit, subset and order within the bound",
  "Tests combine a few random sharings in index order; a coefficient, sign or index slip for particular subsets or orders stays hidden.",
  [SH + "shamir.rs", SH + "lib.rs"], [("split_secret / get_shares_and_polynomial", SH + "shamir.rs"), ("interpolate", SH + "shamir.rs"), ("Polynomial::evaluate", SH + "lib.rs")],
  ["Scheme::split_secret", "Scheme::combine_shares"])
P("S02", "Shamir: malformed share sets are refused",
  "Combining never returns a value for a set with fewer shares than the threshold, with a repeated identifier at any positions, or with identifier zero. Splitting refuses exactly the zero secret.",
  ["inputs", "configurations"], "all share values, every position of the defect",
  "Tests try one duplicate and one short set.",
  [SH + "shamir.rs"], [("combine", SH + "shamir.rs")], ["Scheme::combine_shares", "Scheme::split_secret"])
P("S03", "Threshold secrecy: fewer than threshold shares leave the secret undetermined",
  "Whatever values the shares of any threshold-minus-one participants take, every nonzero secret is consistent with them (with the blinding shares and published commitments too, for Pedersen sharing).",
  ["inputs", "configurations"], "all views, all secrets, every coalition of size threshold-1",
  "Tests cannot observe secrecy: a constant or reused coefficient changes no test result.",
  [SH + "shamir.rs", SH + "pedersen.rs", SH + "lib.rs"], [("Polynomial::init", SH + "lib.rs"), ("Pedersen split_secret", SH + "pedersen.rs")])
P("S04", "Verifiable sharing: every honestly dealt share verifies",
  "Every share dealt by Feldman or Pedersen sharing passes verification against the published verifier, for supplied and for drawn generators, and verified shares combine to the secret; the first Feldman commitment is the secret times the published generator.",
  ["inputs", "configurations"], "all secrets, coefficients, generators; every threshold/limit within the bound",
  "Tests run fixed thresholds with random values.",
  [SH + "feldman.rs", SH + "pedersen.rs"], [("verify_share", SH + "feldman.rs"), ("verify_share", SH + "pedersen.rs")])
P("S05", "Verifiable sharing: a share is accepted exactly when the commitments open to it",
  "Verification accepts a nonzero share if and only if it satisfies the commitment equation at its identifier, for arbitrary commitments and shares; a verifier whose number of commitments is not the threshold accepts nothing, nor is a blinding share accepted next to a share of another identifier. Accepted Feldman shares combine to the committed secret.",
  ["inputs", "configurations"], "all shares, commitments, generators",
  "Tests alter one share; they cannot rule out other accepted forgeries such as truncated verifiers.",
  [SH + "feldman.rs", SH + "pedersen.rs"], [("verify_share", SH + "feldman.rs"), ("verify_share", SH + "pedersen.rs")])
P("S06", "Sharing types survive serialisation",
  "Encoding and decoding a share or a Feldman/Pedersen verifier gives back an equal value, and shares verify against a decoded verifier.",
  ["inputs", "configurations"], "all values, every threshold/limit within the bound",
  "No test serialises a verifier or calls the share encoder.",
  [SH + "lib.rs", SH + "shamir.rs", SH + "feldman.rs", SH + "pedersen.rs"], [("Share::to_bytes / try_from", SH + "shamir.rs"), ("FeldmanVerifier::to_bytes / try_from", SH + "feldman.rs"), ("PedersenVerifier::to_bytes / try_from", SH + "pedersen.rs")])

P("S07", "libursa sharing: any threshold of shares recovers the secret, fewer tell nothing",
  "Splitting a secret with threshold t among n gives shares numbered from one of which any t or more, in any order, combine to the secret (as a number; a share that happens to be zero included), and any t-1 of which occur with the same probability for every secret; replacing a share of an exact threshold set changes the result. A secret is refused when it lies outside the field, is empty, when t < 2, n < t, or when the field has no more elements than there are shares (so that no share is the secret); combining refuses fewer than two shares, zero and repeated identifiers. Shares survive their encoding and an empty encoding is refused.",
  ["inputs", "configurations"], "all secrets, coefficients, replaced values; every threshold/limit and every set of shares within the bound",
  "Tests use one secret, two fields and one or two thresholds; a share is zero or a field small in none of them, and none looks at what t-1 shares tell.",
  ["libursa/src/sharing/shamir.rs"], [("split_secret", "libursa/src/sharing/shamir.rs"), ("combine_shares", "libursa/src/sharing/shamir.rs"), ("Share::from_bytes", "libursa/src/sharing/shamir.rs")])

PS = "libzmix/src/signatures/ps/"
P("P01", "PS signatures: only the key holder signs, exactly the signed messages verify",
  "A signature made with a key pair verifies on the signed messages and on no other message vector and under no other key; an arbitrary signature, key and message vector is accepted exactly when both elements are non-identity and the pairing equation holds; a wrong number of messages is an error.",
  ["inputs", "configurations"], "all messages, keys, randomness, forged signatures; every message count within the bound",
  "Tests sign random vectors and check the honest case; a skipped message, an omitted identity check or swapped base passes them.",
  [PS + "signature.rs", PS + "keys.rs"], [("Signature::new/verify", PS + "signature.rs"), ("keygen", PS + "keys.rs")])
P("P02", "PS blind signing: the unblinded signature covers hidden and known messages",
  "For every split into hidden and known messages the unblinded signature verifies on the whole vector and on no other one; a wrong blinding factor does not unblind; what is signed is exactly the committed point plus the known messages.",
  ["inputs", "configurations"], "all messages, keys, blindings, requester commitments; every split within the bound",
  "Tests use one split with random values.",
  [PS + "blind_signature.rs"], [("BlindSignature::new/new_from_paper/unblind", PS + "blind_signature.rs")])
P("P03", "Proofs of knowledge of a vector commitment are complete, sound and transportable",
  "An honest proof verifies (with and without nonce), a proof is accepted exactly when the Schnorr equation holds, two accepting transcripts with one commitment and different challenges give an opening of the commitment, a challenge is derived from the bases, the commitment and the first message, wrong lengths are errors, and decoding an encoded proof gives an equal one.",
  ["inputs", "configurations"], "all bases, secrets, blindings, challenges, nonces, forged proofs; every length within the bound",
  "Soundness and zero-slack acceptance are statements about every forged proof.",
  ["libzmix/src/commitments/pok_vc.rs"], [("impl_PoK_VC!", "libzmix/src/commitments/pok_vc.rs")])
P("P04", "PS presentation: proofs convince exactly for signatures on revealed messages",
  "For every subset of revealed messages an honest proof verifies and fails for any other revealed value; an arbitrary proof is accepted exactly when the protocol equations hold; two accepting transcripts yield a valid signature on a vector containing the revealed messages; the challenge covers every public element; malformed proofs are refused without panicking.",
  ["inputs", "configurations"], "all messages, keys, randomness, forged proofs; every revealed subset within the bound",
  "Tests present one or two subsets honestly; they never try to forge.",
  [PS + "pok_sig.rs"], [("PoKOfSignature::init/gen_proof", PS + "pok_sig.rs"), ("PoKOfSignatureProof::verify", PS + "pok_sig.rs")])
DG = "libzmix/src/signatures/delg_cred_cdd/"
P("D01", "Groth signatures: both verifiers accept exactly the signed messages",
  "Issued and re-randomised signatures verify with the plain and the batched verifier; an arbitrary signature is accepted by either exactly when every pairing equation holds (batched: up to the negligible chance of its random combination); wrong numbers of messages are errors; proofs of knowledge of a signing key are complete and sound.",
  ["inputs", "configurations"], "all messages, keys, setup parameters, forged signatures; every message count within the bound",
  "The batched check differs from the plain one only on forged signatures whose errors cancel.",
  [DG + "groth_sig.rs"], [("verify / verify_batch", DG + "groth_sig.rs"), ("prepare_for_pairing_checks", DG + "groth_sig.rs")])
P("D02", "Delegation: both verifiers accept exactly unbroken chains under the root key",
  "Every honestly delegated chain verifies with both chain verifiers; a chain is accepted exactly when each link holds the delegatee key, has the right level and satisfies every signature equation under its delegator's key; chains only extend by the next level; malformed chains give errors.",
  ["inputs", "configurations", "histories"], "all attributes, keys, signatures (honest and forged); every chain length and attribute count within the bound",
  "A chain whose errors cancel across links needs an adversary; tests build honest chains.",
  [DG + "issuer.rs", DG + "groth_sig.rs"], [("CredChain::verify_delegations / _batched", DG + "issuer.rs"), ("extend_with_odd/even", DG + "issuer.rs")])
P("D03", "Attribute tokens: complete, bound to revealed attributes, recomputed exactly",
  "For every chain and every revealed subset the verifier recomputes the prover's commitment, with and without precomputation and after transport, so the challenge matches; for arbitrary tokens the recomputed values are the protocol's; a changed revealed attribute changes the challenge; every part of the commitment enters the challenge; malformed tokens are refused without panicking.",
  ["inputs", "configurations"], "all attributes, keys, blindings, tokens; every chain length and revealed subset within the bound",
  "Tests reveal a couple of subsets in memory; one order-dependent encoding or one missing term for one level parity is invisible.",
  [DG + "attribute_token.rs"], [("commitment_with_precomputation", DG + "attribute_token.rs"), ("reconstruct_commitment", DG + "attribute_token.rs"), ("AttributeTokenComm::to_bytes", DG + "attribute_token.rs")])

BP = "libzmix/bulletproofs_amcl/src/"
P("R01", "Inner-product argument: honest ones verify, accepted ones satisfy the equation",
  "For all vectors of equal power-of-two length, generators and factors, the argument the prover makes verifies. An arbitrary argument is accepted exactly when its final scalars satisfy the folded commitment equation under challenges that bind every earlier message; an argument with the wrong number of rounds, unequal rounds, or zero length is an error, never a panic.",
  ["inputs", "configurations"], "all vectors, generators, factors, arbitrary arguments; every power-of-two length within the bound",
  "Tests prove one random vector per size; a missing challenge, swapped cross term or ignored round passes only when altered proofs are tried at every position.",
  [BP + "ipp.rs", BP + "transcript.rs"], [("IPP::create_ipp / verify_ipp / verification_scalars", BP + "ipp.rs"), ("TranscriptProtocol", BP + "transcript.rs")],
  ["IPP::create_ipp", "IPP::verify_ipp"])
P("R02", "R1CS proofs: satisfied circuits prove and verify, nothing else is accepted",
  "For circuits with committed variables, multipliers, linear constraints and randomised second-phase constraints, the proof of a satisfying assignment verifies for any number of spare generators; a proof made from an assignment that breaks any constraint, or checked against any other circuit, commitment or transcript, is refused; an arbitrary proof is accepted exactly when the verification equation over the challenges that bind each of its elements holds; malformed proofs and short generator vectors are errors, never panics. A linear combination built with any of the operators denotes the value its operands say.",
  ["inputs", "configurations"], "all assignments, blindings, generators, arbitrary proofs; ten circuits of up to four multipliers",
  "Tests prove a handful of gadgets with right witnesses; an element left out of the transcript or a wrong coefficient in delta or the aggregated equation is not observable from them.",
  [BP + "r1cs/prover.rs", BP + "r1cs/verifier.rs", BP + "r1cs/linear_combination.rs", BP + "utils/vector_poly.rs"],
  [("Prover::prove", BP + "r1cs/prover.rs"), ("Verifier::verify", BP + "r1cs/verifier.rs"), ("ConstraintSystem", BP + "r1cs/constraint_system.rs")],
  ["Prover::prove", "Verifier::verify"])
P("R03", "R1CS gadgets: the circuits say exactly what they claim",
  "For each shipped gadget (non-zero, bounds, positive numbers, set membership in both forms, set non-membership, MiMC and Poseidon preimages, 4-ary and 8-ary Merkle tree membership with known or hidden leaf) the prover's and the verifier's functions collect the same circuit; for a true claim the prover's witness satisfies every constraint, and every witness that satisfies the circuit makes the claim true: the value is nonzero, within the bounds, in (or not in) the set, hashes to the image, or folds with its siblings to the root. Claims that are false for the prover's values, wrong numbers of commitments, hash inputs and path elements, and missing blindings are errors, never panics or circuits that prove less.",
  ["inputs", "configurations"], "all secrets, sets, images, round keys, matrices, leaves, siblings, and all witnesses of the verifier's circuit, within the stated sizes",
  "Tests prove true claims with honest witnesses; a constraint that is missing or too weak is visible only to a prover that assigns wires no honest prover would.",
  [BP + "r1cs/gadgets"], [("prove_*/verify_*", BP + "r1cs/gadgets"), ("positive_no_gadget", BP + "r1cs/gadgets/helper_constraints/positive_no.rs"), ("Poseidon_permutation_constraints", BP + "r1cs/gadgets/helper_constraints/poseidon.rs"), ("vanilla_merkle_merkle_tree_4_verif_gadget", BP + "r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs")],
  ["r1cs::gadgets"])
P("R04", "Sparse Merkle trees are authenticated maps",
  "After any sequence of writes to a sparse Merkle tree of arity 4 or 8, every leaf reads as the value last written to it (zero at first), through the current tree and every earlier handle on the same database; its proof has one node per level and verifies under the tree's root; the root depends on the contents only, not on the order or number of writes. An arbitrary value and proof are accepted under a root exactly when they are the leaf's; a proof of another length is not accepted and never panics. A database read that fails makes the operation an error and leaves the tree as it was.",
  ["inputs", "histories", "fault_sequences"], "all leaf values and claimed proofs, every index, every write sequence and failing read within the bound",
  "Tests write random values to consecutive leaves once; overwriting, zeroing, old handles, malformed proofs and failed reads are not exercised.",
  [BP + "r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs", BP + "r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs", BP + "utils/hash_db.rs"],
  [("VanillaSparseMerkleTree4::{update,get,verify_proof}", BP + "r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs"), ("VanillaSparseMerkleTree8::{update,get,verify_proof}", BP + "r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs")],
  ["VanillaSparseMerkleTree4::get", "VanillaSparseMerkleTree4::verify_proof"])

VE = "libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs"
P("V01", "Verifiable encryption decrypts to what was proved, and to nothing once altered",
  "Any messages below n, up to as many as the key supports, encrypted under any label decrypt under that label and key to themselves, also after keys and ciphertexts were stored and read back. A ciphertext in which any part was altered, negated, dropped, repeated, exchanged or taken from another ciphertext, or that is given under another label or private key, is refused. The verifier of a proof of encryption reconstructs the prover's commitments exactly when the responses, challenge, label and every part of the ciphertext are those of the proof; when the commitments of any prover are reconstructed, the ciphertext decrypts, to the messages that the responses are for; too many or too few messages, blindings, responses or parts are errors and never panics.",
  ["inputs"], "all messages, randomness, labels in the list, alterations and provers of the stated form; number of messages within the bound",
  "Tests encrypt and prove random messages honestly; altered ciphertexts, cheating provers and mismatched lengths are not exercised.",
  [VE],
  [("encrypt / decrypt", VE), ("encrypt_and_prove_phase_1 / _2", VE), ("reconstruct_blindings_ciphertext", VE)],
  ["decrypt", "reconstruct_blindings_ciphertext"])

BB = "libzmix/bbs/src/"
P("B01", "BBS+ signatures: signing is complete, verification is exact",
  "For every number of messages, key and messages, a signature the issuer makes verifies on exactly those messages under exactly that key, is A = B/(x+e) with fresh randomness each time, and is refused for any other message or key. An arbitrary signature verifies exactly when it is well-formed (A, e, s nonzero) and satisfies the pairing equation; wrong message counts, public keys with an identity point and zero secret keys are errors.",
  ["inputs", "configurations"], "all messages, keys, randomness, forged signatures; message counts within the bound",
  "Tests sign one to five random messages; a dropped base, an ignored message or an accepted identity point shows only on values tests do not use.",
  [BB + "signature.rs", BB + "keys.rs", BB + "issuer.rs"], [("Signature::new / verify", BB + "signature.rs"), ("PublicKey::validate", BB + "keys.rs")],
  ["Issuer::sign", "Signature::verify"])
P("B02", "BBS+ blind signing: only proved requests are signed, unblinding covers all",
  "For every split of the messages into hidden and known ones, an honest request is accepted, the blind signature covers the commitment and the known messages, and the unblinded signature verifies on all messages and on no others. A request is accepted only when its proof satisfies the relation over the bases of exactly the positions the issuer does not know, under the challenge that binds bases, commitment, random commitment and nonce; two answers to different challenges open the commitment. Positions outside the key are errors, never panics.",
  ["inputs", "configurations"], "all messages, keys, nonces, arbitrary requests; every hidden and known subset within the bound",
  "Tests hide one or two fixed positions with matching nonces; a nonce left out of the hash or a missing base check stays invisible.",
  [BB + "prover.rs", BB + "lib.rs", BB + "issuer.rs", BB + "signature.rs"], [("BlindSignatureContext::verify", BB + "lib.rs"), ("Prover::new_blind_signature_context", BB + "prover.rs"), ("BlindSignature::new", BB + "signature.rs")],
  ["Issuer::blind_sign", "Prover::complete_signature"])
P("B03", "BBS+ proofs of committed values are complete, exact and bound to their challenge",
  "For any bases, secrets, blindings (drawn or given) and challenge, the proof made verifies, draws fresh blindings, and an arbitrary proof verifies exactly when it satisfies the relation; mismatched lengths are errors; the self-contained verification also binds bases, commitment, random commitment and nonce to the challenge.",
  ["inputs", "configurations"], "all bases, secrets, challenges, arbitrary proofs; vector lengths within the bound",
  "Tests use random proofs of five values; reuse of a blinding or an element left out of the hash passes them.",
  [BB + "pok_vc.rs"], [("ProverCommittedG1::gen_proof", BB + "pok_vc.rs"), ("ProofG1::verify / verify_complete_proof", BB + "pok_vc.rs")],
  ["ProofG1::verify"])
P("B04", "BBS+ proofs reveal exactly the requested, signed messages and are sound",
  "For every signature and revealed subset the honest proof is accepted and returns the signed values of exactly the requested positions; prover and verifier derive the same challenge, which depends on every public value, every proof and every claim; the verifier accepts an arbitrary proof exactly when its three relations hold, and two answers to different challenges yield a signature on the revealed messages. A proof for another nonce, for other positions than requested, with altered revealed messages, or malformed is refused, as is every proof under a malformed key; only signed values can be revealed; hidden messages with equal blindings answer equally across proofs; distinct proofs of one signature share no value.",
  ["inputs", "configurations"], "all keys, messages, challenges, arbitrary and adaptively prepared proofs; every revealed and requested subset within the bound",
  "Tests tamper with a few fields of honest proofs; provers who prepare values before the challenge, or answer another request, are outside what they try.",
  [BB + "pok_sig.rs", BB + "prover.rs", BB + "verifier.rs"], [("PoKOfSignature::init", BB + "pok_sig.rs"), ("PoKOfSignatureProof::verify / get_bytes_for_challenge", BB + "pok_sig.rs"), ("Verifier::verify_signature_pok", BB + "verifier.rs")],
  ["Verifier::verify_signature_pok", "Prover::commit_signature_pok"])
P("B05", "BBS+ encodings: every value survives them, truncated encodings are refused",
  "For every public type and value, the compressed form, the uncompressed form, the slice, vector and box conversions and serde (including JSON) give back an equal value with a stable encoding; requested and revealed positions survive for any key size; keys with an identity point, requests naming positions beyond the key and truncated encodings are errors, never panics.",
  ["inputs", "configurations"], "all contents; sizes and positions within the bound; every truncation point",
  "Tests round-trip one random object per type; position bit-vectors at byte boundaries and truncated length fields are not tried.",
  [BB + "lib.rs", BB + "macros.rs", BB + "keys.rs", BB + "pok_sig.rs", BB + "pok_vc.rs", BB + "signature.rs"], [("ProofRequest::from_bytes / SignatureProof::from_bytes", BB + "lib.rs"), ("PublicKey::from_bytes", BB + "keys.rs"), ("serdes_impl!", BB + "macros.rs")],
  ["ToVariableLengthBytes", "TryFrom<&[u8]>"])
P("B06", "BBS+ keys: generators are distinct and bound to key and size; seeds decide keys",
  "For every number of messages a generated key has that many pairwise distinct generators besides h0, never shared with another key; a long key derived from a short key is a function of it whose generators depend on the key, the index and the message count; equal seeds give equal secrets and different seeds different ones; secrets are nonzero and w = x g2; zero messages are refused.",
  ["inputs", "configurations"], "all short keys and secrets; message counts across the one-byte index boundary; a list of seeds",
  "Tests derive five generators; an index truncated to one byte repeats generators only from the 256th on.",
  [BB + "keys.rs"], [("DeterministicPublicKey::to_public_key", BB + "keys.rs"), ("generate_secret_key", BB + "keys.rs")],
  ["DeterministicPublicKey::to_public_key", "generate"])

CLD = "libursa/src/cl/"
P("C01", "CL credential keys need a proof that every base is a power of S",
  "The key an issuer generates, for any schema, comes with a proof that holders accept and has pairwise distinct bases, one per attribute. A key or proof altered anywhere is refused, and a key whose Z or some R_i (other than the master secret's, which the proof exempts) is not the power of S that its maker can prove is refused whatever the maker sends; entries for unknown, missing, repeated or exchanged attributes are refused. Secrets are blinded only under a proved key.",
  ["inputs", "configurations"], "all keys, exponents, proof randomness; alterations of any one or two values; every schema within the bound",
  "Tests verify one generated key; an unchecked base or a challenge that omits a commitment is visible only to adversarial keys.",
  [CLD + "issuer.rs", CLD + "prover.rs"], [("_new_credential_primary_key_correctness_proof", CLD + "issuer.rs"), ("_check_credential_key_correctness_proof", CLD + "prover.rs")],
  ["Issuer::new_credential_def", "Prover::blind_credential_secrets"])
P("C02", "An issued CL signature covers exactly the values, under a fresh prime in range",
  "For every mix of known, hidden and committed attributes the issued signature satisfies A^e S^v Rctxt^m2 prod R^m = Z for the holder's values and for no others; e is a prime of [2^596, 2^596+2^119], v has its full length, every issuance draws new A, e, v; the context is the same for the same holder and index and different for different holders or revocation indices. A value without a base is refused.",
  ["inputs", "configurations"], "all values, keys and randomness; every mix within the bound",
  "Tests issue one credential and present it; a value left out of the signature by both sides passes them.",
  [CLD + "issuer.rs", CLD + "prover.rs"], [("_sign_primary_credential", CLD + "issuer.rs"), ("_gen_credential_context", CLD + "issuer.rs")],
  ["Issuer::sign_credential", "Issuer::sign_credential_with_revoc"])
P("C03", "CL blinded secrets are signed only when proved to be known, for this request",
  "An honest request over any mix of hidden and committed attributes is signed, blinds exactly the hidden ones and commits to exactly the committed ones with fresh randomness. A request altered anywhere, for another nonce, with the proof of another request, with missing, foreign or exchanged parts, with claims other than what was blinded, or over attributes whose values the issuer knows, is refused without panicking.",
  ["inputs", "configurations"], "all secrets, randomness, nonces, adversarial requests; every mix within the bound",
  "Tests issue with honest requests; a response that is not bound, or an attribute missing from the challenge, is exploitable only by crafted ones.",
  [CLD + "issuer.rs", CLD + "prover.rs"], [("_check_blinded_credential_secrets_correctness_proof", CLD + "issuer.rs"), ("_new_blinded_credential_secrets_correctness_proof", CLD + "prover.rs")],
  ["Issuer::sign_credential", "Prover::blind_credential_secrets"])
P("C04", "The holder keeps only a signature that covers its values and that it can present",
  "An honest signature is accepted for its nonce and no other. A signature, proof or non-revocation credential altered anywhere, a signature on other values, with an exponent that is no prime of the range, one that does not satisfy the equation whatever its proof says, or a non-revocation credential of another registry is refused.",
  ["inputs", "configurations"], "all signatures, proofs, keys, nonces; alterations of any one or two values",
  "Tests process honest signatures; a maliciously signed credential shows only when it is presented.",
  [CLD + "prover.rs", CLD + "issuer.rs"], [("_check_signature_correctness_proof", CLD + "prover.rs"), ("_test_witness_signature", CLD + "prover.rs"), ("_new_signature_correctness_proof", CLD + "issuer.rs")],
  ["Prover::process_credential_signature"])
P("C05", "Honest CL presentations are accepted; false predicates cannot be proved",
  "For every revealed subset, every predicate type and bound of the i32 range, one or several credentials and predicates, plain or revocable credentials with any mix of requested non-revocation proofs, and values in their serialised forms, the presentation the library makes (within forty seconds of processor time) is accepted for its nonce, again and again, and rejected for any other nonce. The library's prover refuses every predicate that is false of the attribute.",
  ["inputs", "configurations"], "all attribute values, keys, blindings, nonces; every request within the bound",
  "Tests present a handful of fixed requests; signs, overflows at the ends of the range and rarely used predicate types stay unseen.",
  [CLD + "prover.rs", CLD + "verifier.rs", CLD + "helpers.rs", CLD + "mod.rs"], [("ProofBuilder::finalize", CLD + "prover.rs"), ("ProofVerifier::verify", CLD + "verifier.rs"), ("four_squares / calc_tne / calc_teq", CLD + "helpers.rs")],
  ["ProofBuilder::finalize", "ProofVerifier::verify"])
P("C06", "CL presentations need a signature over the presented values",
  "A presentation by a prover of its own making is accepted exactly when it holds a signature over the revealed and hidden values with an exponent of the right range: values without a signature, signatures with unit exponents, and values shifted by a multiple of the exponent are rejected for any choice of blinding.",
  ["inputs"], "all adversarial values, exponents, blindings; every revealed subset within the bound",
  "Tests present real credentials only; a missing range check on responses is invisible to them.",
  [CLD + "verifier.rs", CLD + "helpers.rs"], [("_verify_equality", CLD + "verifier.rs"), ("calc_teq", CLD + "helpers.rs")], ["ProofVerifier::verify"])
P("C07", "CL revocation: exactly unrevoked credentials are shown as such, in any history",
  "After any history of issuing, revoking and recovering indices, the accumulator holds exactly the indices that are not revoked; a witness that follows every delta, one made late from the merged delta and one made afresh agree; a presentation of non-revocation is accepted exactly when the index is not revoked; a witness from before a change is rejected.",
  ["histories", "configurations"], "every history within the bound, both issuance modes, every index; all keys and values",
  "Tests revoke one or two indices in fixed order; histories such as revoke, recover, revoke with a late witness are not sampled.",
  [CLD + "issuer.rs", CLD + "mod.rs", CLD + "prover.rs", CLD + "verifier.rs"], [("update_revocation_registry", CLD + "issuer.rs"), ("Witness::update", CLD + "mod.rs"), ("RevocationRegistryDelta::merge", CLD + "mod.rs")],
  ["ProofVerifier::verify"], [("accumulator", "product of g'^(gamma^(L+1-i)) over the live indices", CLD + "mod.rs")])
P("C08", "CL registry deltas merge to what happened, in any grouping; bad indices fail",
  "Merging the deltas of any history in any grouping gives the delta of the whole: the accumulators of its ends and exactly the indices that changed; a delta that does not follow is refused and changes nothing; revoking, issuing or witnessing an index outside 1..L is an error that leaves the registry as it was.",
  ["histories", "inputs"], "every history and grouping within the bound; indices 0, L+1 and the largest",
  "Tests merge two fixed deltas.",
  [CLD + "mod.rs", CLD + "issuer.rs", CLD + "helpers.rs"], [("RevocationRegistryDelta::merge", CLD + "mod.rs"), ("get_index", CLD + "issuer.rs")],
  ["RevocationRegistryDelta::merge", "Issuer::revoke_credential"])
P("C09", "CL non-revocation proofs are about the presented credential's signed index",
  "A non-revocation proof made with an altered credential or witness, with parts of another holder's credential, or with an index the issuer did not sign is rejected; a presentation is rejected when the requested non-revocation proof is missing or taken from another presentation.",
  ["inputs"], "all alterations of every part, all keys and values",
  "Tests never combine two credentials into one presentation.",
  [CLD + "prover.rs", CLD + "verifier.rs"], [("_verify_non_revocation_proof", CLD + "verifier.rs"), ("_init_non_revocation_proof", CLD + "prover.rs")], ["ProofVerifier::verify"])
P("C10", "Published revocation data does not let a revoked holder prove non-revocation",
  "For any history that ends with the credential revoked, no witness that is a linear combination of all tails and accumulators ever published is accepted.",
  ["histories", "inputs"], "all combinations of published points, every history within the bound",
  "The missing (L+1)th power of the tails matters only to an adversary who computes with it.",
  [CLD + "issuer.rs", CLD + "mod.rs"], [("RevocationTailsGenerator", CLD + "mod.rs"), ("new_revocation_registry_def", CLD + "issuer.rs")], ["ProofVerifier::verify"])
P("C11", "CL data survive being stored and sent",
  "Whatever the library makes — keys, proofs, blinded secrets, signatures with and without revocation, registries, deltas after any update or merge, witnesses, tails and half-used tails generators, presentations, secrets, nonces — is read back from its JSON form as exactly the same object, and keeps working: histories in which everything is stored and read back at each step end in the same registries, witnesses and accepted or refused presentations. A form with a required field missing, or with a value of another type or out of range, is refused or read as exactly what it says, never as something else, and never stops the program. Keys and presentations in the earlier form, where the master secret has fields of its own, are the same as in the present one.",
  ["inputs", "histories"], "all numbers, points and secrets inside the objects; every field left out or replaced by each of ten other values; every history within the bound",
  "Tests decode a few strings; a field that is skipped, defaulted or renamed on one side shows up only for the object and the state that use it.",
  [CLD + "mod.rs", "libursa/src/bn/openssl.rs", "libursa/src/pair/amcl.rs"], [("CredentialPrimaryPublicKeyV1", CLD + "mod.rs"), ("struct RevocationRegistryDelta", CLD + "mod.rs"), ("struct RevocationTailsGenerator", CLD + "mod.rs")],
  ["Serialize and Deserialize of every public type of ursa::cl"])
P("C12", "CL predicate proofs show the requested predicate of the presented attribute",
  "A prover of its own making passes with the roots of a predicate that holds, and is rejected when its claimed difference is no sum of its four squares, is not the difference of attribute and bound, or belongs to another value, another attribute, another bound or another predicate type; when it changes commitments after the challenge; and when a requested predicate is missing or another one is repeated in its place. The bounds at both ends of the i32 range behave like any other.",
  ["inputs", "configurations"], "all values, roots, blindings; every predicate type against every other at neighbouring bounds",
  "Tests prove true predicates with the library's prover.",
  [CLD + "verifier.rs", CLD + "helpers.rs", CLD + "mod.rs"], [("_verify_ne_predicate", CLD + "verifier.rs"), ("calc_tne", CLD + "helpers.rs"), ("Predicate::get_delta_prime", CLD + "mod.rs")], ["ProofVerifier::verify"])
P("C13", "A CL presentation altered at all, or checked for anything else, is rejected",
  "Altering any value of an honest presentation by any amount, altering two values together, removing, doubling or exchanging parts, or verifying it against another request, key, registry, schema or nonce leads to rejection (an error or false), never to acceptance or a panic.",
  ["inputs", "configurations"], "all amounts at every position; every structural change; every other request within the bound",
  "Tests tamper with a few fields; an element left out of the challenge hash shows only when exactly it is altered in step with another.",
  [CLD + "verifier.rs", CLD + "mod.rs", CLD + "hash.rs"], [("ProofVerifier::verify", CLD + "verifier.rs"), ("_check_verify_params_consistency", CLD + "verifier.rs"), ("get_hash_as_int", CLD + "hash.rs")], ["ProofVerifier::verify"])
P("C14", "Attributes required to be common are shown to be equal across credentials",
  "When a verifier requires a common attribute, a presentation is accepted only if the hidden values agree in all credentials: different values are rejected for any blinding, prepared or copied response; a common attribute that some credential reveals or lacks is rejected; verifying one presentation does not affect the next.",
  ["inputs", "histories"], "all values, blindings and responses; two or more credentials of one or several issuers",
  "Tests link honest credentials by an equal master secret.",
  [CLD + "verifier.rs", CLD + "prover.rs"], [("common_attributes", CLD + "verifier.rs"), ("add_common_attribute", CLD + "prover.rs")], ["ProofVerifier::verify"])
P("N02", "Pairing-layer elements obey the group laws and survive their encodings",
  "Scalars add, subtract, negate, multiply, invert and exponentiate modulo the group order (inverting zero is an error); G1 and G2 are groups on which scalars act linearly, with inf as identity; the pairing is bilinear and its inverse, product and power agree with the exponents; seeds decide elements. Every element decodes from its bytes, string and JSON to itself, and malformed byte strings, strings and JSON (wrong length, digits, field count, points off the curve) are errors, never panics.",
  ["inputs", "configurations"], "all scalars, points and pairing values; malformed encodings from a list",
  "Tests check two or three fixed sums and one round trip; a subtraction that forgets to reduce, or an endless loop on inverting zero, needs an unusual operand.",
  ["libursa/src/pair/amcl.rs"], [("GroupOrderElement / PointG1 / PointG2 / Pair", "libursa/src/pair/amcl.rs")], ["GroupOrderElement", "PointG1", "PointG2", "Pair"])
P("N01", "Big numbers are signed integers, residues a group; both survive encodings",
  "Sums, differences, products, squares, increments, shifts and word operations are exact for numbers of either sign; the order agrees with the sign of the difference; powers with negative exponents are inverses of powers; quotients times divisors and inverses times numbers give back the number, and where no inverse or quotient exists there is an error; copies, decimals, hexadecimals and JSON keep value and sign; drawn numbers and primes lie in their range; hashing several byte strings is hashing their concatenation; malformed strings are errors, never panics or prefixes.",
  ["inputs", "configurations"], "all integers of 300 bits and either sign, all residues and exponents",
  "Tests compute with a few positive numbers; a dropped sign or a truncated word shows only in signed or large operands.",
  ["libursa/src/bn/openssl.rs"], [("BigNumber", "libursa/src/bn/openssl.rs")], ["BigNumber"])
EN = "libursa/src/encryption/"
P("E01", "Authenticated encryption returns exactly what was encrypted, or an error",
  "For every cipher on offer, every key, nonce, associated data and message: decrypting what was encrypted gives the message, through the plain, nonce-in-front, stream and dynamic interfaces alike, which agree with each other; a nonce that the library draws is the one it puts in front. Any other nonce, associated data or ciphertext (changed, extended or cut short), and any other authentication key, is refused. Strings of any length that were not encrypted, and keys and nonces of a wrong length, are errors and never panics; the names of ciphers state the sizes of their keys and nonces.",
  ["inputs"], "all bytes of keys, nonces, associated data, messages, alterations and strings of the lengths in the table",
  "Tests encrypt a few fixed messages and flip no byte; short messages, truncated strings, wrong lengths and associated data that is not bound never appear.",
  [EN + "symm/mod.rs", EN + "symm/aescbc.rs", EN + "symm/aesgcm.rs", EN + "symm/chacha20poly1305.rs", EN + "symm/xchacha20poly1305.rs"],
  [("SymmetricEncryptor", EN + "symm/mod.rs")], ["SymmetricEncryptor::encrypt", "SymmetricEncryptor::decrypt"])
P("L01", "BLS (BN254): accepted exactly for the signer's key, message and generator",
  "What a key signs is accepted for its message under its verification key and generator, deterministically and after every encoding; a multiple of the message's point is accepted exactly when its factor is the secret key; a signature on one message, or any combination of signatures on other messages, of the proof of possession and of the forger's own signatures, is accepted for no other; the neutral element is no key and signs nothing. Seeds decide keys; byte strings of wrong length are errors.",
  ["inputs"], "all secret keys, generators, forgeries of the stated form; messages from a list of lengths",
  "Tests verify one signature on one message and reject one other; a key or message that is not bound shows only for chosen values.",
  ["libursa/src/bls/mod.rs"], [("Bls::verify", "libursa/src/bls/mod.rs"), ("_verify_signature", "libursa/src/bls/mod.rs")], ["Bls::sign", "Bls::verify"])
P("L02", "BLS multi-signatures need every signer; proofs of possession need the secret",
  "The sum of all named signers' signatures is accepted in any order; it is rejected when a signer is left out, named twice, added, or signed another message, when a share is missing, doubled or altered; arbitrary shares are accepted exactly when they sum to the named keys' secrets, and never for keys that sum to the neutral element or for no keys. A proof of possession is accepted exactly for the secret of its key and generator, cannot be made for a key computed from other signers' keys, and is exchangeable with no signature.",
  ["inputs", "configurations"], "all secrets, shares and coefficients; every choice of signer within the bound",
  "Tests aggregate two honest signatures; rogue keys, cancelling keys and an empty list of signers are never tried.",
  ["libursa/src/bls/mod.rs"], [("MultiSignature::new", "libursa/src/bls/mod.rs"), ("Bls::verify_multi_sig", "libursa/src/bls/mod.rs"), ("ProofOfPossession::new", "libursa/src/bls/mod.rs")], ["Bls::verify_multi_sig", "Bls::verify_proof_of_posession"])
P("L03", "BLS12-381 signatures: accepted exactly for their key, message and context",
  "For both assignments of the groups: what a key signs under a context is accepted for its message, context, verification key and generator, deterministically and after every encoding; a multiple of the message's point is accepted exactly when its factor is the secret key; no combination of signatures on other messages or contexts, proofs of possession and own signatures is a signature or another key's proof. The neutral key, and byte strings that encode no point, verify nothing; malformed bytes are errors, never crashes. The byte-string interface signs and verifies the same; seeds decide keys; sizes are as announced.",
  ["inputs"], "all secret keys, generators, forgeries of the stated form; messages from a list of lengths; malformed encodings from a list",
  "Tests verify one signature per message; a neutral key, undecodable bytes or an unbound context show only for chosen values.",
  ["libursa/src/signatures/bls.rs"], [("bls_impl::Signature::verify", "libursa/src/signatures/bls.rs"), ("bls_impl::ProofOfPossession::verify", "libursa/src/signatures/bls.rs"), ("point_from_bytes", "libursa/src/signatures/bls.rs")], ["Signature::verify", "ProofOfPossession::verify", "Bls::verify"])
P("L04", "Aggregated, combined and batched BLS12-381 signatures need every named signer",
  "For both assignments of the groups: the weighted aggregate of all named signers is accepted under their aggregated key and rejected when a signer is left out, named twice, added, uses another's weight or signed something else, or when it is altered; a key computed from other signers' keys gains nothing. Unweighted sums and combined signatures on distinct messages are accepted exactly for the named secrets; repeated messages are rejected. A batch is accepted exactly when each member is, also when their errors cancel; no signers, neutral keys and keys that cancel sign nothing.",
  ["inputs", "configurations"], "all secrets, shares and coefficients; every choice of signer within the bound",
  "Tests aggregate honest signatures of ten signers; rogue keys, cancelling keys or errors and an empty list of signers are never tried.",
  ["libursa/src/signatures/bls.rs"], [("bls_impl::AggregatedPublicKey::from", "libursa/src/signatures/bls.rs"), ("bls_impl::AggregatedSignature::verify", "libursa/src/signatures/bls.rs"), ("bls_impl::Signature::verify_multi", "libursa/src/signatures/bls.rs"), ("bls_impl::Signature::batch_verify", "libursa/src/signatures/bls.rs")], ["AggregatedSignature::verify", "Signature::verify_multi", "Signature::batch_verify"])

P("X01", "The pure-Rust big numbers agree with the openssl ones",
  "For all numbers, every operation of the pure-Rust BigNumber gives what the openssl one gives, also for negative numbers, zero and a modulus of one.",
  ["inputs"], "all integers", "Tests compare a few small numbers.", ["libursa/src/bn/rust.rs", "libursa/src/bn/openssl.rs"], [("BigNumber", "libursa/src/bn/rust.rs")])
P("X02", "The C interface returns what the Rust one does and survives bad arguments",
  "For every argument, null and malformed ones included, each ursa_* function returns the Rust function's result or an error code, writes its outputs only on success, and frees each handle once.",
  ["inputs", "histories"], "all arguments and call histories", "Tests call each function once with good arguments and null.", ["libursa/src/ffi/mod.rs"], [("ursa_*", "libursa/src/ffi/mod.rs")])
P("X03", "Ed25519 and secp256k1 signatures and Diffie-Hellman wrappers are exact",
  "What a key signs verifies under its public key and message only; both sides of a key exchange compute one secret; keys of a wrong length are errors.",
  ["inputs"], "all keys and messages", "Tests use fixed vectors.", ["libursa/src/signatures/ed25519.rs", "libursa/src/signatures/secp256k1.rs", "libursa/src/kex/x25519.rs", "libursa/src/kex/secp256k1.rs"], [("SignatureScheme", "libursa/src/signatures/mod.rs")])
P("X04", "The wasm bindings return what the Rust interface does",
  "For every argument each exported function returns the Rust function's result or throws.",
  ["inputs"], "all arguments", "The bindings have no tests here.", ["libursa/src/wasm/bls.rs"], [("bls", "libursa/src/wasm/bls.rs")])
