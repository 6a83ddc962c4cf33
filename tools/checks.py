"""How each property is checked; gen.py writes checks.json from this."""
WS = {}
CHECKS = {}


def W(name, **k):
    WS[name] = k


def C(id, ws, functions, quick, thorough, reach, outside="", assumptions=(), **k):
    CHECKS[id] = dict(ws=ws, functions=functions, bounds={"quick": quick, "thorough": thorough},
                      reach=reach, outside=outside, assumptions=list(assumptions), **k)


GROUPS = "field and group operations supplied by the curve crates are correct: field elements are symbols modulo the group order, group elements are discrete logarithms, pairings multiply them; equal group elements have equal encodings (amcl breaks this for the identity only)"
ROM = "hash-to-field outputs are random-oracle values; an equality that holds only for a negligible set of them is taken as false (Schwartz-Zippel over the random choices)"
W("sharing", dir="harness/sharing", bin="h_sharing", target="sharing", repo_dirs=["ursa_sharing"], repo_crates=["ursa_sharing"], assumptions=[GROUPS])
W("zmix", dir="harness/zmix", bin="h_zmix", target="zmix", repo_dirs=["libzmix"], repo_crates=["zmix", "bulletproofs_amcl"], native="zmix_native", assumptions=[GROUPS, ROM])
W("zmix_native", dir="harness/zmix_native", bin="h_zmix_native", target="zmix_native", repo_dirs=["libzmix"], repo_crates=["zmix", "bulletproofs_amcl"])

IDS = "distinct identifiers stand for distinct nonzero field elements (x coordinates are arbitrary symbols under that assumption; constants 1..n for n=5)"
C('S01', 'sharing',
  ['shamir::Scheme::{new,split_secret,combine_shares,interpolate}', 'polynomial::Polynomial::{init,evaluate}', 'Share::{new,try_from,value,identifier}'],
  'every threshold 2<=t<=n<=4; secret, coefficients, x coordinates arbitrary field elements; every subset of >= t shares in three orders; identifiers around 2^8, 2^16, 2^24, 2^32 and 600 participants',
  'every threshold 2<=t<=n<=5 (n=5 with x coordinates 1..5); secret, coefficients arbitrary field elements; every subset of >= t shares in three orders; 66000 participants',
  ['reconstructed', 'group', 'interpolated'],
  outside='n > 5', assumptions=[IDS])
C('S02', 'sharing',
  ['shamir::Scheme::{split_secret,combine_shares}'],
  't<=n<=4; duplicate at every pair of positions, zero identifier at every position, every short length; share values arbitrary',
  'same for n<=5',
  ['refused', 'split', 'refused-secret'],
  outside='n > 5', assumptions=[IDS])
C('S03', 'sharing',
  ['shamir::Scheme::split_secret', 'pedersen::Scheme::split_secret', 'polynomial::Polynomial'],
  't<=n<=4 (Pedersen n<=3), x=1..n, every coalition of t-1; view, secret, randomness arbitrary',
  't<=n<=5',
  ['shamir-secret-free', 'pedersen-secret-free'],
  outside='computational secrecy of Feldman', assumptions=[IDS])
C('S04', 'sharing',
  ['feldman::Scheme::{split_secret,verify_share,combine_shares}', 'pedersen::Scheme::{split_secret,verify_share,combine_shares}'],
  'every threshold 2<=t<=n<=4; secret, coefficients, x coordinates arbitrary field elements; identifiers around 2^8, 2^16, 2^24, 2^32 and 600 participants',
  'every threshold 2<=t<=n<=5 (n=5 with x coordinates 1..5); secret, coefficients arbitrary field elements; 66000 participants',
  ['feldman'],
  outside='n > 5', assumptions=[IDS])
C('S05', 'sharing',
  ['feldman::Scheme::verify_share', 'pedersen::Scheme::verify_share', 'combine_shares'],
  't<=n<=4, verifiers with 0..t+ commitments; shares, commitments, generators arbitrary; identifiers around 2^8, 2^16, 2^24, 2^32 and 600 participants',
  't<=n<=5; 66000 participants',
  ['feldman-accept', 'feldman-reject', 'pedersen-accept', 'pedersen-reject', 'short', 'consistent'],
  outside='n > 5', assumptions=[IDS])
C('S06', 'sharing',
  ['Share::{to_bytes,try_from}', 'FeldmanVerifier::{to_bytes,try_from}', 'PedersenVerifier::{to_bytes,try_from}', 'ShareVerifier::try_from'],
  't<=n<=4, all values arbitrary; identifiers around 2^8, 2^16, 2^24, 2^32; verifiers of 255, 256, 257 and 300 commitments',
  't<=n<=5',
  ['roundtrip', 'wide'],
  outside='arbitrary byte strings (see the Kani checks)', assumptions=[IDS])

PSN = "P"
C("P01", "zmix",
  ["ps::keys::{keygen,Params}", "ps::signature::Signature::{new,verify,to_bytes}", "ps::keys::Verkey::validate"],
  "0..4 messages; messages, secret key, randomness, and arbitrary (forged) keys and signatures are symbolic",
  "0..8 messages",
  ["complete", "other-message", "accepted", "rejected", "trivial", "lengths"],
  outside="more messages; PS_Signature_G1 build (the harness builds PS_Signature_G2, the default)")
C("P02", "zmix",
  ["ps::blind_signature::{BlindingKey,BlindSignature}::{new,new_from_paper,unblind,verify}"],
  "1..3 messages, every number of hidden messages, both signing forms; messages, keys, blinding, the requester's commitment symbolic",
  "1..6 messages", ["unblinded", "shape", "refused"])
C("P03", "zmix",
  ["impl_PoK_VC! (ProverCommitting::{commit,finish,get_index}, ProverCommitted::{gen_challenge,gen_proof}, Proof::{verify,verify_complete_proof,to_bytes,from_bytes}) for its four instantiations"],
  "0..3 committed values; bases, secrets, blindings, challenge, nonce, arbitrary proofs symbolic; answers prepared for other bases, commitments and first messages; two-transcript extraction",
  "0..6 committed values", ["complete", "nonce", "accepted", "rejected", "nonce-refused", "bound", "extracted", "lengths", "decoded"],
  outside="the group-element codec of the curve crate")
C("P04", "zmix",
  ["ps::pok_sig::{PoKOfSignature,PoKOfSignatureProof}::{init,gen_proof,verify,to_bytes,get_resp_for_message}"],
  "1..3 messages, every revealed subset, supplied and drawn blindings; arbitrary keys and proofs; two-transcript extraction of a signature",
  "1..5 messages (extraction 1..4)", ["complete", "revealed-bound", "accepted", "trivial", "pairing-rejected", "commitment-rejected", "extracted", "binding", "malformed"])
C("D01", "zmix",
  ["groth_sig::{GrothS1,GrothS2}::{setup,keygen}", "Groth1Sig/Groth2Sig::{new,randomize,verify,verify_batch}", "proof of knowledge of a signing key"],
  "1..2 messages, parameters for 1..2; messages, keys, parameters and forged signatures symbolic",
  "1..4 messages", ["complete", "accepted", "rejected", "lengths", "key-proof"])
C("D02", "zmix",
  ["issuer::{EvenLevelIssuer,OddLevelIssuer}::delegate", "CredLinkOdd/Even::verify", "CredChain::{extend_with_odd,extend_with_even,verify_delegations,verify_delegations_batched,get_truncated}"],
  "honest chains of 1..8 links, arbitrary chains of 1..5, 0..1 attributes per link (none from the fourth link on); every attribute, key and signature symbolic, both verifiers",
  "0..2 attributes", ["complete", "accepted", "rejected", "wrong-keys", "extend"],
  outside="accepting branches of the batched verifier whose equation is not linear in the last symbol (counted as pruned 'nonlinear')")
C("D03", "zmix",
  ["attribute_token::AttributeToken::{commitment,commitment_with_precomputation,response,gen_challenge,reconstruct_commitment,reconstruct_commitment_with_precomputed_vals}", "AttributeTokenComm::{validate,to_bytes}"],
  "chains of 1..4 links, 1..2 attributes (2 up to 2 links), every revealed subset; chains of 5..7 links with one attribute, at least six revealed subsets; keys, attributes, challenge, tokens symbolic; 29 malformed shapes",
  "chains of 1..6 links, 1..2 attributes (2 up to 3 links), and of 7..10", ["complete", "changed-attribute", "exact", "binding", "malformed"],
  assumptions=["both Groth parameter sets share g1 and g2 (same setup label), as the verifier's formula requires"])
C("R01", "zmix",
  ["ipp::IPP::{create_ipp,verify_ipp,verification_scalars}", "transcript::TranscriptProtocol"],
  "vectors of length 1, 2, 4; vectors, generators, factors and arbitrary arguments symbolic; 0..4 rounds against lengths 0..4",
  "vectors of length up to 16", ["complete", "mauled", "rejected", "accepted", "malformed"],
  assumptions=["merlin 1.3.0 is built from a copy (shims/merlin) that also records the challenges it hands out"],
  outside="accepting branches whose equation is not linear in the last symbol (counted as pruned 'nonlinear')")
C("R02", "zmix",
  ["r1cs::Prover::{new,commit,multiply,allocate,constrain,specify_randomized_constraints,prove}", "r1cs::Verifier::{new,commit,multiply,allocate,constrain,verify}", "LinearCombination arithmetic", "VecPoly3/Poly6"],
  "ten circuits (no, one, two, three, four multipliers; affine, power, randomised shuffle, second-phase multipliers); assignments, blindings, generators, arbitrary proofs symbolic; spare generators 0..1",
  "same circuits, spare generators 0..3", ["complete", "refused", "rejected", "malformed", "bound", "combinations", "accepted Empty", "accepted Linear", "accepted Product", "accepted Affine", "accepted Cube", "accepted Fourth", "accepted Pair", "accepted Odd", "accepted Shuffle", "accepted Mixed"],
  assumptions=["merlin 1.3.0 is built from a copy (shims/merlin) that also records the challenges it hands out"],
  outside="circuits with more than four multipliers")
C("R03", "zmix",
  ["r1cs::gadgets::{non_zero,bound_check,positive_no,set_membership,set_membership_alt,set_non_membership,mimc,poseidon_hash,merkle_tree_hash,sparse_merkle_tree_4_ary,sparse_merkle_tree_8_ary}: prove_*/verify_* and their helper constraints", "Mimc2, PoseidonHash and Poseidon_hash_{2,4,8}", "r1cs::{Prover,Verifier}::{commit,multiply,allocate_multiplier,allocate_single,constrain}", "LinearCombination arithmetic"],
  "bounds of up to 3 bits (6 ranges), sets of 0..3 field elements and 5 sets of numbers, MiMC of 0..3 rounds, Poseidon of width 3, 5, 9 with one or two rounds and each S-box (two rounds with x^5 or the inverse only for honest witnesses), trees of arity 4 to depth 2 and arity 8 of depth 1 with an arbitrary hash; honest witnesses also for bounds of 8 to 57 bits and trees to depth 6; secrets, sets, keys, matrices, wires of an arbitrary witness symbolic",
  "bounds of up to 4 bits and of large numbers, sets of 0..5, Poseidon of three rounds (honest), trees of arity 4 to depth 3 and arity 8 to depth 2 (honest to depth 11)",
  ["honest", "satisfied", "lengths", "outside", "inputs", "levels"],
  outside="numbers of 2^58 and more, which the dependency amcl_wrapper converts to a field element wrongly; the S-boxes' cryptographic strength; the gadgets that are not compiled (randomizer, hamming_distance)",
  assumptions=["the circuits the real prover and verifier collect are read through the `verif` feature's accessors; that a proof is accepted only for a satisfiable circuit is R02"])
C("R04", "zmix",
  ["VanillaSparseMerkleTree4::{new,update,get,verify_proof,leaf_index_to_path}", "VanillaSparseMerkleTree8::{new,update,get,verify_proof,leaf_index_to_path}", "InMemoryHashDb", "get_repr_in_power_2_base"],
  "arity 4 and 8, depth 0..3; up to 3 writes at every index (representatives beyond 16) of arbitrary nonzero values or zero; arbitrary claimed values and one arbitrary proof level under the current or an older root; proofs of 0..depth+2 levels; every failing database read",
  "2 writes at depth 3 for both arities, arbitrary proofs to depth 2 for both", ["map", "accepted", "rejected", "shapes", "faults"],
  outside="indices beyond the number of leaves, which are truncated (an existing test relies on it); two levels of a proof altered together",
  assumptions=["the tree hash has no collisions: the hash of values is a random-oracle value of them, the same for equal inputs; a nonzero leaf is written as an arbitrary symbol, zero as the constant"],
  env={"quick": {"SYM_MAX_PATHS": 3000}, "thorough": {"SYM_MAX_PATHS": 20000}})

W("bbs", dir="harness/bbs", bin="h_bbs", target="bbs", repo_dirs=["libzmix/bbs"], repo_crates=["bbs"], native="bbs_native", assumptions=[GROUPS, ROM])
W("bbs_native", dir="harness/bbs_native", bin="h_bbs_native", target="bbs_native", repo_dirs=["libzmix/bbs"], repo_crates=["bbs"])
C("B01", "bbs",
  ["Issuer::{new_keys,new_short_keys,sign}", "Signature::{new,verify,validate,compute_b,get_b}", "PublicKey::validate", "SecretKey::validate", "multi_scalar_mul_{const,var}_time_g1"],
  "1..4 messages, random and short keys; messages, keys, randomness and arbitrary (forged) signatures symbolic; message counts 0..n+2; an identity point at every place of the key",
  "1..8 messages", ["complete", "other-message", "accepted", "rejected", "malformed", "lengths", "fewer", "malformed-key"])
C("B02", "bbs",
  ["Prover::{new_blind_signature_context,complete_signature}", "BlindSignatureContext::verify", "Issuer::blind_sign", "BlindSignature::{new,to_unblinded}"],
  "1..3 messages, every hidden subset against every subset known to the issuer; messages, keys, nonce, arbitrary requests symbolic; indices up to 2 beyond the key",
  "1..4 messages", ["complete", "refused", "rejected", "accepted-answer", "rejected-answer", "bound", "extracted", "indices"])
C("B03", "bbs",
  ["ProverCommittingG1::{commit,commit_with,get_index,finish}", "ProverCommittedG1::{gen_challenge,gen_proof}", "ProofG1::{verify,get_challenge_contribution,verify_complete_proof}"],
  "1..4 committed values, own and given blindings; bases, secrets, challenge, arbitrary proofs symbolic", "1..8 committed values",
  ["complete", "accepted", "rejected", "whole", "bound"])
C("B04", "bbs",
  ["PoKOfSignature::{init,to_bytes,gen_proof}", "PoKOfSignatureProof::{get_bytes_for_challenge,get_resp_for_message,verify}", "Prover::{commit_signature_pok,create_challenge_hash,generate_signature_pok}", "Verifier::{new_proof_request,verify_signature_pok,create_challenge_hash}"],
  "1..3 messages, every revealed subset against every requested subset, own and given blindings; keys, messages, challenge, arbitrary proofs symbolic; two-transcript extraction of a signature; 1..3 proofs under one challenge with claims",
  "1..4 messages", ["complete", "accepted", "bad-signature", "bad-hidden", "bad-revealed", "extracted", "bound", "request", "refused", "bad key", "several", "revealed-value"])
C("B05", "bbs",
  ["to_bytes_*/from_bytes_*/TryFrom/From/serde of every public bbs type", "revealed_to_bitvector", "bitvector_to_revealed"],
  "every type with symbolic contents; keys with 0..3 generators, proofs with 0..3 answers, revealed positions up to 65536, requests over keys of up to 18 messages; every truncation of every encoding",
  "keys and proofs up to 6, requests up to 34 messages",
  ["message", "nonce", "challenge", "blinding", "secret key", "commitment", "generator", "generator 2", "short key", "signature", "blind signature", "public key", "bad-key", "vector proof", "signature proof", "disclosure proof", "signing request", "cut", "request"],
  outside="the point codec of pairing-plus; byte strings that are not truncations of an encoding")
C("B06", "bbs",
  ["keys::generate", "generate_secret_key", "DeterministicPublicKey::{new,to_public_key}"],
  "keys for 1..5 and 300 messages; eleven seeds; short key symbolic", "keys for 1..12 and 700 messages", ["random", "short", "seeds"])

QR = "residues modulo n are discrete logarithms to one base modulo the order p'q' of a fixed 2048-bit modulus, which the adversary does not know; integers are symbols with their bit bounds, exact where arithmetic on them matters (signs, carries and sizes of responses); primes are drawn from the range by the real code's generator interface"
FS = "Fiat-Shamir digests are random-oracle values of what is hashed; equal inputs have equal digests"
W("cl", dir="harness/cl", bin="h_cl", target="cl", repo_dirs=["libursa"], repo_crates=["ursa"], native="cl_native", assumptions=[QR, GROUPS, FS])
W("cl_native", dir="harness/cl_native", bin="h_cl_native", target="cl_native", repo_dirs=["libursa"], repo_crates=["ursa"])
MANY = {"quick": {"SYM_MAX_PATHS": 3000}, "thorough": {"SYM_MAX_PATHS": 6000}}
CLV = "attribute values, keys, primes, blindings, nonces symbolic"
C("C01", "cl",
  ["Issuer::{new_credential_def,_new_credential_primary_keys,_new_credential_primary_key_correctness_proof}", "Prover::_check_credential_key_correctness_proof", "Prover::blind_credential_secrets"],
  "five schemas of one to four attributes; key and proof altered in any one value or any two; keys made by an adversary who knows exponents and chooses the proof's random values; entries removed, renamed, exchanged, added. " + CLV,
  "every pair of altered values in every schema", ["honest", "changed", "own", "shape", "used"],
  outside="the primality and safe-prime structure of n", assumptions=["the base of master_secret is exempt from the proof, as the code intends"], env=MANY)
C("C02", "cl",
  ["Issuer::{sign_credential,sign_credential_with_revoc,_new_primary_credential,_sign_primary_credential,_new_non_revocation_credential,_gen_credential_context}"],
  "six mixes of known, hidden and committed attributes, plain and revocable; contexts of different holders and indices (names and indices that run into each other). " + CLV,
  "same", ["covered", "context", "base"], env=MANY)
C("C03", "cl",
  ["Prover::{blind_credential_secrets,_generate_blinded_primary_credential_secrets_factors,_new_blinded_credential_secrets_correctness_proof}", "Issuer::_check_blinded_credential_secrets_correctness_proof"],
  "six mixes of attributes; request and proof altered in any one value or any two; missing, foreign, exchanged parts; requests by an adversary who claims other values than blinded. " + CLV,
  "same", ["honest", "changed", "parts", "own", "known"], env=MANY)
C("C04", "cl",
  ["Prover::{process_credential_signature,_check_signature_correctness_proof,_process_primary_credential,_process_non_revocation_credential,_test_witness_signature}", "Issuer::_new_signature_correctness_proof"],
  "six mixes of attributes; signature and proof altered in any one value or any two; signatures by an adversary with any exponent e and its own proof; every part of the non-revocation credential altered; other registries. " + CLV,
  "same", ["honest", "changed", "values", "own", "revocation", "registry"], env=MANY)
C("C05", "cl",
  ["ProofBuilder::{add_sub_proof_request,finalize,_init_primary_proof,_init_eq_proof,_init_ne_proof,_finalize_eq_proof,_finalize_ne_proof}", "ProofVerifier::verify", "helpers::{calc_teq,calc_tne,four_squares}", "Predicate::{get_delta,get_delta_prime,is_less}"],
  "every revealed subset of three attributes of either sign; four predicate types at seventeen points including both ends of the i32 range; several predicates; one or two credentials; plain and revocable; all values through JSON. " + CLV,
  "eighty further points per predicate type", ["accepted", "issued", "refused", "serialised"])
C("C06", "cl",
  ["ProofVerifier::{verify,_verify_primary_proof,_verify_equality}", "helpers::calc_teq"],
  "presentations by an adversary with its own prover: values with no signature, exponents 1 and -1, values shifted by multiples of e; three revealed subsets. " + CLV,
  "same", ["accepted", "rejected"], outside="adversaries who know the factors of n")
REVB = "registries of two and three indices, issued by default or on demand; every history of up to three steps over two indices (one over three)"
C("C07", "cl",
  ["Issuer::{new_revocation_registry_def,revoke_credential,update_revocation_registry}", "Witness::{new,update}", "RevocationRegistryDelta::{from_parts,merge}", "Verifier::_verify_non_revocation_proof"],
  REVB + "; early, late, merged and step-by-step witnesses. " + CLV, "one to four indices, histories of up to four steps", ["live", "revoked"], env=MANY)
C("C08", "cl",
  ["RevocationRegistryDelta::merge", "Issuer::{revoke_credential,update_revocation_registry}", "Witness::{new,update}"],
  "histories of four steps over two indices, every grouping of the merges; deltas that do not follow; indices 0, L+1 and beyond", "three steps over three indices",
  ["merged", "refused", "range"], env=MANY)
C("C09", "cl",
  ["ProofBuilder::{_init_non_revocation_proof,_finalize_non_revocation_proof}", "ProofVerifier::_verify_non_revocation_proof", "create_tau_list_values / create_tau_list_expected_values"],
  "every part of the non-revocation credential and witness altered; parts of two holders combined; the proof left out or exchanged; an index the issuer did not sign. " + CLV, "two forms of the unsigned index",
  ["rejected"], env=MANY)
C("C10", "cl",
  ["Issuer::new_revocation_registry_def", "SimpleTailsAccessor / RevocationTailsGenerator", "Witness::new", "ProofVerifier::_verify_non_revocation_proof"],
  "registries of two and three indices, histories that end with the credential revoked; the witness is any linear combination of the published tails and accumulators", "one to four indices", ["rejected"], env=MANY)
C("C12", "cl",
  ["ProofVerifier::{_verify_ne_predicate,_verify_primary_proof}", "helpers::calc_tne", "Predicate::{get_delta_prime,is_less}"],
  "presentations by an adversary with its own prover, four predicate types, bounds 18, 0, -5 and both ends of i32: false differences, other values, other attributes, other predicates (bounds one apart), commitments chosen after the challenge, missing and repeated predicates. " + CLV,
  "bounds two apart", ["accepted", "rejected"],
  outside="that four squares with 80-bit responses force a non-negative integer (the range argument of the paper)")
C("C11", "cl",
  ["Serialize and Deserialize of the types of ursa::cl and of the numbers and points in them", "RevocationTailsGenerator::try_next", "RevocationRegistryDelta::merge", "Witness::update", "issuance, presentation and verification on objects read back"],
  "with and without revocation, committed attributes, default issuance; all numbers arbitrary; every field left out or replaced by ten other values; generators stored after any number of tails (L<=3); histories of <=3 steps (L=1) and <=2 steps (L=2) stored at every step",
  "histories of <=4 steps (L=1), <=3 steps (L=2) and 1 step (L=3); L<=4 for generators",
  ["round trip", "damaged", "earlier", "requests", "tails", "live", "revoked"],
  outside="the byte encodings of single points and numbers (N01, N02); other formats than serde_json; fields unknown to the code, which are ignored; two errors at once",
  assumptions=[])
C("C13", "cl",
  ["ProofVerifier::{verify,_check_add_sub_proof_request_params_consistency,_check_verify_params_consistency}"],
  "honest presentations, plain and revocable, without and with predicates: every value altered by an arbitrary amount, pairs of values altered in small ratios, every part removed, doubled or exchanged; every other request; other keys, registries, nonces. " + CLV,
  "all pairs, four ratios", ["rejected"], env=MANY)
C("C14", "cl",
  ["ProofVerifier::{add_common_attribute,verify}", "ProofBuilder::add_common_attribute"],
  "two and three credentials of one or several issuers by an adversary with its own prover: equal values with separate blindings, different values with shared or prepared blindings and copied responses, revealed and unknown attributes, a verifier used several times. " + CLV,
  "up to four credentials", ["linked", "different", "guessed", "again", "revealed", "unknown"])
C("N02", "cl",
  ["GroupOrderElement::{new,from_seed,pow_mod,add_mod,sub_mod,mul_mod,mod_neg,inverse,to_bytes,from_bytes,to_string,from_string}", "PointG1/PointG2::{new,new_inf,from_seed,mul,add,sub,neg,is_inf,to_bytes,from_bytes,to_string,from_string,serde}", "Pair::{pair,inverse,mul,pow,is_unity,to_bytes,from_bytes,to_string,serde}"],
  "scalars, points and pairings symbolic; all equations with constants 0, 1, 2, order-1; strings and byte strings of wrong lengths, digits and field counts", "seventeen constants, every pair of operations, every cut of every encoding",
  ["scalars", "scalar coding", "no-inverse", "inverse", "coding1", "coding2", "laws1", "laws2", "pairing", "power", "seeds", "malformed"],
  outside="the amcl crate's own field and curve arithmetic, which the groups are modelled by")
C("N01", "cl",
  ["BigNumber::{add,sub,mul,sqr,div,gcd,exp,mod_exp,mod_mul,mod_sub,mod_div,modulus,inverse,increment,decrement,add_word,sub_word,mul_word,div_word,lshift1,rshift,rshift1,set_negative,is_negative,try_clone,rand,rand_range,generate_prime_in_range,random_qr,is_prime,is_safe_prime,hash,hash_array,from_*,to_*,serde,Ord}"],
  "symbolic integers of either sign below 2^300 against each other and nine constants; residues and exponents symbolic; division, shifts, bits and gcd on thirteen constants; strings from a list", "seventeen constants, every pair",
  ["unary", "binary", "order", "modular", "quotient", "no-inverse", "powers", "residues", "constants", "words", "drawn", "primality", "hashes", "malformed"],
  outside="OpenSSL's own arithmetic, which the numbers are modelled by; is_safe_prime(7)")
BLSN = "SHA-256 and Keccak of distinct messages are distinct, and the curve's hash makes independent points of them"
C("S07", "cl",
  ["split_secret", "combine_shares", "Share::{to_bytes,from_bytes,clone}", "Element::*", "Polynomial::{new,evaluate,interpolate}"],
  "every threshold 2<=t<=n<=4, every set of at least t shares in three orders, every set of t-1 shares, every share of an exact set replaced; secrets, coefficients and replaced values any element of a 254-bit field; 255 participants for chosen sets; fields as small as the number of shares", "n<=7",
  ["complete", "hiding", "tampered", "encoding", "refused", "not combined"],
  outside="other prime fields, n > 7 (save chosen sets of 255), OpenSSL's own arithmetic; a secret's leading zero bytes are not kept")
C("L01", "cl",
  ["Bls::{sign,verify,_gen_signature,_verify_signature,_hash}", "Generator / SignKey / VerKey / Signature {new,as_bytes,from_bytes,serde}"],
  "messages of 0 to 70 000 bytes; secret keys, generators and forgeries symbolic: any multiple of the message's point, any combination of signatures on up to two other messages, the proof of possession and own signatures", "messages of up to 1 100 000 bytes, up to seven other signatures",
  ["honest", "exact", "forgery", "others", "neutral", "seeds"], assumptions=[BLSN])
C("L02", "cl",
  ["ProofOfPossession::new", "Bls::{verify_proof_of_posession,verify_multi_sig}", "MultiSignature::{new,from_bytes,as_bytes,serde}"],
  "one to four signers; secret keys symbolic; keys made from others' keys with any coefficients; every signer left out, named twice or signing something else; sums of up to three arbitrary shares", "up to six signers",
  ["possession", "domains", "rogue", "multi", "sums"], assumptions=[BLSN])
W("bls", dir="harness/bls", bin="h_bls", target="bls", repo_dirs=["libursa"], repo_crates=["ursa"], native="bls_native", assumptions=[GROUPS, ROM])
W("bls_native", dir="harness/bls_native", bin="h_bls_native", target="bls_native", repo_dirs=["libursa"], repo_crates=["ursa"])
BLSW = "the curve's hash makes independent points and scalars of distinct inputs; bytes that encode no point decode to the identity, as in amcl"
C("L03", "bls",
  ["bls::{normal,small}::{generate,hash_msg,hash_key,hash_to_point}", "Signature / ProofOfPossession / PublicKey {new,verify,combine,to_bytes,from_bytes,serde}", "Bls::{keypair,sign,verify}", "point_from_bytes"],
  "both assignments of the groups; messages of 0 to 70 000 bytes; three contexts; secret keys, generators and forgeries symbolic; 150 malformed encodings and every truncation", "more messages, up to six other signatures",
  ["honest", "exact", "forgery", "others", "domains", "neutral", "malformed", "scheme", "seeds"], assumptions=[BLSW])
C("L04", "bls",
  ["AggregatedPublicKey::from", "AggregatedSignature::{new,verify,verify_no_rk,batch_verify,to_bytes,from_bytes,serde}", "Signature::{new_with_rk_mitigation,combine,verify_multi,batch_verify}", "PublicKey::combine"],
  "both assignments of the groups; one to four signers, messages or batch members, aggregates of one or two; secret keys symbolic; keys made from others' keys with any coefficients (up to three others)", "up to six, aggregates of three",
  ["weighted", "rogue", "possession", "plain", "distinct", "batch", "aggregates", "nobody"], assumptions=[BLSW])
N2 = "units modulo n^2 are (+-1) g^a h^b with h = 1+n: a modulo p'q' and b modulo n for a fixed 2048-bit n that the adversary cannot factor (elements with other square roots of one are excluded); which of x and -x is the larger number is arbitrary but the same each time; integers are symbols with their bounds"
W("ve", dir="harness/ve", bin="h_ve", target="ve", repo_dirs=["libzmix", "libursa"], repo_crates=["zmix", "ursa"], native="ve_native", assumptions=[N2, FS])
W("ve_native", dir="harness/ve_native", bin="h_ve_native", target="ve_native", repo_dirs=["libzmix", "libursa"], repo_crates=["zmix", "ursa"])
C("V01", "ve",
  ["CSKeypair::new", "encrypt", "decrypt", "encrypt_and_prove_phase_1", "encrypt_and_prove_phase_2", "reconstruct_blindings_ciphertext", "PaillierGroup::{abs,sqr,rand,exponentiate}", "serde of keys and ciphertexts"],
  "keys for one to three messages, every number of messages used; labels of 0, 5, 32 and 300 bytes and up to fourteen others for each; messages any numbers below 2^2045, randomness, challenge, responses and factors of altered parts symbolic; any one part altered by a power of g, of h, of both or negated, u or a part together with v; provers with any exponents in every part and any shift of the responses", "keys for up to four messages",
  ["decrypted", "sizes", "altered", "two altered", "parts", "other label", "own encryption", "other key", "proved", "altered proof", "accepted", "rejected", "extracted", "absolute"],
  outside="messages of n or more (decrypted modulo n) or negative; r_tilde is of the size of r, so the proof hides r only weakly; key generation's safe primes; elements of Z*_n^2 outside +-<g><h>", env=MANY)

W("enc", kind="kani", dir="harness/enc", target="enc", native="enc_native", repo_dirs=["libursa/src/encryption"], bin="-", repo_crates=[],
  assumptions=["the primitives are ideal: the AEAD ciphers and HMAC accept exactly what was made with the key (the MAC under any input it was not asked for is a value never presented), CBC with PKCS#7 returns what was encrypted and any bytes or an error otherwise"])
W("enc_native", dir="harness/enc_native", bin="h_enc_native", target="enc_native", repo_dirs=["libursa"], repo_crates=["ursa"])
C("E01", "enc",
  ["SymmetricEncryptor::{new_with_key,encrypt,decrypt,encrypt_easy,decrypt_easy,encrypt_buffer,decrypt_buffer}", "DynEncryptor, EncryptorType::{gen_encryptor,is_valid_keysize,is_valid_noncesize}",
   "Encryptor::{encrypt_easy,decrypt_easy,...} and NewAead/Aead for Aes128Gcm, Aes256Gcm, ChaCha20Poly1305, XChaCha20Poly1305, Aes128CbcHmac256, Aes256CbcHmac512"],
  "all six ciphers; every byte of key, nonce, associated data, message, alteration symbolic; lengths fixed per case: messages of 0..17 bytes, associated data of 0..2, alterations of the same length or shorter, strings of 0..96 bytes",
  "messages of 0..33 bytes, associated data of 0..17, alterations longer and shorter, strings of 0..128 bytes",
  [], kind="kani", outside="the openssl and libsodium variants (feature *_native); the ciphers themselves; decrypt_buffer for the CBC ciphers (CBMC mistakes the growing read buffer); lengths not named in harness/enc/src/table.rs",
  assumptions=["Kani 0.68 and CBMC are correct"])
