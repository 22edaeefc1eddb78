#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CL = "libursa/src/cl/"
p("C01", "Anonymous-credential issuance completes for honest parties and refuses the rest",
  "An honest holder and an honest issuer who exchange the issuance messages always end with a credential the holder's own check accepts, for every schema, every attribute value (including hidden and committed ones), with or without revocation, and however the messages were delayed, duplicated, reordered or re-requested and the parties restarted from saved state. The issuer refuses a blinded-secrets message that was altered or belongs to another key, nonce, holder request or set of attributes. The holder refuses an issuer key, or a credential signature, that was altered or belongs to other values, another nonce, another key or another request, on receipt or at the latest when checking the finished credential; no altered exchange ends with a credential that both sides accept.",
  ["inputs", "schedules", "histories", "crash_points", "fault_sequences"],
  "every schema and value set; every delivery order, duplication, loss+retry and restart of holder and issuer; every single-field alteration and every mix-up of messages between concurrent issuances",
  "The issuance tests run one fixed schema straight through in one process with in-memory objects; they never restart a party, interleave two issuances, or alter a message.",
  [CL+"issuer.rs", CL+"prover.rs", CL+"mod.rs", CL+"helpers.rs"],
  [("issue and sign", "libursa/src/cl/issuer.rs Issuer::{new_credential_def,sign_credential,sign_credential_with_revoc}"),
   ("blind, check and unblind", "libursa/src/cl/prover.rs Prover::{blind_credential_secrets,process_credential_signature,check_credential_key_correctness_proof}")],
  [("credential signature", "what the holder stores and later presents", "libursa/src/cl/mod.rs CredentialSignature")],
  ["result of the issuing and processing calls", "messages as JSON"])
p("C02", "Every honest, truthful presentation verifies",
  "When the holder's credentials satisfy a proof request, the presentation built for the verifier's nonce is accepted by every verifier holding the same request and keys. This holds for any set of revealed and hidden attributes, any satisfied comparison predicates up to the ends of the 32-bit range, several credentials from several issuers bound by shared hidden attributes, revocable and non-revocable credentials mixed, messages that travelled as JSON over a slow or duplicating network, and a verifier object that is reused.",
  ["inputs", "histories", "schedules", "configurations"],
  "every satisfied request over every credential set; every order of presentations, verifier reuse, and restart from saved state",
  "The tests present a handful of fixed credentials with one or two mid-range predicates and use every verifier once.",
  [CL+"prover.rs", CL+"verifier.rs", CL+"helpers.rs", CL+"mod.rs"],
  [("build presentation", "libursa/src/cl/prover.rs ProofBuilder"), ("verify presentation", "libursa/src/cl/verifier.rs ProofVerifier::verify")],
  None, ["boolean result of verification"])
p("C03", "An altered, replayed, spliced or untruthful presentation is never accepted",
  "A verifier never accepts a presentation in which any component differs from what an honest holder produced for exactly this request, nonce, issuer key and revocation registry: any altered, removed, added or swapped number, attribute, predicate, sub-proof or revealed value is rejected. A presentation made for another nonce, another request, other keys, or assembled from parts of several genuine presentations is rejected, and so is one in which attributes that must be common to several credentials differ, a predicate is not satisfied, or a requested attribute is not revealed.",
  ["inputs", "histories", "fault_sequences"],
  "every single-leaf mutation of a genuine presentation and every splice, replay, reorder or parameter substitution reachable from the recorded messages of a run",
  "The tests contain a few hand-made negative cases; the space of altered fields, splices and replays between sessions is never walked.",
  [CL+"verifier.rs", CL+"prover.rs", CL+"helpers.rs", CL+"mod.rs"],
  [("verify presentation", "libursa/src/cl/verifier.rs ProofVerifier::{verify,_verify_primary_proof,_verify_non_revocation_proof,_check_verify_params_consistency}")],
  None, ["boolean or error result of verification"])
p("C04", "Registry, deltas and witnesses agree with the set of valid credentials",
  "After any sequence of issuances, revocations, restorations and batch updates the registry value depends only on which credentials are currently valid, not on the order, grouping or path that led there. Merging consecutive deltas describes exactly the transition from the first to the last state, and non-consecutive deltas are refused. A witness brought up to date through any chain of deltas, in any grouping, equals the witness computed from scratch for the current state, including after restarts from saved registry, deltas and witnesses.",
  ["histories", "inputs", "schedules", "crash_points"],
  "every history of registry operations, both issuance modes, every grouping and merge of deltas, every lag of the holder",
  "The tests apply one or two operations and compare with nothing; order and grouping of operations are never varied.",
  [CL+"issuer.rs", CL+"mod.rs"],
  [("accumulate and revoke", "libursa/src/cl/issuer.rs Issuer::{sign_credential_with_revoc,revoke_credential,recovery_credential,update_revocation_registry}"),
   ("merge deltas, build and update witnesses", "libursa/src/cl/mod.rs RevocationRegistryDelta::{from_parts,merge}, Witness::{new,update}")],
  [("accumulator", "group element standing for the set of valid credential indices", "libursa/src/cl/mod.rs RevocationRegistry"),
   ("delta", "previous and new accumulator with issued and revoked index sets", "libursa/src/cl/mod.rs RevocationRegistryDelta")])
p("C05", "A revoked holder cannot prove validity; a valid one always can",
  "A verifier that checks against the current registry accepts the presentation of a holder whose credential is valid and whose witness is up to date, and accepts it again after the credential was restored. It never accepts a presentation from a holder whose credential is revoked in that registry state, whatever witness, stale registry, other holder's witness or other revocable credential the holder uses, and never accepts one that leaves the non-revocation part out.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every interleaving of issuance, revocation, restoration, publication (late, lost, out of order) and presentation",
  "The tests cover one revocation followed by one verification; laggard holders, restorations and proofs without a non-revocation part are not exercised.",
  [CL+"prover.rs", CL+"verifier.rs", CL+"issuer.rs", CL+"mod.rs"],
  [("non-revocation proof", "libursa/src/cl/prover.rs ProofBuilder::_init_non_revocation_proof"), ("non-revocation verification", "libursa/src/cl/verifier.rs ProofVerifier::_verify_non_revocation_proof")])
p("C06", "A failed credential operation changes nothing and can be retried",
  "When issuing, revoking, restoring, batch-updating a registry, updating a witness or processing a received credential reports an error, for instance because the tails storage failed part-way or the arguments were refused, every object passed in is exactly as before the call. Repeating the operation once the cause is gone gives the result it would have given had it never failed.",
  ["fault_sequences", "crash_points", "histories"],
  "a storage failure at every tail access of every operation, refused arguments of every kind, followed by a retry",
  "No test makes the tails storage fail or looks at an object after a failed call.",
  [CL+"issuer.rs", CL+"prover.rs", CL+"mod.rs"],
  [("registry updates through the tails accessor", "libursa/src/cl/issuer.rs Issuer::{sign_credential_with_revoc,revoke_credential,recovery_credential,update_revocation_registry}"),
   ("credential processing", "libursa/src/cl/prover.rs Prover::process_credential_signature"), ("witness update", "libursa/src/cl/mod.rs Witness::update")])
p("C07", "Hostile credential messages are answered with an error, never a crash",
  "Whatever well-formed or malformed message a credential party receives - keys, proofs, offers, blinded secrets, signatures, presentations, deltas, registries, witnesses, with fields altered, missing, duplicated, oversized, negative, zero or out of range - every operation on it returns normally with success or an error. It never panics, aborts, exhausts memory or fails to terminate, and the party still serves honest peers correctly afterwards.",
  ["inputs", "histories", "fault_sequences"],
  "every structural and numeric mutation of every message type, fed to every operation that consumes it",
  "The tests feed only messages the library itself produced.",
  [CL+"issuer.rs", CL+"prover.rs", CL+"verifier.rs", CL+"mod.rs", CL+"helpers.rs", "libursa/src/bn/openssl.rs", "libursa/src/pair/amcl.rs"],
  [("message parsing", "serde implementations in libursa/src/cl/mod.rs, libursa/src/bn/openssl.rs, libursa/src/pair/amcl.rs"), ("message consumers", "libursa/src/cl/{issuer,prover,verifier}.rs")])
p("C08", "Saved state and messages survive a save-and-load unchanged",
  "Every key, credential, registry, delta, witness, tail, nonce, blinding factor, proof, big number and curve element written out and read back - as JSON, bytes, hexadecimal or decimal, any number of times, in any process - is the same value: it writes out identically and behaves identically in every later operation. A party restarted from its saved state at any point of a protocol continues as if it had never stopped.",
  ["crash_points", "inputs", "histories"],
  "every type, values at the edges (zero, negative, leading zeros, infinity), every point of the protocol at which a party can restart",
  "Round-trip tests exist for a few fixed values and no protocol run is ever interrupted.",
  [CL+"mod.rs", "libursa/src/bn/openssl.rs", "libursa/src/pair/amcl.rs"],
  [("serialization", "serde implementations and to_bytes/from_bytes/to_string/from_string in libursa/src/cl/mod.rs, libursa/src/bn/openssl.rs, libursa/src/pair/amcl.rs")])
p("C09", "The C interface behaves like the library: handles, codes and outputs",
  "Every operation offered to C callers gives the same outcome as the library operation it stands for: success exactly when that succeeds, the matching error code otherwise, output handles and values written on success and left alone on failure, inputs usable afterwards unless documented as consumed. Null or malformed arguments produce an invalid-parameter error instead of a crash, each tail the storage callback hands over is given back exactly once, and storage-callback errors reach the caller.",
  ["histories", "inputs", "fault_sequences"],
  "every call sequence a client program makes, with null/bad arguments and storage-callback faults at any point",
  "The interface tests walk fixed happy paths and check single null arguments.",
  ["libursa/src/ffi/cl/mod.rs", "libursa/src/ffi/cl/issuer.rs", "libursa/src/ffi/cl/prover.rs", "libursa/src/ffi/cl/verifier.rs", "libursa/src/ffi/bls.rs", "libursa/src/errors/mod.rs"],
  [("C entry points", "libursa/src/ffi/cl/*.rs and libursa/src/ffi/bls.rs"), ("error mapping", "libursa/src/errors/mod.rs")])
p("C10", "A thread of a C client only ever sees its own errors",
  "When several threads of a client use the C interface at once, the error details a thread reads are always those of that thread's own most recent failed call, whatever other threads did in between, and an object shared read-only between threads gives every thread the same results it would give alone.",
  ["schedules", "histories"],
  "every interleaving of calls, failures and error queries of several client threads",
  "No test calls the interface from more than one thread.",
  ["libursa/src/errors/mod.rs", "libursa/src/ffi/cl/mod.rs"],
  [("per-thread error record", "libursa/src/errors/mod.rs set_current_error/get_current_error_c_json")])
p("C11", "Encrypted streams decrypt to exactly what was encrypted or fail",
  "For every cipher offered, a stream encrypted and decrypted with the same key and associated data gives back the original bytes whatever its length (including empty) and however the reader splits its data into short reads. An input that was truncated, extended, altered, or paired with the wrong key or associated data is reported as an error and its altered content is never delivered as authenticated; an I/O error from the reader or the writer is reported as an error and never as success.",
  ["inputs", "fault_sequences", "schedules"],
  "every payload length and chunking, every position of a short read, I/O error, truncation or bit flip",
  "The stream tests use one in-memory payload without any I/O fault.",
  ["libursa/src/encryption/symm/mod.rs", "libursa/src/encryption/symm/aescbc.rs", "libursa/src/encryption/symm/aesgcm.rs", "libursa/src/encryption/symm/xchacha20poly1305.rs"],
  [("stream encryption", "libursa/src/encryption/symm/mod.rs SymmetricEncryptor::{encrypt_buffer,decrypt_buffer} and DynEncryptor")])
p("C12", "Sealed messages open only unaltered, under the same key and context",
  "For every cipher offered, a message sealed with a key, nonce and associated data opens to the same bytes under the same three, for every length from empty upwards and for any valid key. Any change to the ciphertext, tag, nonce, key or associated data, and any truncation or extension, makes opening fail; malformed input (too short, wrong key length) is refused with an error and never a crash.",
  ["inputs", "histories"],
  "every cipher, payload and associated-data length around the block and tag boundaries, every altered byte position",
  "The tests use fixed short vectors of a few lengths.",
  ["libursa/src/encryption/symm/mod.rs", "libursa/src/encryption/symm/aescbc.rs", "libursa/src/encryption/symm/aesgcm.rs", "libursa/src/encryption/symm/xchacha20poly1305.rs"],
  [("sealing and opening", "libursa/src/encryption/symm/*.rs Aead implementations and SymmetricEncryptor")])
p("C13", "Any threshold of shares rebuilds the secret; fewer or bad ones never do silently",
  "For every threshold and number of shares allowed, any subset of at least the threshold many distinct shares, in any order, gathered from shareholders that may be slow, crash or answer twice, rebuilds exactly the secret, also when shares were saved and reloaded. Fewer shares than the threshold, duplicated or malformed shares and impossible parameters are refused with an error, and fewer shares than the threshold never determine the secret.",
  ["inputs", "schedules", "fault_sequences"],
  "every (threshold, limit), every subset and order of shares, every mix of lost, late, duplicated and corrupted shares",
  "The tests sample a few (t,n) pairs with shares in order.",
  ["ursa_sharing/src/shamir.rs", "libursa/src/sharing/mod.rs"],
  [("split and combine", "ursa_sharing/src/shamir.rs Scheme, libursa/src/sharing/mod.rs shard_secret/recover_secret"), ("share encoding", "ursa_sharing/src/shamir.rs Share, libursa/src/sharing/mod.rs Share")])
p("C14", "Verifiable shares: genuine ones verify, any other does not",
  "In verifiable secret sharing every share the dealer produced verifies against the published commitments, and a share whose identifier or value was changed, that belongs to another dealing, or that is checked against altered, truncated or other commitments does not. A set of verified shares of threshold size always rebuilds the dealer's secret, also when commitments and shares were saved and reloaded.",
  ["inputs", "fault_sequences", "schedules"],
  "every (threshold, limit), every altered share or commitment, dishonest dealers and shareholders in any number below the threshold",
  "The tests verify only genuine shares for one group and one (t,n).",
  ["ursa_sharing/src/feldman.rs", "ursa_sharing/src/pedersen.rs", "ursa_sharing/src/lib.rs"],
  [("verification", "ursa_sharing/src/feldman.rs FeldmanVerifier, ursa_sharing/src/pedersen.rs PedersenVerifier")])
p("C15", "Multi-signatures accept exactly what all named signers signed",
  "A signature verifies for exactly the message and key that made it, and a multi-signature verifies for exactly the message and the set of keys whose owners all signed, in whichever order contributions arrived and were combined. A missing, extra, foreign, altered or replayed contribution makes it fail; a key whose owner cannot show a valid proof of possession is refused, a key chosen to cancel others is not accepted by the aggregation that protects against it, and batches verify exactly when every entry does.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every number of signers, arrival order, loss, duplication and substitution of contributions, save/reload of every object",
  "The tests combine two or three signatures in fixed order.",
  ["libursa/src/bls/mod.rs", "libursa/src/signatures/bls.rs"],
  [("BN254 scheme", "libursa/src/bls/mod.rs Bls"), ("BLS12-381 scheme", "libursa/src/signatures/bls.rs")])
p("C16", "A plain signature verifies for exactly its message and key",
  "For every signature scheme offered, signing any message with a generated, seeded or reloaded key gives a signature its public key accepts, and the same seed or secret always gives the same key pair. A changed message, changed signature or another key makes verification fail, and malformed keys or signatures are refused with an error, never a crash; signatures produced through one implementation verify through the other.",
  ["inputs", "histories"],
  "every message length, key-generation option and altered byte position, on both implementations",
  "The tests use a couple of fixed vectors per scheme.",
  ["libursa/src/signatures/mod.rs", "libursa/src/signatures/ed25519.rs", "libursa/src/signatures/secp256k1.rs", "libursa/src/keys.rs"],
  [("signing", "libursa/src/signatures/{ed25519,secp256k1}.rs SignatureScheme implementations")])
p("C17", "Both ends of a key agreement compute the same key, nobody else's matches",
  "For every key-agreement scheme offered, two parties who exchange public keys over any network compute the same shared secret, again after reloading their keys from storage and across repeated sessions. Any other key pair, or a public key altered so that it denotes another point (another x-coordinate, the only part of a point that agreement depends on), gives a different secret or an error, the shared secret is never a constant, and malformed keys are refused with an error, never a crash.",
  ["inputs", "schedules", "crash_points"],
  "every key-generation option, key-exchange order, man-in-the-middle alteration and restart",
  "The tests run one exchange per scheme.",
  ["libursa/src/kex/mod.rs", "libursa/src/kex/x25519.rs", "libursa/src/kex/secp256k1.rs"],
  [("key agreement", "libursa/src/kex/{x25519,secp256k1}.rs KeyExchangeScheme implementations")])
p("C18", "Signatures on committed messages issue completely and only as agreed",
  "For the pairing-based signature schemes an honest signer and recipient always obtain a signature that verifies for exactly the agreed messages, whether all messages were known to the signer or some were blinded, in any split and order of arrival, also from reloaded state. The signer refuses a blinding request that was altered, made for another nonce, key or set of messages; a signature verifies for no other message vector, position or key, and requests or messages that do not fit the key are refused with an error, never a crash.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every number of messages and every known/blind split, every altered or mixed-up request, duplicates, loss and restart",
  "The tests use one or two fixed splits and never alter a request.",
  ["libzmix/bbs/src/issuer.rs", "libzmix/bbs/src/prover.rs", "libzmix/bbs/src/signature.rs", "libzmix/bbs/src/keys.rs", "libzmix/src/signatures/ps"],
  [("BBS+ issuance", "libzmix/bbs/src/{issuer,prover,signature}.rs"), ("PS issuance", "libzmix/src/signatures/ps/{signature,blind_signature}.rs")])
p("C19", "Selective-disclosure proofs are accepted exactly when truthful",
  "For the pairing-based signature schemes a holder of a valid signature can always convince a verifier of any chosen subset of revealed messages, with the hidden rest, for the verifier's nonce, including several signatures in one session and after transport as bytes. The verifier rejects a proof in which any byte or revealed message was altered, more, fewer or other messages are revealed than asked for, the nonce, key or request is another one, or whose parts come from different proofs; malformed input is refused with an error, never a crash.",
  ["inputs", "histories", "fault_sequences"],
  "every message count and revealed subset, every altered byte, replay and splice between sessions",
  "The tests reveal a few fixed subsets and have one or two negative cases.",
  ["libzmix/bbs/src/prover.rs", "libzmix/bbs/src/verifier.rs", "libzmix/bbs/src/pok_sig.rs", "libzmix/bbs/src/pok_vc.rs", "libzmix/src/signatures/ps/pok_sig.rs"],
  [("BBS+ proof of knowledge", "libzmix/bbs/src/{pok_sig,prover,verifier}.rs"), ("PS proof of knowledge", "libzmix/src/signatures/ps/pok_sig.rs")])
p("C20", "A delegated credential chain verifies exactly when every link is genuine",
  "A chain of delegations built by honest issuers from the root down, of any length and with any attributes, verifies - link by link, as a whole and in batch, which always agree - and an attribute token over it that reveals any chosen attributes at any levels verifies, with or without precomputation. A chain or token in which any link, level, order, key, attribute, revealed set or challenge was altered, dropped, swapped with another chain's or made by someone else than the previous link's holder is rejected; wrongly shaped input is refused, never a crash.",
  ["inputs", "histories", "fault_sequences"],
  "every chain length, attribute count and revealed subset; every alteration, omission and splice of links",
  "The tests use one or two fixed chains and few negative cases.",
  ["libzmix/src/signatures/delg_cred_cdd"],
  [("issuing and verifying chains", "libzmix/src/signatures/delg_cred_cdd/issuer.rs, groth_sig.rs"), ("attribute tokens", "libzmix/src/signatures/delg_cred_cdd/attribute_token.rs")])
p("C21", "Verifiably encrypted messages decrypt to what was proven",
  "A ciphertext produced for an auditor's key always decrypts under the matching secret key to the encrypted messages, and its accompanying proof always verifies for the same key, label and commitments. A ciphertext, proof, label, key or commitment that was altered or mixed with another session's is rejected by verification or decryption, and wrongly shaped input is refused with an error, never a crash.",
  ["inputs", "histories", "fault_sequences"],
  "every number of messages, every altered component, restart of each party",
  "The tests encrypt a few random messages and have one or two negative cases.",
  ["libzmix/src/verifiable_encryption"],
  [("encryption, decryption and proof", "libzmix/src/verifiable_encryption")])
p("C22", "An authenticated sparse tree is a faithful map over unreliable storage",
  "Over any storage that may fail, a sparse Merkle tree reads back at every root, current or historical, exactly the values written up to that root (and the default elsewhere), and its root depends only on the stored contents, not on the order of writes. An update that fails because the storage failed leaves the tree at its previous root with all contents readable and can be retried. A membership proof verifies for exactly its index, value and root; altered, short or long proofs are refused without a crash.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every history of updates, overwrites, reads at old roots, storage failures at any access and restarts",
  "The tests insert a few consecutive indices into a perfect in-memory store.",
  ["libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs", "libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs", "libzmix/bulletproofs_amcl/src/utils/hash_db.rs"],
  [("sparse trees", "VanillaSparseMerkleTree4 and VanillaSparseMerkleTree8"), ("storage seam", "HashDb trait")])
p("C23", "Circuit proofs are accepted exactly for true statements",
  "For every ready-made circuit - range bounds, set membership and non-membership, non-zero, hash preimages and Merkle paths - a prover with a satisfying witness always produces a proof that verifies for the same public inputs, also after the proof was transported as bytes. No proof is accepted when the statement is false, the public inputs or commitments differ from the proven ones, any component of the proof was altered, or parts were taken from another proof; malformed proofs and too few commitments are refused, never a crash.",
  ["inputs", "histories", "fault_sequences"],
  "every satisfying and unsatisfying assignment around the boundaries of each circuit, every altered proof component and splice",
  "The tests prove one true statement per circuit and almost no false one.",
  ["libzmix/bulletproofs_amcl/src/r1cs/proof.rs", "libzmix/bulletproofs_amcl/src/r1cs/prover.rs", "libzmix/bulletproofs_amcl/src/r1cs/verifier.rs", "libzmix/bulletproofs_amcl/src/r1cs/gadgets", "libzmix/bulletproofs_amcl/src/ipp.rs"],
  [("constraint-system proofs", "libzmix/bulletproofs_amcl/src/r1cs/{prover,verifier}.rs"), ("ready-made circuits", "libzmix/bulletproofs_amcl/src/r1cs/gadgets/*.rs")])
p("C24", "Secret randomness is always fresh and its failure is never hidden",
  "Two runs of any randomized operation on the same inputs use independent randomness: no nonce, key, blinding, initialization vector, ephemeral commitment or share polynomial repeats within a process, across threads or after a restart, and two presentations of the same credential share no linkable value beyond what was revealed. When the operating system's randomness source fails, the operation fails; it never returns a result made with predictable or reused randomness.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every randomized operation repeated in any order, with the randomness source failing at any draw",
  "Tests never compare two randomized outputs and never make the randomness source fail.",
  ["libursa/src/bn/openssl.rs", "libursa/src/pair/amcl.rs", "libursa/src/cl/helpers.rs", "libursa/src/encryption/symm/mod.rs", "libursa/src/signatures/mod.rs", "libursa/src/kex/mod.rs", "ursa_sharing/src/shamir.rs"],
  [("random numbers", "libursa/src/bn/openssl.rs BigNumber::{rand,rand_range}, libursa/src/pair/amcl.rs random_mod_order"), ("nonces and keys", "libursa/src/encryption/symm/mod.rs, libursa/src/cl/mod.rs new_nonce")])
p("C25", "The portable build is the same system as the native build",
  "Built without OpenSSL the library does what it does with it: every number operation yields the same result or an error in both builds, numbers and messages written by one build are read back by the other as the same values, and refused by both alike; and issuers, holders, verifiers, dealers and shareholders of different builds work together - credentials issued, presented, revoked and secrets rebuilt across builds with the same verdicts as within one. Number drawing keeps to the requested ranges. No input crashes one build.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every number operation on every operand, every message between parties of either build, every history",
  "The tests run against one build only and never compare the two.",
  ["libursa/src/bn/rust.rs", "libursa/src/bn/openssl.rs", "libursa/src/cl", "libursa/src/sharing", "libursa/Cargo.toml"],
  [("portable arithmetic", "libursa/src/bn/rust.rs BigNumber"), ("native arithmetic", "libursa/src/bn/openssl.rs BigNumber")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
