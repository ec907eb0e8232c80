#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Spends and outputs are admitted exactly under the bundle's rules",
 "A builder admits a note to be spent exactly when spends are enabled for its bundle type, the note's address belongs to the supplied full viewing key (external or internal), and the note is worth zero or its Merkle path leads to the builder's anchor; it admits an output exactly when outputs are enabled. A refused request is reported with a reason that applies and leaves the builder as it was, and the one-shot bundle constructor and the action-count query refuse the same requests.",
 ["histories","inputs","configurations"],"every sequence of add-spend / add-output requests, for every bundle type, key, scope, value and Merkle path",
 "The tests add one or two valid spends of external notes and assert success only; refusals, internal-scope notes, zero-valued notes with foreign paths, coinbase and disabled types are never tried.",
 ["src/builder.rs","src/keys.rs","src/tree.rs"],
 [("add_spend / add_output guards","src/builder.rs: Builder::add_spend, Builder::add_output"),("ownership","src/builder.rs: SpendInfo::new; src/keys.rs: FullViewingKey::scope_for_address"),("anchor test","src/builder.rs: SpendInfo::has_matching_anchor"),("one-shot constructor","src/builder.rs: bundle; BundleType::num_actions")],
 [("spends, outputs","requests admitted so far, in order","src/builder.rs: Builder")],["results of add_spend/add_output, Builder::spends, Builder::outputs, Builder::value_balance"])

p("C02","A built bundle contains exactly what was requested, padded with dummies",
 "Building yields a bundle with max(2, spends, outputs) actions for a transactional type (none at all when nothing was requested and none is required) and exactly one action per output for coinbase, carrying the requested flags and anchor. Every requested spend's nullifier and every requested output (recipient, value, memo) appears exactly once, at the action index the returned metadata names for it, and the remaining slots are zero-valued dummies belonging to none of the parties.",
 ["inputs","histories","configurations"],"every bundle type, every number and mix of spends and outputs, every random seed (hence every shuffle)",
 "The tests build bundles of at most two actions and never look at the metadata of more than one output or at bundle types other than the default and spends-disabled.",
 ["src/builder.rs"],
 [("action count","src/builder.rs: BundleType::num_actions"),("padding, shuffling and index recording","src/builder.rs: bundle"),("metadata","src/builder.rs: BundleMetadata")],None,
 ["Bundle::actions, Bundle::flags, Bundle::anchor, BundleMetadata::spend_action_index / output_action_index, decryption of each action"])

p("C03","The value balance is exact or an error, never wrong",
 "The balance reported by a builder and the one recorded in the bundle it builds equal the sum of the requested spends minus the sum of the requested outputs, computed exactly, in the caller's amount type; when that amount does not fit a signed 64-bit integer or the caller's type, the operation fails with an overflow error. An error is possible only when some partial sum leaves the representable range, so every request whose partial sums fit succeeds.",
 ["inputs","histories"],"every multiset of spend and output values in 0..2^64-1, in any order, and every caller amount type",
 "The tests use single small values; no test has several spends, a negative balance together with spends, or any value near a 63/64-bit boundary.",
 ["src/builder.rs","src/value.rs"],
 [("running sum","src/builder.rs: Builder::value_balance; bundle"),("range checks","src/value.rs: ValueSum, VALUE_SUM_RANGE, TryFrom<ValueSum> for i64")],None,
 ["Builder::value_balance, Bundle::value_balance, BuildError::ValueSum"])

p("C04","Whatever the builder accepts can be proven, signed and verified",
 "Every bundle the builder produces can be proven, and once all its spends are signed it passes proof verification, spend-authorization and binding-signature verification, and batch validation. This holds for external and internal notes of several keys, at any tree position, for any values, any flags, zero-valued spends with arbitrary paths, and bundles made entirely of dummies.",
 ["inputs","configurations","histories"],"every request accepted by the builder: owners, scopes, tree positions, values, flags, number of actions",
 "The tests prove a shielding bundle and one that spends a single external note at position 0; the circuit tests use dummy notes only.",
 ["src/builder.rs","src/circuit.rs","src/bundle.rs","src/tree.rs","src/keys.rs"],
 [("witness generation","src/circuit.rs: Circuit::from_action_context_unchecked"),("public inputs","src/bundle.rs: Action::to_instance; src/circuit.rs: Instance::to_halo2_instance"),("binding key","src/builder.rs: bundle (bsk); src/bundle.rs: Bundle::binding_validating_key")],None,
 ["Bundle::verify_proof, redpallas verification, BatchValidator::validate"])

p("C05","A bundle is authorized exactly when every spend has been signed",
 "Finalizing succeeds exactly when every non-dummy spend has been signed, either by the spend authorizing key it belongs to or by an external signature valid for exactly one still-unsigned spend; dummy spends need no one. Signing with a key applies to all spends of that key and no others; an external signature valid for no unsigned spend, or for more than one, is an error; every signature in the result verifies under its action's key for the prepared sighash, whatever the order of the steps.",
 ["histories","schedules"],"every sequence and interleaving of prepare, prove, sign, append-signatures, apply-signatures and finalize, for every assignment of spends to keys",
 "The tests only call apply_signatures once with the right single key; appending external signatures, several signers, foreign keys and missing signatures are never exercised.",
 ["src/builder.rs","src/primitives/redpallas.rs"],
 [("prepare / sign / append / finalize","src/builder.rs: Bundle<InProgress<..>>::prepare, sign, append_signatures, finalize, apply_signatures"),("per-action slot","src/builder.rs: MaybeSigned")],
 [("slots","per action: unsigned or signed","src/builder.rs: MaybeSigned"),("sighash","message fixed by prepare","src/builder.rs: PartiallyAuthorized")],
 ["MaybeSigned in Action::authorization, result of append_signatures / finalize"])

p("C06","Authorizing a bundle never alters what it does",
 "From building to the final authorized bundle, every step (proving, preparing, signing, appending, finalizing, and mapping of authorization or balance types) leaves the sequence of actions, their contents and order, the flags, the anchor, the value balance and the transaction commitment unchanged, and keeps each authorization datum with its own action. A step that fails yields an error and no bundle.",
 ["histories","schedules"],"every sequence of authorization steps and generic maps over bundles of any size",
 "The tests never compare a bundle before and after a step, and use at most two actions, so reordering or swapping of authorizations across actions goes unseen.",
 ["src/bundle.rs","src/action.rs","src/builder.rs"],
 [("generic maps","src/bundle.rs: map_authorization, try_map_authorization, try_map_value_balance; src/action.rs: Action::map, try_map"),("steps","src/builder.rs: create_proof, prepare, sign, finalize")],None,
 ["Bundle accessors and Bundle::commitment before and after each step"])

p("C07","The transaction commitment covers every effect and nothing else",
 "A bundle's transaction commitment is exactly the ZIP 244 digest of its actions (in order), flags, value balance and anchor: any change to any of these changes it, and it does not depend on proof or signatures. The commitment for an absent bundle is the ZIP 244 empty digest, different from that of any bundle.",
 ["inputs"],"every bundle: any number of actions, any contents, any single or multiple alteration of an effecting byte, any authorization state",
 "No test computes a commitment of a bundle at all; equality of commitments between different bundles is never probed.",
 ["src/bundle/commitments.rs","src/bundle.rs"],
 [("digest layout","src/bundle/commitments.rs: hash_bundle_txid_data, hash_bundle_txid_empty"),("flag byte","src/bundle.rs: Flags::to_byte")],None,["Bundle::commitment"])

p("C08","The authorizing commitment covers the proof and every signature",
 "An authorized bundle's authorizing commitment is exactly the ZIP 244 digest of its proof bytes, each action's spend-authorization signature in action order, and the binding signature: any change to one of these changes it and nothing else does. For an absent bundle it is the ZIP 244 empty digest.",
 ["inputs"],"every authorized bundle: any number of actions, any proof bytes, any signatures, any alteration",
 "No test computes an authorizing commitment.",
 ["src/bundle/commitments.rs","src/bundle.rs"],
 [("digest layout","src/bundle/commitments.rs: hash_bundle_auth_data, hash_bundle_auth_empty")],None,["Bundle::authorizing_commitment"])

p("C09","A proof verifies only for the public values it was made for",
 "A bundle's proof verifies exactly for the anchor, flags, and sequence of actions' value commitments, nullifiers, randomized keys and note commitments it was created for; with any of these replaced, actions reordered, dropped, repeated or added, or proof bytes altered, verification reports failure. Verification always returns a verdict: no bundle or instance assembled from well-formed encodings makes it crash.",
 ["inputs","fault_sequences"],"every proven bundle and every alteration of its public inputs or of the bytes of its proof",
 "The tests verify honest proofs against their own instances only; no negative verification exists.",
 ["src/circuit.rs","src/bundle.rs"],
 [("public input mapping","src/circuit.rs: Instance::to_halo2_instance; src/bundle.rs: Action::to_instance, to_instances"),("verification","src/circuit.rs: Proof::verify, Proof::add_to_batch; src/bundle.rs: Bundle::verify_proof")],None,
 ["Bundle::verify_proof, Proof::verify, Proof::add_to_batch"])

p("C10","Batch validation accepts exactly when every member is valid on its own",
 "A batch of bundles, each with its sighash, is accepted exactly when each bundle's proof, each of its spend-authorization signatures and its binding signature verify individually. This holds for any number, order and repetition of bundles and any combination of defects, and an empty batch is accepted.",
 ["inputs","histories","fault_sequences"],"every sequence of bundles added to a batch, valid or with any defect in proof, spend signature, binding signature, sighash, balance or effects",
 "The batch validator is not called by any test except through one round trip of a valid bundle; invalid members are never batched.",
 ["src/bundle/batch.rs","src/primitives/redpallas.rs","src/circuit.rs"],
 [("collecting","src/bundle/batch.rs: BatchValidator::add_bundle"),("verdict","src/bundle/batch.rs: BatchValidator::validate")],
 [("signatures, proofs","items queued so far","src/bundle/batch.rs: BatchValidator")],["BatchValidator::validate"])

p("C11","Only true action statements can be proven",
 "A proof for an action verifies only if the spent note is worth zero or is in the tree with the stated anchor, a non-zero spend or output occurs only with the corresponding flag enabled, the value commitment commits to spent minus created value, the nullifier and randomized key are those of the spent note and its owner, and the note commitment is that of the created note; and every such statement can be proven. Assembling a circuit from an action context is refused when the created note's rho is not the spent note's nullifier.",
 ["inputs","fault_sequences"],"every action context (notes, keys, scopes, paths, values, randomness) combined with every true or false public statement about it",
 "The circuit tests prove a single true statement about a zero-valued dummy note; false statements and spends of valued or internal notes are never given to the prover.",
 ["src/circuit.rs","src/circuit/gadget.rs","src/circuit/note_commit.rs","src/circuit/commit_ivk.rs"],
 [("witness assignment","src/circuit.rs: Circuit::from_action_context"),("constraints","src/circuit.rs: synthesize")],None,["Proof::create + Proof::verify, MockProver over Circuit"])

p("C12","The recipient recovers exactly what was sent, and no one else does",
 "The holder of an incoming viewing key recovers from an action, or from its compact form, exactly the note (and memo) sent to any address of that key, and gets nothing from an action sent to another key or the other scope. Scanning a whole bundle with a list of keys, decrypting one action by index, compact decryption and batch decryption all report the same outputs, each with the right action index and key.",
 ["inputs","configurations"],"every note value, memo, address, scope, list of keys (any order, duplicates) and set of actions",
 "Tests decrypt fixed vectors with the right key only; the bundle-level scanning, by-index and batch functions have no test.",
 ["src/note_encryption.rs","src/bundle.rs","src/keys.rs"],
 [("note encryption domain","src/note_encryption.rs: OrchardDomain"),("bundle scanning","src/bundle.rs: decrypt_outputs_with_keys, decrypt_output_with_key"),("batching","src/note_encryption.rs: batch_kdf; src/keys.rs: SharedSecret::batch_to_affine")],None,
 ["Bundle::decrypt_outputs_with_keys, decrypt_output_with_key, zcash_note_encryption::{try_note_decryption, try_compact_note_decryption, batch}"])

p("C13","The sender recovers sent notes exactly with the outgoing viewing key used",
 "The holder of the outgoing viewing key an output was created with recovers exactly its note, recipient and memo; any other outgoing viewing key recovers nothing, and an output created without one is recoverable by none. Scanning a bundle with a list of keys and recovering one action by index agree, with the right action index and key.",
 ["inputs","configurations"],"every output, every choice of outgoing viewing key or none, and every list of keys",
 "The bundle-level recovery functions have no test; recovery is only run on fixed vectors with the right key.",
 ["src/note_encryption.rs","src/bundle.rs","src/builder.rs"],
 [("outgoing cipher key","src/note_encryption.rs: prf_ock_orchard, outgoing_plaintext_bytes"),("bundle scanning","src/bundle.rs: recover_outputs_with_ovks, recover_output_with_ovk")],None,
 ["Bundle::recover_outputs_with_ovks, recover_output_with_ovk"])

p("C14","A tampered or malformed output never decrypts to anything",
 "If any part of an action that note decryption depends on (ephemeral key, note ciphertext, note commitment, nullifier, and for sender recovery also value commitment and outgoing ciphertext) is altered or taken from another action, decryption with the original keys reports nothing rather than a wrong note. The same holds for outputs a malicious sender encrypted with a wrong version byte, a commitment to a different note, an ephemeral key not derived from the note's seed, or an inconsistent outgoing plaintext.",
 ["inputs","fault_sequences"],"every action and every alteration of its parts, every malformed plaintext an adversarial sender can encrypt",
 "No test alters a ciphertext or any other field; the decryption tests are positive only.",
 ["src/note_encryption.rs"],
 [("plaintext checks","src/note_encryption.rs: orchard_parse_note_plaintext_without_memo"),("commitment and ephemeral key checks","zcash_note_encryption via OrchardDomain::{cmstar, derive_esk, ka_derive_public, epk_bytes}")],None,
 ["try_note_decryption, try_compact_note_decryption, try_output_recovery_with_ovk"])

p("C15","Every key is exactly the one the protocol derives",
 "From a spending key, the spend authorizing and validating keys, full viewing key, external and internal incoming and outgoing viewing keys, diversifiers and addresses are exactly those the Zcash protocol specifies, and deriving them through a serialized full viewing key or incoming viewing key gives the same results. The external and internal scopes and different spending keys never share a viewing key or an address, and a randomized authorizing key always matches the identically randomized validating key.",
 ["inputs"],"every spending key, scope, diversifier index and randomizer",
 "Ten fixed vectors cover a subset of the derivations once each; branches taken for half of the keys (sign normalisation) and most scope/derivation combinations rely on these vectors.",
 ["src/keys.rs","src/spec.rs"],
 [("derivations","src/keys.rs: SpendAuthorizingKey, FullViewingKey, IncomingViewingKey, DiversifierKey, Address"),("primitives","src/spec.rs: commit_ivk, diversify_hash, ka_orchard, to_base, to_scalar")],None,
 ["to_bytes of each key and address"])

p("C16","Parsers accept exactly the canonical encodings and round-trip them",
 "Parsing the encoding of a full viewing key, incoming viewing key, spend validating key, address, nullifier, rho, note commitment, anchor, Merkle hash (also through serde), value commitment, commitment trapdoor, signing or verification key, or flags byte succeeds exactly when the bytes are the canonical encoding of a valid value, and re-encoding gives back the same bytes. Non-canonical field elements, points off the curve, disallowed identities, zero viewing keys, negative spend validating keys and reserved flag bits are rejected without panicking.",
 ["inputs"],"every byte string of the right length, in particular values at and around the field moduli, in every field of the encoding",
 "Round trips and rejection are tested for a handful of values of some key types; most types and nearly all boundary encodings are not.",
 ["src/keys.rs","src/address.rs","src/note.rs","src/note/nullifier.rs","src/note/commitment.rs","src/tree.rs","src/value.rs","src/bundle.rs","src/primitives/redpallas.rs"],
 [("from_bytes / to_bytes pairs","src/keys.rs, src/address.rs, src/note/*.rs, src/tree.rs, src/value.rs, src/primitives/redpallas.rs"),("flags byte","src/bundle.rs: Flags::from_byte, to_byte")],None,
 ["from_bytes / to_bytes / read / write / serde of each type"])

p("C17","A viewing key recognizes exactly its own addresses, with scope and index",
 "A full viewing key attributes an address to its external or internal scope exactly when that scope's incoming viewing key generated it, and to none otherwise; the incoming viewing key returns exactly the diversifier index that generates the address and nothing for a foreign or altered address. Distinct indices give distinct addresses, and generating by index or by the resulting diversifier agree.",
 ["inputs"],"every full viewing key, scope, 88-bit diversifier index, and every foreign or altered address",
 "The index test uses two keys and three small indices; scope attribution of internal and altered addresses is untested.",
 ["src/keys.rs","src/address.rs"],
 [("recognition","src/keys.rs: FullViewingKey::scope_for_address, IncomingViewingKey::diversifier_index"),("permutation","src/keys.rs: DiversifierKey::get, diversifier_index")],None,
 ["scope_for_address, diversifier_index, address_at, address"])

p("C18","Account keys follow ZIP 32 exactly",
 "The spending key derived from a seed, coin type and account is exactly the ZIP 32 hardened derivation along purpose 32, coin type and account, and coin types of 2^31 or more are refused with an error. Different accounts, coin types or seeds give different keys, and the same inputs always give the same key.",
 ["inputs"],"every seed of 32 to 252 bytes, every coin type and every account index",
 "The tests only check that derivation succeeds and is self-consistent for one zero seed; no output value is pinned.",
 ["src/zip32.rs","src/keys.rs"],
 [("master and child derivation","src/zip32.rs: ExtendedSpendingKey::master, derive_child, from_path"),("path","src/keys.rs: SpendingKey::from_zip32_seed")],None,["SpendingKey::from_zip32_seed"])

p("C19","Note commitments and nullifiers are exact, and a note has only one nullifier",
 "The commitment of a note is exactly the protocol's commitment to its address, value, rho and seed, and its nullifier under a full viewing key is exactly the protocol's, so two notes differing in any component have different commitments and different nullifiers, and notes compare equal exactly when their commitments agree. The note an action creates always takes the nullifier revealed by that action as its rho, and the note a recipient recovers has the same commitment and nullifier as the one the sender created.",
 ["inputs","histories"],"every note (address, value, rho, seed), every full viewing key, every chain of spends and outputs",
 "Fixed vectors pin a few values; uniqueness and the rho-nullifier chain over several transactions are not checked.",
 ["src/note.rs","src/note/commitment.rs","src/note/nullifier.rs","src/builder.rs"],
 [("commitment","src/note/commitment.rs: NoteCommitment::derive"),("nullifier","src/note/nullifier.rs: Nullifier::derive"),("seed expansion","src/note.rs: RandomSeed::{psi, rcm, esk}"),("chaining","src/builder.rs: ActionInfo::build")],None,
 ["Note::commitment, Note::nullifier, Action::rho, Action::nullifier"])

p("C20","Merkle paths prove exactly the leaves of the commitment tree",
 "For every history of appended note commitments and every leaf, the authentication path computes the tree's anchor at that leaf's position and for that leaf's value, and computes a different anchor for any other value, position or altered path. Node hashes, empty-subtree roots and the empty anchor are exactly the protocol's at every level.",
 ["histories","inputs"],"every sequence of appends, every position in 0..2^32-1 and every sibling at every level",
 "Vectors cover the first sixteen leaves of a depth-4 tree through an external tree type; root computation from a path at positions other than 0 is not tested.",
 ["src/tree.rs"],
 [("path root","src/tree.rs: MerklePath::root"),("node hash","src/tree.rs: MerkleHashOrchard::combine"),("empty roots","src/tree.rs: EMPTY_ROOTS, Anchor::empty_tree")],
 [("leaves","note commitments appended so far","incrementalmerkletree over src/tree.rs: MerkleHashOrchard")],["MerklePath::root, Anchor, MerkleHashOrchard"])

p("C21","Value sums and value commitments are exact and additive",
 "Subtracting note values and adding value sums gives the exact integer or reports overflow when it leaves the range of plus or minus (2^64 - 1), and conversion to a 64-bit signed integer succeeds exactly when the value fits. A value commitment is exactly the protocol's for every representable value of either sign, opposite and summed values give opposite and summed commitments, and different values or trapdoors give different commitments.",
 ["inputs"],"every pair or list of note values and sums including all boundaries, every trapdoor",
 "One property test compares keys for sums that cannot overflow; boundary values, overflow detection and exact commitments are not tested.",
 ["src/value.rs"],
 [("ranges","src/value.rs: ValueSum Add/Sub/Sum/TryFrom, VALUE_SUM_RANGE"),("commitment","src/value.rs: ValueCommitment::derive, Add, Sub, Sum")],None,
 ["NoteValue - NoteValue, ValueSum + ValueSum, i64::try_from, ValueCommitment"])

p("C22","Over any chain history money is conserved and spent only once, by its owner",
 "On a chain that accepts a bundle when batch validation passes, its anchor is a past tree root and its nullifiers are new, the value held in the pool always equals the sum of all unspent notes, every note is spent at most once and only with its owner's authorization, and each wallet's scanned notes and balance are exactly what it was sent and has not spent. Replayed, double-spending, balance-altered, flag-altered, wrongly signed and wrong-sighash submissions are rejected and change nothing.",
 ["histories","fault_sequences","schedules"],"every history of coinbase, shielding, transfer and unshielding bundles interleaved with adversarial submissions",
 "The only multi-step test is a single shield-then-spend chain without scanning, rejection or balance accounting.",
 ["src/builder.rs","src/bundle.rs","src/bundle/batch.rs","src/note_encryption.rs","src/tree.rs","src/note/nullifier.rs"],
 [("validity","src/bundle/batch.rs: BatchValidator"),("uniqueness","src/note/nullifier.rs: Nullifier::derive; src/builder.rs: ActionInfo::build"),("scanning","src/bundle.rs: decrypt_outputs_with_keys")],
 [("tree, nullifiers, pool","chain state","harness node driven by public API")],["verdict for each submitted bundle, wallet balances, tree root"])

p("C23","Signatures bind the right key, the sighash and the value balance",
 "A spend-authorization signature made with the randomized key of an action verifies exactly under that action's randomized validating key and for that sighash. A bundle's binding signature verifies exactly for that sighash under the key determined by the sum of its value commitments minus its declared value balance, so altering the balance, any value commitment, or the set of actions invalidates it while reordering actions does not.",
 ["inputs","fault_sequences"],"every key, randomizer, message and alteration of signature, message, key, balance, commitments or set of actions",
 "Tests verify signatures only positively for one key; altered balances and swapped commitments are never tried against a binding signature.",
 ["src/primitives/redpallas.rs","src/bundle.rs","src/keys.rs","src/builder.rs"],
 [("randomization","src/primitives/redpallas.rs: SigningKey::randomize, VerificationKey::randomize"),("binding key","src/bundle.rs: Bundle::binding_validating_key; src/builder.rs: bundle")],None,
 ["VerificationKey::verify, Bundle::binding_validating_key"])

p("C24","Bundles reveal neither arrangement nor repetition",
 "Whatever the order in which spends and outputs were requested, every arrangement of the spends and, independently, of the outputs over the actions can occur. All randomized parts (randomized keys, value commitments, note seeds hence note commitments, ephemeral keys, ciphertexts, dummy nullifiers) are fresh in every action of every bundle and never equal their unrandomized form, while a real spend always reveals its one nullifier.",
 ["inputs","histories","schedules"],"every request, over all random seeds: all arrangements are reachable and no two actions ever share a randomized part",
 "No test builds the same request twice or inspects how positions or randomizers vary.",
 ["src/builder.rs","src/note.rs","src/value.rs"],
 [("shuffling","src/builder.rs: bundle"),("randomizers","src/builder.rs: ActionInfo::new (rcv), ActionInfo::build (alpha, rseed); SpendInfo::dummy, OutputInfo::dummy")],None,
 ["public fields of the actions of repeatedly built bundles, BundleMetadata"])
p("C25","Bundles of arbitrary parts are always handled, with the right verdict",
 "Whatever well-formed parts a bundle is assembled from (identity points, zero and maximal field elements, ephemeral keys that are no points, arbitrary ciphertexts, signatures, proofs, flags and balances, any number and repetition of actions), every consumer of it answers without panicking: proof, signature and batch verification, the binding key, both commitments, decryption and recovery in all their forms, and authorization mapping. Every answer is the one that follows from the parts: such a bundle is accepted or an output of it read exactly when all parts that verdict depends on are genuine.",
 ["inputs","fault_sequences"],"every combination of genuine, exchanged and extreme parts in every position, for every consumer at once",
 "Tests only consume bundles made honestly by the builder, or strategies that are never verified; none puts extreme parts into a bundle.",
 ["src/bundle.rs","src/action.rs","src/bundle/batch.rs","src/bundle/commitments.rs","src/note_encryption.rs","src/circuit.rs","src/primitives/redpallas.rs","src/value.rs"],
 [("verification","src/circuit.rs: Proof::verify, Instance::to_halo2_instance; src/bundle/batch.rs"),("reading","src/note_encryption.rs; src/bundle.rs: decrypt/recover"),("binding key","src/bundle.rs: binding_validating_key")],None,
 ["verdicts of all consumers of a bundle made by Bundle::from_parts and Action::from_parts"])

p("C26","An answer depends on the question only, not on what was asked before",
 "Derivations (keys, addresses, commitments, nullifiers, roots, randomized keys), digests, decryption, recovery and every kind of verification give the same answer for the same arguments however often and in whatever order they are asked, on any number of threads at once, and never the answer that belongs to other arguments. Building a bundle draws all its randomness from the generator it is given, so equal requests with equally seeded generators give equal bundles.",
 ["histories","schedules","inputs"],"every sequence of questions with neighbouring arguments and every interleaving of threads asking them",
 "Every test asks each question once, in one order, so state kept between calls (caches, pools, precomputation) is never exercised.",
 ["src/keys.rs","src/note.rs","src/tree.rs","src/value.rs","src/spec.rs","src/zip32.rs","src/note_encryption.rs","src/bundle.rs","src/builder.rs","src/circuit.rs"],
 [("derivations","src/keys.rs, src/note/*.rs, src/tree.rs, src/value.rs, src/zip32.rs"),("verification","src/bundle.rs, src/bundle/batch.rs, src/circuit.rs"),("randomness","src/builder.rs: bundle")],None,
 ["results of public functions in long mixed call sequences on many threads"])

p("C27","Values compare equal exactly when they are the same",
 "Keys, addresses, diversifiers, nullifiers, commitments, tree hashes, anchors, amounts, notes, flags and bundle types compare equal (also in constant time, where that is offered) exactly when all their components are equal, whether they were derived, parsed, computed or copied. Where an ordering is offered it is a total order that agrees with equality, so such values can serve as keys of ordered collections.",
 ["inputs"],"every pair and triple of values, in particular those differing in a single bit, sign or component",
 "Tests compare values only to check a round trip, so an equality that ignores a component or an inconsistent order passes.",
 ["src/keys.rs","src/address.rs","src/note.rs","src/note/nullifier.rs","src/note/commitment.rs","src/tree.rs","src/value.rs","src/bundle.rs","src/builder.rs","src/primitives/redpallas.rs"],
 [("keys","src/keys.rs, src/primitives/redpallas.rs: PartialEq, Ord, ConstantTimeEq"),("notes","src/note.rs, src/note/*.rs: PartialEq, ConstantTimeEq")],None,
 ["==, cmp, ct_eq of public types"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
