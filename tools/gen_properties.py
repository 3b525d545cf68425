#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

MT = "src/crypto/merkletrie/"
p("C01", "Merkle trie is a set and its root depends only on the set's contents",
  "After any sequence of additions and deletions of equal-length elements, each call reports whether it changed membership, and the trie's root hash is exactly the reference (go-algorand) hash of the current element set: independent of order, of deleted elements, of how often the root was computed in between and of the storage backend; the empty trie has the zero hash. An element of the wrong length is refused with an error and changes nothing, and a deleted-to-empty trie accepts elements of a new length.",
  ["histories", "inputs"], "every add/delete/root_hash history over small alphabets of elements with shared prefixes of every length, for every element length",
  "tests run a handful of fixed hash lists in one order; sharing patterns, interleaved root computations and mixed lengths are not enumerated",
  [MT+"trie.rs", MT+"node.rs", MT+"cache.rs"],
  [("Trie::add / delete / root_hash", MT+"trie.rs"), ("Node::add / remove / find / calculate_hash", MT+"node.rs")],
  ["Trie public API return values and root_hash"])
p("C02", "Merkle trie storage holds exactly the live nodes and can be re-read",
  "At every point of any history the storage backend holds exactly the nodes reachable from the root (no leaked and no dangling nodes, nothing once the trie is empty), and once the root hash has been computed a fresh trie opened on the same storage at the same root gives the same root hash and the same membership answer for every element.",
  ["histories"], "every add/delete/root_hash history over small alphabets, both storage backends",
  "the tests look at total storage size before and after one fixed mass add/remove",
  [MT+"cache.rs", MT+"node.rs", MT+"trie.rs", MT+"storage.rs"],
  [("MerkleTrieCache::set_node / delete_node (write-through)", MT+"cache.rs"), ("Node id reuse in Node::add / remove", MT+"node.rs")],
  ["Storage trait: store_node / load_node calls"])
p("C03", "Trie node codec round-trips and its decoder is total",
  "Every trie node that a trie stores decodes to a node with the same kind, hash and children; decoding any byte string at all either yields a node whose fields are contained in those bytes or is rejected, without panicking and without allocating more than a small multiple of the input.",
  ["inputs"], "all byte strings up to a small length over the full byte alphabet, all truncations and single-byte edits of real nodes, extreme length prefixes",
  "one test round-trips nodes of a single 1024-leaf trie; no malformed bytes are ever decoded",
  [MT+"node.rs"], [("Node::serialize / Node::deserialize", MT+"node.rs")], ["Node::serialize / deserialize"])
p("C04", "Merkle trie survives storage faults without losing or inventing elements",
  "If the storage backend returns an error during an operation, the trie reports an error instead of panicking; and the trie still represents the set it held before the failed call: once storage works again, every later call answers as if the failed call had never been made. A trie re-opened on a device that lost a node, or the end of one, reports errors or answers rightly; it does not take what is left for something else.",
  ["fault_sequences", "histories"], "every single and double storage failure position in every short history",
  "no test ever injects a storage error", [MT+"trie.rs", MT+"cache.rs"],
  [("error propagation in Trie::add / delete / root_hash", MT+"trie.rs")], ["Storage implementation with injected errors"])

MA = "src/crypto/merklearray/"
p("C05", "Merkle array proofs: complete, sound and bound to every element",
  "For every array and every set of positions, the tree's proof verifies against its root for exactly the claimed elements; any single change to an element, a position, the root or a proof hash (altered, removed, added, swapped) is rejected; out-of-range positions are an error, and different arrays have different roots.",
  ["inputs"], "all array sizes and all position subsets up to a bound; all single mutations of each accepted proof",
  "tests sample sizes with one position pattern each and only a few negative cases",
  [MA+"merkle.rs", MA+"partial.rs", MA+"layer.rs"],
  [("Tree::build / prove / verify", MA+"merkle.rs"), ("PartialLayer::up", MA+"partial.rs"), ("Layer::up / Pair", MA+"layer.rs")],
  ["Tree API"])
p("C06", "Batch signature verification agrees with individual verification",
  "A batch verifies exactly when every enqueued (key, message, signature) triple verifies individually, for any non-empty batch, any position of invalid entries, any number of verify calls in between, and regardless of the size hint; an empty batch is refused with an error.",
  ["inputs", "histories"], "all batches up to a bound over valid/invalid entry kinds, all enqueue/verify interleavings",
  "tests use one all-valid batch and one with a single invalid entry",
  ["src/crypto/batch_verifier.rs"], [("BatchVerifier::enqueue / verify", "src/crypto/batch_verifier.rs")], ["BatchVerifier API"])
p("C07", "A multisignature verifies exactly with threshold-many, all-valid signatures",
  "A multisignature verifies if and only if its version is supported, its key list and threshold hash to the claimed address, there is at least one and at most 255 keys, 1 <= threshold <= number of keys, at least threshold signatures are present and every present signature is valid for its own slot; duplicate keys count once per slot; a signer whose key is not listed cannot contribute; batch verification gives the same verdict.",
  ["inputs", "configurations"], "all key lists (with duplicate keys) up to 4 keys, all thresholds, all subsets of signature kinds (absent, valid, wrong message, wrong signer, corrupted), all versions",
  "tests use random keys with a handful of thresholds and presence patterns",
  ["src/crypto/multisig.rs"], [("multisig_verify / multisig_batch_verify", "src/crypto/multisig.rs"), ("multisig_addr_gen", "src/crypto/multisig.rs"), ("multisig_sign", "src/crypto/multisig.rs")],
  ["multisig API"], "cfg(verif) re-export of multisig internals")
p("C08", "Multisig combination is order-independent and never loses or forges signatures",
  "Assembling, adding to and merging partial multisignatures over the same preimage yields the union of the signatures present in the inputs, whatever the order or grouping; inputs with different versions, thresholds or key lists are refused and leave the receiver unchanged, adding and merging refuse conflicting signatures for the same slot, and the result verifies exactly if that union of signatures does.",
  ["inputs", "histories"], "all sequences of partial signatures up to 3 keys and 3 parts, all combination orders",
  "tests combine two or three fixed parts in one order", ["src/crypto/multisig.rs"],
  [("multisig_assemble / multisig_add / multisig_merge", "src/crypto/multisig.rs")], ["multisig API"], "cfg(verif) re-export of multisig internals")
p("C09", "One-time signatures verify exactly for their own round and are forward secure",
  "A one-time signature produced for an identifier verifies for exactly that message, identifier and verifier and for no other; signing succeeds exactly for identifiers in the retained range and gives an unverifiable signature otherwise; after deleting keys before an identifier, no state obtainable from the secrets can sign for any earlier identifier, later identifiers still sign, and deletion is idempotent and monotone.",
  ["histories", "inputs"], "every sequence of sign / delete-before / snapshot-restore operations over small batch and offset ranges, compared with a reference key-set model",
  "tests delete along one path and check neighbours", ["src/crypto/ots.rs"],
  [("OneTimeSignatureSecrets::sign / delete_before_fine_grained", "src/crypto/ots.rs"), ("OneTimeSignatureVerifier::verify", "src/crypto/ots.rs")], ["ots API"])
p("C10", "VRF proofs are complete, unique, key-bound and message-bound",
  "A VRF proof made with a key verifies under that key's public key and the proved message, with the same output as the prover computed; under another key, another message, or with any altered bit in the proof it is rejected; public keys of small order, for which anybody could make proofs, are refused; verifying with arbitrary bytes as public key or proof never panics.",
  ["inputs"], "all single-bit flips of proofs and keys over a set of keys and messages of every small length, boundary encodings (zero, all-ones, low-order and non-canonical points, scalars at and above the group order)",
  "tests use three fixed vectors plus random valid proofs", ["src/crypto/vrf.rs"],
  [("VrfPublicKey::verify / VrfPrivkey::prove", "src/crypto/vrf.rs"), ("proof decoding and hash-to-curve", "src/crypto/vrf.rs")], ["vrf API"], "cfg(verif) access to raw proof/key bytes")
p("C11", "Addresses and digests have exactly one textual form and parsing is total",
  "Formatting then parsing an address or digest gives the same value back; a string parses as an address only if it is exactly the canonical text of that address (58 characters, right alphabet, zero trailing bits, matching checksum), likewise for 52-character digests and transaction IDs; every other string is rejected with an error, never a panic or a different value.",
  ["inputs"], "all lengths around the boundary, every single-character substitution, insertion, deletion and transposition, all values of trailing bits, other encodings (lower case, padding, unicode)",
  "tests use a few fixed strings and random round trips", ["src/data/basics/address.rs", "src/crypto/hashable.rs", "src/data/transactions/transaction.rs"],
  [("Address FromStr / Display", "src/data/basics/address.rs"), ("CryptoHash FromStr / Display", "src/crypto/hashable.rs"), ("TxID FromStr / Display", "src/data/transactions/transaction.rs")], ["FromStr / Display"])
p("C12", "Mnemonics encode keys one-to-one and reject anything else",
  "Every 32-byte key has a mnemonic of 25 listed words that decodes back to exactly that key; a word list decodes only if it has 25 words, all from the list, the right checksum word and zero padding bits, so that no two accepted phrases give the same key; everything else is an error, never a panic or a different key.",
  ["inputs"], "every single-bit key and structured keys, every replacement of any word by any other listed word, every transposition and length change",
  "tests cover one random key and a few wrong phrases", ["src/crypto/mnemonic.rs"],
  [("key_to_mnemonic / mnemonic_to_key, checksum", "src/crypto/mnemonic.rs")], ["mnemonic API"])
p("C13", "Encoding of protocol objects is canonical, injective and decodable",
  "Encoding any transaction, signed transaction, in-block transaction or block header with any combination of set and unset fields yields bytes that decode to an equal object; two objects that differ in any field have different encodings and therefore different hashes and transaction IDs; encoding the same object twice gives the same bytes, whatever the insertion order of its maps; a transaction's kind, its header and a payment's fields stand under the names the Algorand protocol gives them (type, snd, fee, fv, lv, note, gen, gh, grp, lx, rekey, rcv, amt, close) and are read under them in any order.",
  ["inputs"], "all subsets of optional fields set to non-default values (pairwise across fields, exhaustively within a structure), all map insertion orders",
  "tests check that a default object encodes to one byte and a few hash prefixes", ["src/protocol/codec.rs", "src/protocol/hash.rs", "src/data/transactions/", "src/data/bookkeeping/block.rs", "src/data/basics/address.rs"],
  [("protocol::encode / decode", "src/protocol/codec.rs"), ("serde attributes of the transaction structures", "src/data/transactions/")], ["encode / decode / hash_obj / Transaction::id"])
p("C14", "Transactions survive being put into a block and taken out again",
  "For every protocol and every signed transaction whose genesis ID and hash are either absent or those of the block, encoding it for the block and decoding it from the block returns the same signed transaction and apply data; a transaction with a foreign genesis ID or hash is refused for encoding, and in-block flags that contradict or duplicate the transaction's own fields, or that the protocol implies, are refused when decoding; protocols without the compact in-block form pass transactions through unchanged; unsupported protocols are refused.",
  ["inputs", "configurations"], "all combinations of genesis ID/hash presence, equality, protocol flags and block flags, for every protocol version",
  "no test covers the in-block codec's combinations", ["src/data/bookkeeping/block.rs", "src/data/transactions/signed_tx.rs"],
  [("BlockHeader::encode_signed_tx / decode_signed_tx", "src/data/bookkeeping/block.rs")], ["encode_signed_tx / decode_signed_tx"])
p("C15", "The block header's payset commitment binds the transactions of the block",
  "A block's contents match its header exactly when the payset is the one the commitment was computed for: changing, adding, removing, reordering or re-flagging any in-block transaction is detected, for both commitment types; under protocols without a supported commitment nothing matches; computing or checking the commitment of any block from the network gives an answer or an error but never a panic.",
  ["inputs", "configurations"], "all paysets up to 4 transactions drawn from a small alphabet, all single edits, all protocol versions including unknown ones",
  "no test checks that a modified payset is refused", ["src/data/bookkeeping/block.rs", "src/data/bookkeeping/tx_merkle.rs", "src/data/transactions/payset.rs"],
  [("Block::payset_commit / contents_match_header", "src/data/bookkeeping/block.rs"), ("TxMerkleArray", "src/data/bookkeeping/tx_merkle.rs"), ("payset commit", "src/data/transactions/payset.rs")], ["Block API"])
p("C16", "A proposed successor block passes validation and every corrupted one fails",
  "A header made as successor of a valid header under a supported protocol passes the succession check against its predecessor; the same header with its round, predecessor hash, upgrade state, timestamp bounds, genesis ID or genesis hash changed is refused; making a successor or checking one never modifies the predecessor, and checking never panics, also for unsupported protocol versions and extreme rounds or timestamps.",
  ["inputs", "histories"], "chains of successors over a tiny protocol table, all single-field corruptions at each step, boundary rounds and timestamps",
  "block tests cover only header construction on one protocol", ["src/data/bookkeeping/block.rs"],
  [("Block::new", "src/data/bookkeeping/block.rs"), ("BlockHeader::pre_check", "src/data/bookkeeping/block.rs")], ["Block::new / pre_check"])
p("C17", "Protocol upgrades happen exactly when voted for, and never otherwise",
  "From any chain history, a protocol switch takes effect exactly at the scheduled round and only if a proposal approved by the proposing protocol received at least the threshold of approvals before its vote deadline, with a delay inside the allowed window; at most one proposal is pending at any time, approvals without a proposal and competing proposals are refused, and failed proposals are cleared completely; the next protocol version, its switch round and its support announced from a header are those of its pending proposal.",
  ["histories", "configurations"], "every vote sequence over a tiny protocol table (vote rounds, thresholds, delays of 0 to 3) to depth 6+, all states reached and compared with a reference machine",
  "one table-driven test checks a few steps of one upgrade", ["src/data/bookkeeping/block.rs", "src/config/consensus.rs"],
  [("UpgradeState::apply_upgrade_vote", "src/data/bookkeeping/block.rs"), ("process_upgrade_params", "src/data/bookkeeping/block.rs")], ["UpgradeState / Block::new chains"], "cfg(verif) access to apply_upgrade_vote")
p("C18", "Rewards are paid out of the pool and never create money",
  "Over any sequence of rounds, pool balances and stake sizes, the amount handed to accounts plus the carried residue equals what was taken from the pool at the current rate, the rewards level never decreases, the rate is only recalculated at the refresh round from what the pool can spend above its minimum, and overflow of level, rate or residue leaves them as they were instead of wrapping or panicking.",
  ["histories", "inputs"], "state machine over small and boundary balances, unit counts, rates, refresh intervals and both protocol flavours to a bounded depth against a big-integer reference",
  "no test executes the rewards state machine over more than single steps", ["src/data/bookkeeping/block.rs"],
  [("RewardsState::next_state", "src/data/bookkeeping/block.rs")], ["RewardsState API"])
p("C19", "Account balances, rewards and minimum balance follow the reference arithmetic",
  "For every account record and rewards level whose exact results fit their 64-bit fields: rewards are earned only by participating accounts and equal full reward units times the level difference; adding rewards preserves money plus earned rewards; the minimum balance is the sum of its per-resource terms and never wraps; the normalised online balance is the exact scaled value for every balance and order-preserving at a fixed level; offline accounts have no voting stake; rounding of rounds and amounts is exact; a balance record's hash covers its address and every field of its account data.",
  ["inputs", "configurations"], "boundary cross products of balances, levels, statuses, resource counts and all protocol versions against a 128-bit reference",
  "tests use a few mid-range values", ["src/data/basics/user_balance.rs", "src/data/basics/units.rs"],
  [("AccountData::with_updated_rewards / min_balance / normalized_online_balance / voting_stake", "src/data/basics/user_balance.rs"), ("MicroAlgos / Round arithmetic", "src/data/basics/units.rs")], ["user_balance API"], "cfg(verif) access to account data")
p("C20", "Transaction well-formedness is exactly the protocol's rule set",
  "A transaction is accepted as well-formed exactly if it meets every rule the given protocol switches on: fee minimum, lifetime length and order, note and lease limits, sender not empty or the rewards pool, group and application support and size limits, key registration coherency, fee sink spending limits; every rejection names a violated rule and no transaction causes a panic.",
  ["inputs", "configurations"], "boundary values of every field, singly and pairwise, for every transaction type, against an independent rule table, over all protocol versions plus synthetic feature toggles",
  "unit tests list about two dozen hand-picked transactions on two protocols", ["src/data/transactions/transaction.rs", "src/data/transactions/keyreg.rs", "src/data/transactions/payment.rs", "src/data/transactions/application.rs"],
  [("Transaction::is_well_formed", "src/data/transactions/transaction.rs"), ("KeyregFields::check_coherency", "src/data/transactions/keyreg.rs"), ("PaymentFields::check_spender", "src/data/transactions/payment.rs")], ["is_well_formed"])
p("C21", "A transaction is alive exactly inside its validity window on its own chain",
  "A transaction may be included in a block exactly if the block's round lies within its first and last valid round (inclusive), its genesis ID, if any, is the chain's, and its genesis hash is the chain's or absent where the protocol allows absence.",
  ["inputs", "configurations"], "full boundary cross product of rounds, genesis IDs, hashes and protocol flags",
  "not tested", ["src/data/transactions/transaction.rs"], [("Transaction::alive", "src/data/transactions/transaction.rs")], ["alive"], "cfg(verif) access")
p("C22", "Grouping of a payset preserves order, content and group boundaries; fees add up",
  "Decoding a block's payset into groups and flattening the groups again gives the same transactions in the same order; consecutive transactions share a group exactly if they carry the same non-zero group ID; the fees credited for a group are the exact surplus over the minimum required, and a shortfall or overflow is an error; the group ID of a list of transactions depends on exactly its contents and order.",
  ["inputs"], "all sequences up to length 5 over a small alphabet of group IDs, all fee combinations from a boundary set and type mixes",
  "not tested", ["src/data/bookkeeping/block.rs", "src/data/transactions/signed_tx.rs", "src/data/signed_tx_group.rs"],
  [("Block::decode_payset_groups", "src/data/bookkeeping/block.rs"), ("fee_credit", "src/data/transactions/signed_tx.rs"), ("group IDs", "src/data/signed_tx_group.rs")], ["decode_payset_groups / fee_credit"])
p("C23", "App-call references resolve to the declared account, asset or application only",
  "In an application call, index 0 denotes the sender or the called application and index i the i-th declared account or foreign application; looking up an account or application gives its first such index; and anything undeclared or out of range is an error, never a different reference or a panic.",
  ["inputs"], "all lists up to 3 references (with duplicates) over a small alphabet and all indices including extremes",
  "not tested", ["src/data/transactions/application.rs"], [("address_by_index / index_by_address etc.", "src/data/transactions/application.rs")], ["application call fields API"])
p("C24", "Sortition selects an exact binomial quantile, monotone and at most the stake",
  "The number of sub-users selected for a given money, total, committee size and VRF output is the binomial quantile of the output: between 0 and the money, non-decreasing in the output, zero for an output of all zero bits when the probability of zero is positive, and computed without panicking or hanging for every output and every stake up to the total money.",
  ["inputs"], "grids of money, total and committee sizes with every boundary VRF output derived from an exact rational binomial CDF",
  "the only test is statistical and unseeded", ["src/data/committee/sortition.rs"], [("sortition::select", "src/data/committee/sortition.rs")], ["sortition::select"])
p("C25", "Credentials are accepted only for the selected key, stake and selector",
  "A committee credential verifies exactly if its VRF proof verifies for the member's own selection key and the exact selector (seed, round, period, step) and sortition selects it with the member's own stake; the resulting weight is the sortition result, and the lowest-output order of two credentials is the minimum over exactly their weight many hashes, is total and depends on the VRF output.",
  ["inputs", "configurations"], "all selector field perturbations, key swaps, round window boundaries and small stakes; ordering against a reference hash",
  "tests sample random members and check acceptance of one's own credential", ["src/data/committee/credential.rs", "src/data/committee/mod.rs"],
  [("UnauthenticatedCredential::verify", "src/data/committee/credential.rs"), ("Credential::lowest_output", "src/data/committee/credential.rs")], ["credential API"], "cfg(verif) access to membership fields")
p("C26", "TEAL key/value deltas and schemas are applied exactly and respect limits",
  "Turning values into deltas and back is lossless and keeps exactly the part of the value's type; a store's schema counts its values of each type; schema arithmetic and minimum balances are exact and saturate instead of wrapping; a state delta is valid exactly if every key, value and key-value sum is within the protocol's limits; evaluation deltas are equal exactly if all their parts are, and their encodings do not depend on insertion order.",
  ["inputs", "histories"], "all small maps of byte/uint values and deltas, boundary schemas",
  "not tested beyond one example", ["src/data/basics/teal.rs", "src/data/transactions/teal.rs"], [("ValueDelta / TealValue conversions, StateSchema arithmetic, StateDelta::is_valid", "src/data/basics/teal.rs"), ("EvalDelta equality", "src/data/transactions/teal.rs")], ["teal API"])
p("C27", "The consensus protocol table is internally consistent and merges predictably",
  "Every protocol of the built-in table has satisfiable parameters (upgrade windows, thresholds, committee sizes, group and transaction limits) and approves upgrades only to known protocols; merging a table never panics, overlays added versions, removes versions that are marked deleted together with all references to them, leaves inputs untouched and gives the same result whatever the map order; saving and loading it back gives the same table.",
  ["configurations", "histories"], "all versions; all merges of small tables with present, changed and deleted versions and upgrade references",
  "one test merges one deletion", ["src/config/consensus.rs"], [("ConsensusProtocols::merge / deep_copy", "src/config/consensus.rs"), ("load/save of configurable protocols", "src/config/consensus.rs"), ("protocol table", "src/config/consensus.rs")], ["ConsensusProtocols API"])
p("C28", "Node configuration files and key file names survive a round trip",
  "Saving a configuration, phonebook or protocol file and loading it again yields the same content; key file names built for an account and round range are recognised as that kind and no other and give back the same name and rounds; loading malformed files is an error, never a panic or silently empty content; feature flags read the documented bit and nothing else.",
  ["inputs", "configurations"], "all small phonebooks, all names from a small alphabet of awkward names, all flag combinations, truncated files",
  "tests cover one phonebook write and default values", ["src/config/mod.rs", "src/config/keyfile.rs", "src/config/default.rs"],
  [("save_to_disk / load_from_disk", "src/config/mod.rs"), ("load_phonebook / save_phonebook", "src/config/mod.rs"), ("key file name helpers", "src/config/keyfile.rs")], ["config API"], "cfg(verif) access to private helpers")
p("C29", "Participation keys are stored atomically and survive crashes at any point",
  "Storing a participation and restoring it gives the same account, round range, voting and selection keys; restoring from an empty or partial store is an error, not a panic; and if the process dies at any write while storing, the next start finds either the complete old or the complete new participation, and the new one once storing has returned and been flushed.",
  ["crash_points", "histories"], "every prefix of the file-system write log of store histories (and dropped unsynced writes), recovered by the real code",
  "no test persists anything", ["src/data/account.rs", "src/lib.rs"], [("Participation::persist / restore", "src/data/account.rs")], ["Participation persist/restore"], "none beyond a scratch working directory")
p("C30", "Participation keys cover exactly their round range and forget old rounds",
  "A participation generated for a round range with any positive dilution can sign in every round of that range, and in no round whose dilution-sized batch the range does not touch; round to key-identifier mapping is one-to-one and order-preserving; deleting old keys before a round makes every earlier round unsignable and keeps every round from it on, and neither the key material in memory nor the stored one ever regains them; and the transaction that registers it carries exactly its account, keys, round range and dilution.",
  ["histories", "inputs"], "all small ranges and dilutions, all delete sequences",
  "not tested", ["src/data/account.rs", "src/crypto/ots.rs"], [("Participation::fill_db_with_part_keys / voting_signer", "src/data/account.rs"), ("ots id for round", "src/data/basics")], ["Participation API"])
p("C31", "The account manager offers exactly the usable keys and deletes only spent ones",
  "For any set of registered participations, the keys offered for a round are exactly those whose validity window contains it, there are live keys for a range of rounds exactly if some window overlaps it, adding the same participation twice changes nothing, and rolling the round forward deletes exactly the key material that can no longer be needed by the protocol; none of this panics for any block of a supported protocol.",
  ["histories", "configurations"], "all operation sequences over a few participations with overlapping windows and all rounds",
  "not tested", ["src/data/account_manager.rs"], [("AccountManager::keys / has_live_keys / add_participation / delete_old_keys", "src/data/account_manager.rs")], ["AccountManager API"], "cfg(verif) constructor access")
p("C32", "Signatures bind signer, object type and content of a transaction",
  "Signing an object yields a signature that verifies for that object and key and for no other object, object type or key; signing a transaction records an authorising address exactly if the signer is not the sender, leaves the transaction itself unchanged and gives a deterministic transaction ID; hashes of distinct object kinds never coincide because each kind has its own prefix and no prefix extends another.",
  ["inputs"], "all object kinds pairwise, all single-field changes of transactions, senders equal and different",
  "tests sign and verify one random message", ["src/crypto/hashable.rs", "src/protocol/hash.rs", "src/data/transactions/transaction.rs"],
  [("Hashable / Signable domain separation", "src/crypto/hashable.rs"), ("Transaction::sign / id", "src/data/transactions/transaction.rs")], ["sign / verify / hash_obj"])
p("C33", "The algokey tool never loses, alters or leaks a key it was given",
  "Generating, exporting and importing through any sequence of key files and mnemonics always denotes the same key and address; signing a transaction file yields a file with a valid signature for every transaction in it; a failing command exits non-zero without a panic and without destroying existing key files; key files are not created readable to others.",
  ["histories", "inputs"], "all command sequences up to a bound over a small set of files and mnemonics, malformed inputs included",
  "the command line tool has no tests", ["src/bin/algokey/"], [("generate / import / export / sign / part commands", "src/bin/algokey/")], ["algokey executable"])
p("C34", "A genesis specification yields one well-defined genesis block",
  "For any genesis specification of a supported protocol, the genesis block carries its network's ID and hash, protocol, timestamp, reward pool and fee sink and no transactions; the genesis ID is network-version; the rewards rate is the rewards pool's allocation, less the minimum balance where the protocol keeps it aside and nothing where there is less, spread over the refresh interval; an unknown protocol and a missing or malformed genesis file are refused with an error; two specifications that differ have different genesis hashes.",
  ["inputs"], "all small allocations with missing and special accounts over all protocols",
  "not tested", ["src/data/bookkeeping/genesis.rs"], [("Genesis::create_block / id / balances", "src/data/bookkeeping/genesis.rs")], ["Genesis API"], "cfg(verif) access")

p("C35", "A transaction names exactly the accounts it touches, its receiver and amount",
  "For every transaction, the relevant addresses are exactly the sender, the fee sink and the accounts its payment or asset transfer names (receiver, and close-to and asset sender if set), matching an address agrees with that list, the receiver is that of the payment or asset transfer and otherwise none, the amount is the payment's and otherwise zero, and the authoriser of a signed transaction is its rekeyed authorising address if set and else the sender.",
  ["inputs"], "all combinations of zero, equal and distinct addresses in every address field for every transaction type",
  "not tested", ["src/data/transactions/transaction.rs", "src/data/transactions/signed_tx.rs"], [("relevant_addrs / match_address / tx_amount / get_receiver_address", "src/data/transactions/transaction.rs"), ("SignedTx::authorizer", "src/data/transactions/signed_tx.rs")], ["transaction queries"], "cfg(verif) access")

p("C36", "Decoding foreign bytes is total, bounded and neither invents nor loses anything",
  "For every object that is decoded from bytes and any byte string whatsoever, decoding either returns an error or an object, without a panic, a stack overflow or memory out of proportion to the input; what it returns says exactly what the bytes say under the fields' names (nothing that is not in the input and not a default, and nothing known left out), and encoding and decoding it again gives the same object; changed, doubled, renamed, reordered, truncated and wrongly typed entries are refused or read for what they are.",
  ["inputs"], "all short byte strings; all changes of one byte and of one place in the structure of the encodings of filled objects of every kind, pairs of places for small ones, deep nesting",
  "tests decode what they encoded", ["src/protocol/codec.rs", "src/crypto/", "src/data/basics/", "src/data/transactions/", "src/data/bookkeeping/block.rs"],
  [("decode", "src/protocol/codec.rs"), ("Serialize / Deserialize of keys, signatures, addresses, transactions, headers", "src/crypto/, src/data/")], ["protocol::decode of bytes from a peer, disk or user"])

p("C37", "A bit set is exactly a set of the positions 0 to 255",
  "After any sequence of setting and clearing positions 0 to 255, a bit set reports exactly the positions set last, is zero exactly when it holds none, equals another one exactly when both hold the same positions however they came about, and a copy is not affected by later calls.",
  ["histories"], "all sequences of set and clear over positions at the word borders (all reachable sets), all pairs of calls over all positions, from the empty, full and alternating sets",
  "tests set and clear even positions in one fixed order", ["src/crypto/merkletrie/bitset.rs"], [("Bitset", "src/crypto/merkletrie/bitset.rs")], ["bit masks of trie children"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
