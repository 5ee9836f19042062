p("C01", "Current wire format round-trips every value",
  "Encoding any value of any consensus type in the current (v2) binary format and decoding the result yields an equal value, consuming exactly the bytes that were produced and leaving anything that follows them in the stream unread. This covers integers, options, lists, strings, identifiers, currency, work, durations, timestamps, spend policies, elements, contracts, revisions, renewals, resolutions, attestations, transactions, the element accumulator and the chain state.",
  ["inputs"], "every value of every encodable type (timestamps in whole seconds, non-negative durations), every list length within the stated bounds, every following byte",
  "Round-trips are sampled by a handful of fixed vectors per type; optional fields, empty and multi-element lists, extreme integers and most policy shapes never appear.",
  [S+"encoding/v2.rs", S+"types/common.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"consensus.rs", "sia_derive/src/lib.rs"],
  [("SiaEncodable / SiaDecodable impls", S+"encoding/v2.rs"), ("derive(SiaEncode, SiaDecode)", "sia_derive/src/lib.rs"), ("hand-written transaction, resolution, policy, state codecs", S+"types/v2.rs, spendpolicy.rs, consensus.rs")],
  ["SiaEncodable::encode", "SiaDecodable::decode"])
p("C02", "Legacy wire format round-trips every value",
  "Encoding any value of any legacy (v1) consensus type in the legacy binary format and decoding the result yields an equal value, consuming exactly the bytes that were produced and leaving anything that follows unread. This covers integers, options, lists, strings, identifiers, currency, work, siacoin and siafund outputs and inputs, unlock conditions, contracts, revisions, storage proofs, covered fields, signatures, transactions and blocks.",
  ["inputs"], "every value of every legacy-encodable type, every list length within the stated bounds, every following byte",
  "Tests round-trip one or two fixed transactions; currency lengths other than a few, empty and multi-element lists and extreme integers are not sampled.",
  [S+"encoding/v1.rs", S+"types/common.rs", S+"types/v1.rs", S+"types/currency.rs", "sia_derive/src/lib.rs"],
  [("V1SiaEncodable / V1SiaDecodable impls", S+"encoding/v1.rs"), ("derive(V1SiaEncode, V1SiaDecode)", "sia_derive/src/lib.rs")],
  ["V1SiaEncodable::encode_v1", "V1SiaDecodable::decode_v1"])
p("C03", "Current wire format has the normative byte layout",
  "The bytes produced for every value in the current binary format are the Sia v2 layout: 8-byte little-endian integers and list lengths, 16-byte little-endian currency, big-endian 32-byte work, one-byte option flags, one-byte policy tags under a version-1 header, and the fields of each composite in the protocol order, with a transaction carrying version 2 and a field bitmask in which only non-empty fields appear. An element accumulator encodes exactly the trees selected by its leaf count, lowest first.",
  ["inputs"], "every value of every encodable type within the stated list-length bounds",
  "Layout is pinned by a few constant vectors; a layout change that keeps encode and decode consistent, or that shows only for a rare field combination, passes them.",
  [S+"encoding/v2.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"consensus.rs", "sia_derive/src/lib.rs"],
  [("encode impls", S+"encoding/v2.rs"), ("Transaction field bitmask", S+"types/v2.rs"), ("ElementAccumulator tree selection", S+"consensus.rs")],
  ["SiaEncodable::encode"])
p("C04", "Legacy wire format has the normative byte layout",
  "The bytes produced for every value in the legacy binary format are the Sia v1 layout: 8-byte little-endian integers and list lengths, currency as a length-prefixed big-endian integer without leading zero bytes, and the fields of each composite in protocol order, with a siafund output carrying its value as a currency followed by its address and a zero claim start. A block header writes parent, nonce and timestamp as fixed-width fields before its payouts and transactions.",
  ["inputs"], "every value of every legacy-encodable type within the stated list-length bounds",
  "Layout is pinned by a few constant vectors; most currency widths, list lengths and covered-field combinations are never encoded.",
  [S+"encoding/v1.rs", S+"types/v1.rs", S+"types/common.rs", S+"types/currency.rs", "sia_derive/src/lib.rs"],
  [("encode_v1 impls", S+"encoding/v1.rs"), ("Currency::encode_v1", S+"types/currency.rs"), ("SiafundOutput::encode_v1, Block::encode_v1", S+"types/common.rs")],
  ["V1SiaEncodable::encode_v1"])
p("C05", "Decoding arbitrary bytes never crashes",
  "For any byte sequence whatsoever, decoding it as any type in either binary format terminates with a value or an error: it never panics, overflows, or reserves memory for a declared length before the elements have arrived.",
  ["inputs"], "every byte string up to the stated length, for every decodable type of both formats; every 64-bit declared length",
  "Tests decode only well-formed vectors; hostile lengths, timestamps, tags and nesting are never fed in.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/spendpolicy.rs", S+"types/v2.rs", S+"consensus.rs", S+"types/common.rs"],
  [("length-prefixed decode of Vec/String", S+"encoding/v1.rs, v2.rs"), ("timestamp range check", S+"encoding/v2.rs"), ("policy tag/version checks", S+"types/spendpolicy.rs")],
  ["SiaDecodable::decode", "V1SiaDecodable::decode_v1"])
p("C06", "Truncated encodings are rejected",
  "If a value's encoding, in either binary format, is cut short at any point, decoding the remaining prefix reports an error; it never yields a value.",
  ["inputs", "crash_points"], "every value within the stated bounds and every cut position in its encoding, both formats",
  "No test decodes a truncated encoding.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/currency.rs", S+"types/work.rs"],
  [("read_exact in every primitive decoder", S+"encoding/v1.rs, v2.rs, types/currency.rs")],
  ["SiaDecodable::decode", "V1SiaDecodable::decode_v1"])
p("C07", "Encoding to a failing or short-writing sink is faithful",
  "When the sink accepts only part of each write, the bytes that reach it are still exactly the value's encoding; when the sink fails at any point, encoding returns an error without panicking, and what the sink had accepted is a prefix of the value's encoding.",
  ["fault_sequences", "inputs"], "every write-failure position and every pattern of short writes, for every encodable type of both formats",
  "Tests encode into growable in-memory buffers, which never fail and never write short.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"consensus.rs", S+"types/v2.rs", S+"types/spendpolicy.rs"],
  [("write_all with ? propagation", S+"encoding/v1.rs, v2.rs"), ("State timestamps loop", S+"consensus.rs")],
  ["std::io::Write passed to encode / encode_v1"])
p("C08", "Decoding is independent of how the source delivers bytes",
  "Decoding the same bytes gives the same result no matter how the source splits them into reads or interrupts them, and a source that fails part-way makes decoding return an error without panicking.",
  ["fault_sequences", "inputs"], "every split of the input into reads and every read-failure position, for the decoders of both formats",
  "Tests read from in-memory slices, which always deliver everything asked for.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/currency.rs"],
  [("read_exact with ? propagation", S+"encoding/v1.rs, v2.rs, types/currency.rs")],
  ["std::io::Read passed to decode / decode_v1"])
p("C09", "Only canonical encodings are accepted",
  "A byte string that decodes successfully re-encodes to exactly the bytes that were consumed: booleans, option flags, policy versions and tags, resolution types, transaction versions, integer widths, durations and text are accepted only in their one valid form. The only tolerated aliases are leading zero bytes of a legacy currency, the ignored claim start of a legacy siafund output, and empty or unknown fields flagged in a transaction's bitmask.",
  ["inputs"], "every byte string up to the stated length, every decodable type of both formats",
  "Tests only feed canonical bytes, so an over-lenient decoder passes them.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/spendpolicy.rs", S+"types/v2.rs"],
  [("bool/Option discriminant checks", S+"encoding/v1.rs, v2.rs"), ("policy and resolution tag checks", S+"types/spendpolicy.rs, types/v2.rs"), ("integer width checks", S+"encoding/v1.rs, v2.rs")],
  ["decode followed by encode"])
p("C10", "Currency arithmetic is exact or fails",
  "Adding, subtracting, multiplying, dividing, taking remainders of and summing currency amounts gives the exact mathematical result whenever it is representable; otherwise the checked operations report the absence of a result and the plain operators abort, in every build profile, rather than returning a wrapped amount. Whole-siacoin construction is exact in the same sense and comparison follows numeric order.",
  ["inputs", "configurations"], "every pair of 128-bit amounts (multiplication, division: as bounded in the evidence), sums of up to the stated number of terms, overflow checks on and off",
  "Tests evaluate a few constants in one profile; wrap-around shows only near 2^128 and only in release builds.",
  [S+"types/currency.rs"], [("Add/Sub/Mul/Div/Rem/Sum and checked_* impls", S+"types/currency.rs")],
  ["Currency operators"])
p("C11", "Currency text parsing is exact or an error",
  "Parsing a currency string either returns exactly the amount the text denotes in its unit (hastings when no unit is given) or an error; it never panics, wraps, or silently drops digits, and every supported unit scales by its own power of ten.",
  ["inputs"], "every string up to the stated length over digits, decimal point, spaces, unit letters and other characters, every unit",
  "Tests parse a table of well-formed amounts; too many decimals, huge integers and malformed text are not sampled.",
  [S+"types/currency.rs"], [("Currency::parse_string", S+"types/currency.rs")], ["Currency::parse_string"])
p("C12", "Block reward follows the coinbase schedule",
  "For every network and height the block reward is the initial coinbase less one siacoin per child height, and never less than the minimum coinbase; it is defined for all heights.",
  ["inputs", "configurations"], "every chain height, every initial and minimum coinbase",
  "Tests evaluate a few mainnet heights.",
  [S+"consensus.rs"], [("ChainState::block_reward", S+"consensus.rs")], ["ChainState::block_reward"])
p("C13", "Foundation subsidy is due exactly on schedule and in full",
  "A subsidy is due exactly at the foundation hardfork height and at every whole number of block-months after it, a block-month being one twelfth of 365 days divided by the block interval; it is never due before the hardfork. Each payment is 30,000 siacoins per block of a month, twelve months' worth for the initial one, paid to the foundation address currently recorded in the chain state.",
  ["inputs", "configurations"], "every chain height, hardfork height, block interval and foundation address",
  "Tests check a couple of heights on one network.",
  [S+"consensus.rs"], [("ChainState::foundation_subsidy, blocks_per_month", S+"consensus.rs")], ["ChainState::foundation_subsidy"])
p("C14", "Consensus rule switches happen at their hardfork heights",
  "For every network and height, the replay-protection prefix of signature hashes is empty before the ASIC hardfork, then 0, then 1 from the foundation hardfork, then 2 from the v2 allow height (judged by the current height); the nonce factor is 1 for children below the ASIC hardfork and 1009 from it on; the child height is one more than the current height (the pre-genesis height wrapping to zero) and outputs mature the network's delay after the child height.",
  ["inputs", "configurations"], "every chain height and every combination of hardfork heights and maturity delay",
  "Tests sample a few heights of one network, where the hardforks are far apart and ordered.",
  [S+"consensus.rs", S+"types/common.rs"], [("replay_prefix, nonce_factor, child_height, maturity_height", S+"consensus.rs"), ("ChainIndex::child_height", S+"types/common.rs")],
  ["ChainState methods"])
p("C15", "Legacy contract tax is exact on both sides of the tax hardfork",
  "The tax of a legacy file contract is 3.9% of its payout, rounded down to a multiple of 10,000 hastings; below the tax hardfork height the percentage is the exact rational value of the 64-bit float 0.039, from it on it is exactly 39/1000.",
  ["inputs", "configurations"], "every payout and every height and hardfork height, within the stated payout bound",
  "Tests compute the tax of a few payouts; rounding boundaries and the two formulas' disagreement points are rare.",
  [S+"types/v1.rs"], [("v1 FileContract::tax", S+"types/v1.rs")], ["v1::FileContract::tax"])
p("C16", "Current contract tax is 4% rounded down to siafund units",
  "The tax of a v2 file contract is 4% of the sum of its renter and host outputs, rounded down to a multiple of 10,000 hastings, at every height, and depends on nothing else in the contract.",
  ["inputs"], "every pair of output values whose sum is representable",
  "Tests compute one or two contracts.",
  [S+"types/v2.rs"], [("v2 FileContract::tax", S+"types/v2.rs")], ["v2::FileContract::tax"])
p("C17", "Legacy transaction and child IDs commit to everything but signatures",
  "A legacy transaction's ID, and the IDs of its siacoin outputs, siafund outputs and file contracts, are the 32-byte BLAKE2b hash of (for children: the 16-byte kind specifier,) the transaction's encoding without its signatures (and, for children, the 8-byte output index). They therefore change with every other field and never with the signatures.",
  ["inputs"], "every transaction within the stated list bounds, every signature list, every index",
  "Tests check the ID of fixed transactions; that signatures are irrelevant, and every other field relevant, is a statement about all pairs.",
  [S+"types/v1.rs"], [("encode_no_sigs, id, derive_child_id", S+"types/v1.rs")], ["v1::Transaction::{id, siacoin_output_id, siafund_output_id, file_contract_id}"])
p("C18", "Legacy whole-transaction signature hash covers the full transaction",
  "The whole-transaction signature hash is the BLAKE2b hash of every non-signature field of the transaction in protocol order, with the height's replay prefix before each siacoin and each siafund input, followed by the signed parent ID, key index and timelock; it does not depend on existing signatures.",
  ["inputs", "configurations"], "every transaction within the stated list bounds, every parent, key index, timelock and replay regime",
  "Tests pin one transaction with few inputs at one or two heights.",
  [S+"types/v1.rs", S+"consensus.rs"], [("whole_sig_hash", S+"types/v1.rs"), ("replay_prefix", S+"consensus.rs")], ["v1::Transaction::whole_sig_hash"])
p("C19", "Legacy partial signature hash covers exactly the listed fields",
  "The partial signature hash is the BLAKE2b hash of exactly the elements named by the covered-field indices, list by list in protocol order and in the order given, with the replay prefix before each covered siacoin and siafund input; an index outside its list is reported as an error and never panics.",
  ["inputs", "configurations"], "every transaction and index list within the stated bounds, every 64-bit index, every replay regime",
  "Tests cover one in-range selection; out-of-range indices, repeats and reorderings are unsampled.",
  [S+"types/v1.rs"], [("partial_sig_hash", S+"types/v1.rs")], ["v1::Transaction::partial_sig_hash"])
p("C20", "Current transaction ID and signing hash ignore witnesses, cover effects",
  "A v2 transaction's ID and input signature hash are BLAKE2b hashes, under their own distinguishing prefixes (the signing hash also under the replay prefix), of the transaction's effects: spent IDs, outputs, contracts, revisions, resolutions, attestations, data, foundation address and fee. They do not depend on spend policies and their signatures or preimages, on element proofs or contents, on contract, revision or renewal signatures, or on claim addresses, and they change with every effect.",
  ["inputs"], "every transaction within the stated list bounds and every replacement of its witness data",
  "Tests pin one transaction; invariance and coverage are statements about pairs of transactions.",
  [S+"types/v2.rs"], [("encode_semantics family, id, input_sig_hash", S+"types/v2.rs")], ["v2::Transaction::{id, input_sig_hash}"])
p("C21", "Contract, renewal and attestation signing hashes cover all terms",
  "The signing hashes of a v2 contract, contract renewal and attestation are BLAKE2b hashes of their own purpose prefix, the height's replay prefix and every field in protocol order, with all signature fields replaced by zeros, so that they do not depend on signatures and cannot be exchanged between purposes.",
  ["inputs", "configurations"], "every contract, renewal and attestation (strings and byte fields within the stated bounds), every replay regime",
  "Tests pin one vector each.",
  [S+"types/v2.rs"], [("FileContract/FileContractRenewal/Attestation sig_hash and encode_semantics", S+"types/v2.rs")], ["sig_hash methods"])
p("C22", "Derived identifiers follow their domain-separated formulas",
  "Every identifier derived from a block, transaction, contract or siafund output ID - foundation and miner outputs, v2 siacoin and siafund outputs, contracts and attestations, valid and missed proof outputs, v2 renter, host and renewal IDs, claim outputs - is the BLAKE2b hash of its protocol formula: kind prefix, parent ID, and where applicable validity flag and 8-byte little-endian index. Identifiers of different kinds or indices are hashes of different messages.",
  ["inputs"], "every parent identifier and every index",
  "Tests pin one vector per derivation, some with index 0 only.",
  [S+"types/common.rs"], [("derive_* helpers and prefixes", S+"types/common.rs")], ["BlockID, TransactionID, FileContractID, SiafundOutputID derivation methods"])
p("C23", "Unlock-condition addresses are the Merkle root of the conditions",
  "The address of unlock conditions is the root of the Sia Merkle tree whose leaves are, in order, the timelock, each public key and the required signature count, with leaf and node hashes distinguished by prefix and unbalanced trees combined from the right.",
  ["inputs"], "every timelock, signature count and list of keys within the stated bounds",
  "Tests use conditions with a single key (three leaves), which never merge two levels at once.",
  [S+"merkle.rs", S+"types/v1.rs"], [("Accumulator::add_leaf/root", S+"merkle.rs"), ("UnlockConditions::address", S+"types/v1.rs")], ["v1::UnlockConditions::address"])
p("C24", "Policy addresses commit to the policy and respect opacity",
  "The address of a spend policy is the prefixed hash of its encoding with every sub-policy of a threshold replaced by its opaque address, so replacing any sub-policy by its opaque form leaves the address unchanged; an opaque policy's address is the one it carries and unlock conditions keep their legacy address.",
  ["inputs"], "every policy of every kind, thresholds within the stated width and depth",
  "Tests pin fixed policies; opacity invariance over all sub-policies is not sampled.",
  [S+"types/spendpolicy.rs"], [("SpendPolicy::address", S+"types/spendpolicy.rs")], ["SpendPolicy::address"])
p("C25", "Sector root is the Merkle root of the sector",
  "The sector root equals the root of the binary Merkle tree over the sector's 64-byte segments in order, with leaves hashed under prefix 0 and nodes under prefix 1; every segment contributes in its own position.",
  ["inputs"], "every sector content, at scaled-down sector sizes with the same code",
  "Tests hash a zero sector and one or two vectors, where misplaced segments can go unnoticed.",
  [S+"rhp.rs", S+"merkle.rs"], [("sector_root", S+"rhp.rs"), ("sum_node", S+"merkle.rs")], ["rhp::sector_root"], hook="cfg-guarded scaled sector size")
p("C26", "Text forms of identifiers, addresses, leaves and signatures are faithful",
  "Formatting any identifier, address, leaf, signature or public key and parsing the text gives the value back, the text being lowercase hexadecimal (addresses followed by a 6-byte checksum of their hash, public keys under their algorithm prefix). Parsing accepts only text of the exact length made of hexadecimal digits (for identifiers after an optional prefix up to the first colon) and, for addresses, with a matching checksum; every other text is an error, never a panic.",
  ["inputs"], "every value, and every text of the stated lengths including non-hexadecimal and multi-byte characters, every checksum corruption",
  "Tests round-trip a few constants and one corrupted checksum.",
  [S+"macros.rs", S+"types/common.rs", S+"signing.rs"], [("parse_string / Display", S+"macros.rs, types/common.rs, signing.rs"), ("address checksum", S+"types/common.rs")], ["parse_string, Display"])
p("C27", "Literal macros and hex decoding agree with the runtime parser",
  "Decoding 64 hexadecimal characters into 32 bytes, as the literal macros do at compile time, gives exactly the bytes those characters denote in either case and panics on any non-hexadecimal character; each macro yields the value the runtime parser yields for the same text.",
  ["inputs"], "every 64-character string of bytes",
  "Tests expand each macro on one literal.",
  [S+"macros.rs"], [("decode_hex_256, decode_hex_pair, decode_hex_char", S+"macros.rs")], ["macros::decode_hex_256"])
p("C28", "Key algorithm text forms are faithful and total",
  "Converting text to a specifier keeps its first sixteen bytes zero-padded, and printing a specifier gives back its bytes without trailing zeros; an unlock key prints as its algorithm, a colon and the key's hexadecimal bytes and parses back to the same key when its algorithm is printable text without a colon or trailing zero. Printing never panics for any contents, and malformed key text is an error.",
  ["inputs"], "every 16-byte specifier, every text and key length within the stated bounds",
  "Tests use well-formed ASCII specifiers only.",
  [S+"types/specifier.rs", S+"types/v1.rs"], [("Specifier From<&str>/Display", S+"types/specifier.rs"), ("UnlockKey Display/parse_string", S+"types/v1.rs")], ["Specifier, UnlockKey"])
p("C29", "Signature verification accepts exactly valid Ed25519 signatures",
  "Verification returns true exactly when the key bytes are a valid Ed25519 public key and the signature is valid for the hash under it, and false for anything else, for every 32-byte key and 64-byte signature, without panicking. A signature made with a private key verifies under its own public key, and signing and public-key derivation depend only on the key's seed half and stored public half respectively.",
  ["inputs"], "every key, hash and signature, with Ed25519 itself as an uninterpreted primitive",
  "Tests sign and verify with valid keys; invalid curve points are not sampled.",
  [S+"signing.rs"], [("PublicKey::verify, PrivateKey::{from_seed, sign_hash, public_key}", S+"signing.rs")], ["PublicKey::verify", "PrivateKey::sign_hash"])
p("C30", "Keys derive from seeds as specified and seed phrases round-trip",
  "The n-th key of a seed is the Ed25519 key whose seed is the BLAKE2b hash of the hash of the entropy followed by n as 8 little-endian bytes, for every entropy and index. A seed's phrase parses back to the same seed, and a phrase whose entropy is not 16 bytes, or that is not a valid phrase, is an error.",
  ["inputs"], "every 16-byte entropy and every index; every valid phrase length; BLAKE2b, Ed25519 and the word-list codec as uninterpreted primitives",
  "Tests derive a few indices of fixed seeds.",
  [S+"seed.rs", S+"signing.rs"], [("Seed::private_key, from_mnemonic, to_mnemonic", S+"seed.rs")], ["Seed"])
p("C31", "Secret key material is erased when released",
  "When a private key or a seed is dropped, every byte of the memory that held its secret is zero, and no operation on the value before that changes the secret.",
  ["inputs"], "every key and seed content",
  "No test observes memory after a drop.",
  [S+"signing.rs", S+"seed.rs"], [("Drop for PrivateKey", S+"signing.rs"), ("Drop for Seed", S+"seed.rs")], ["Drop"])
p("C32", "Scalar values survive structured serialization",
  "Serializing an identifier, address, currency, work, public key, signature, leaf, unlock key or element accumulator through the structured (JSON) interface produces its documented text or number form and deserializing that gives the value back, in human-readable and, for identifiers and unlock keys, binary serializers. Numeric currency input is accepted exactly when non-negative, an accumulator whose tree count does not match its leaf count is rejected, and no input panics.",
  ["inputs"], "every value of the listed types; every numeric width; every leaf count",
  "Tests serialize a few fixed values through one serializer.",
  [S+"types/currency.rs", S+"macros.rs", S+"types/common.rs", S+"signing.rs", S+"types/work.rs", S+"consensus.rs"], [("Serialize/Deserialize impls", S+"types/*.rs, signing.rs, consensus.rs")], ["serde traits"])
