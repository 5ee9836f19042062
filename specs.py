"""Per property: which harness options, and what the evidence says about what was encoded and how far."""

COMMON_ASSUMPTIONS = [
    "Kani 0.68 / CBMC 6.11 translate rustc MIR and decide the formulas faithfully; the code is compiled for x86-64 Linux with debug assertions on",
    "memory allocation succeeds; memory freed was allocated (the crate has no unsafe code, which each check looks for)",
    "harness reference models (harness/model.rs and the harness itself) state the protocol correctly",
]
HASH = ("BLAKE2b is replaced by an uninterpreted function of its parameters and message (models/blake2b_simd): "
        "equal inputs give equal digests, nothing else is assumed")
MODELS = "rayon, ed25519-dalek, bip39, num-bigint and num-rational are replaced by the models in models/ where they are reached"

LOOPS_UC = [(r"_[a-zA-Z0-9]*UnlockKey.*(encode|e2|e1|q)", 2), (r"3VechE.*(6encode|2e2|2e1|1q)", 2)]

LOOPS_FIND = [("CharSearcher.*next_match", 2)]
LOOPS_ROOT = [(r"Accumulator.*root", 66)]

# kinds of builds of the code under check
BUILDS = {
    "std": {},
    "big": dict(features=["hash_big"]),
    "many": dict(features=["hash_many"]),
    # a release profile's arithmetic: overflow wraps silently
    "wrap": dict(env={"CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}),
}
RACE = ["z3-new", "z3", "cadical"]
SPECS = {}
CLAIMED = []


def spec(pid, explain, functions, bounds, outside, assumptions=(), claim=True, **kw):
    SPECS[pid] = dict(explain=explain, functions=functions, bounds=bounds, outside=outside,
                      assumptions=list(assumptions), **kw)
    if claim:
        CLAIMED.append(pid)


HOW = ("Each harness calls the real functions on symbolic inputs; CBMC unrolls them completely (unwinding assertions "
       "checked) and a SAT solver decides every assertion, overflow, bounds and panic check for all input values. ")

spec("C22", HOW + "The returned identifier is compared with the hash of the protocol's message for that identifier; with "
     "a collision-free hash, identifiers of different parents, indices or kinds are shown to differ.",
     ["BlockID::{miner_output_id, foundation_output_id}", "TransactionID::v2_{siacoin_output,siafund_output,file_contract,attestation}_id",
      "FileContractID::{valid_output_id, missed_output_id, v2_renter_output_id, v2_host_output_id, v2_renewal_id}",
      "SiafundOutputID::{claim_output_id, v2_claim_output_id}"],
     "none on values: all 2^256 parent identifiers and all 2^64 indices; no loop depends on input",
     "nothing within the property", [HASH])

import re, sys as _sys, pathlib as _pl
ROOT = _pl.Path(__file__).resolve().parent
_sys.path.insert(0, str(_pl.Path(__file__).resolve().parent / "tools"))
import layout_list as _L  # noqa: E402


def _types(lst):
    return sorted({h[1] for h in lst}) + sorted({h[1] for h in _L.SCALARS})


LOOPS_UTF8 = [("run_utf8_validation", 5)]
SHAPES = ("list lengths, option presence and enum variants are fixed per harness (tools/layout_list.py lists the shapes: "
          "0 to 3 elements per list, each list of a transaction non-empty in at least one shape, every policy kind, threshold "
          "policies nested two deep); every other field takes all values. ")
V2X = ("Chain state: heights genesis-parent, 9 and 11 (thorough also 3, 10), accumulators with no, one, two and three leaves set incl. bit 63; "
       "of the eleven timestamps the last takes all values, the others are constants. ")
V1X = ("Currencies inside composites are constants of different encoded lengths (0 to 16 bytes); the currency and the siafund output on their own "
       "take all values. ")
OUT_CODEC = "longer lists and deeper nesting (the element code is the same, the loop bound is not proved beyond the shapes)"
TIME = "the time crate is replaced by models/time (seconds and nanoseconds)"
PER2 = {"pol_uc": dict(loops=LOOPS_UC), "state_genesis": dict(cost=9), "state_9": dict(cost=9), "state_11": dict(cost=9), "res_ren": dict(cost=9),
        "tx_rev": dict(cost=5), "tx_res": dict(cost=4), "res_sp": dict(cost=5)}
PER1 = {"sfo_any": dict(cost=9), "currency": dict(cost=8), "tx_sci": dict(cost=7), "tx_sig": dict(cost=6), "tx_mix": dict(cost=6)}


def _per(p, d):
    return {"%s_%s" % (p, k): v for k, v in d.items()}


spec("C01", HOW + "The value's reference encoding (harness/model.rs, kept equal to what the code wrote by an assertion) is decoded by the real decoder, "
     "from a reader holding one byte more: the decoded value is compared field by field and the number of bytes consumed exactly.",
     ["SiaEncodable::encode and SiaDecodable::decode (including the derived ones) of " + ", ".join(_types(_L.V2))],
     SHAPES + V2X, OUT_CODEC + "; transactions combine at most six non-empty lists", [TIME],
     per=_per("c01", PER2), opts=dict(loops=LOOPS_UTF8))
spec("C02", HOW + "As C01 with encode_v1 and decode_v1. The indices of covered fields are constants here (symbolic in C04).",
     ["V1SiaEncodable::encode_v1 and V1SiaDecodable::decode_v1 (including the derived ones) of " + ", ".join(_types(_L.V1))],
     SHAPES + V1X, OUT_CODEC, [TIME], per=_per("c02", PER1), opts=dict(loops=LOOPS_UTF8))
spec("C03", HOW + "The bytes written by the real encoder are compared with those of a reference encoder written from the protocol's layout (harness/model.rs).",
     ["SiaEncodable::encode (including the derived ones) of " + ", ".join(_types(_L.V2))],
     SHAPES + V2X, OUT_CODEC, [TIME], per=_per("c03", PER2))
spec("C04", HOW + "The bytes written by the real encoder are compared with those of a reference encoder written from the protocol's layout (harness/model.rs).",
     ["V1SiaEncodable::encode_v1 (including the derived ones) of " + ", ".join(_types(_L.V1))],
     SHAPES + V1X, OUT_CODEC, [TIME], per=_per("c04", PER1))


CURX = "Currencies are constants of different encoded lengths. "
spec("C17", HOW + "The identifier is compared with the hash of the reference encoding of the transaction without its signatures (harness/model.rs).",
     ["v1::Transaction::{id, siacoin_output_id, siafund_output_id, file_contract_id, encode_no_sigs}", "encode_v1 of everything inside a transaction"],
     SHAPES + CURX + "The output index takes all 2^64 values.", OUT_CODEC, [HASH, TIME])
spec("C18", HOW + "The hash is compared with the hash of a message written by the harness from the protocol.",
     ["v1::Transaction::whole_sig_hash", "ChainState::replay_prefix", "encode_v1 of everything inside a transaction"],
     SHAPES + CURX + "The replay prefixes: one height per era, each era in several shapes (which heights belong to which era: C14).", OUT_CODEC, [HASH, TIME])
spec("C19", HOW + "The hash is compared with the hash of a message written by the harness from the covered indices.",
     ["v1::Transaction::partial_sig_hash", "ChainState::replay_prefix", "encode_v1 of everything inside a transaction"],
     "each list with two elements covered in the order 1, 0, 1; all lists covered at once; indices outside: the length, the maximum, and for an empty list every index. " + CURX
     + "All other fields of the transaction take all values.", OUT_CODEC, [HASH, TIME], build="big", per=_per("c19", {"fc": dict(cost=9), "all2": dict(cost=9), "sig": dict(cost=9), "rev": dict(cost=8)}))
spec("C20", HOW + "Identifier and signing hash are compared with hashes of the effects, written by the harness from the protocol; witness fields are symbolic and occur in no message, so the hashes do not depend on them.",
     ["v2::Transaction::{id, input_sig_hash, encode_semantics}", "encode_semantics of v2::{FileContract, FileContractRevision, FileContractRenewal, FileContractResolution, StorageProof, ChainIndexElement}", "SiaEncodable::encode of the effects"],
     SHAPES + "The replay prefixes: one height per era.", OUT_CODEC, [HASH, TIME], build="big", per=_per("c20", {"res_ren": dict(cost=9), "fc2": dict(cost=8), "rev": dict(cost=7)}))
spec("C21", HOW + "The signing hash is compared with the hash of a message written by the harness from the protocol; signatures are symbolic and do not occur in it.",
     ["v2::{FileContract, FileContractRenewal, Attestation}::sig_hash and their encode_semantics", "ChainState::replay_prefix"],
     "none on fixed-size fields (all values); attestation key and value of 0 to 3 bytes; the replay prefixes: one height per era", OUT_CODEC, [HASH, TIME], build="big")

_w = {n: dict(build="wrap") for n in ["c10_%s_wrap" % o for o in ("add", "sub", "mul", "div", "rem", "siacoins", "sum")]}
_w.update({n: dict(build="wrap", panics=True) for n in ["c10_%s_aborts" % o for o in ("add", "sub", "mul", "div", "rem", "siacoins", "sum")]})
spec("C10", HOW + "The results are compared with those of the 128-bit integer operations of the language (whose semantics CBMC encodes bit-precisely); where no result exists, "
     "the statement after the operation is shown to be unreachable, with overflow checks compiled out (a release profile) as well as with them.",
     ["Currency::{checked_add, checked_sub, checked_mul, checked_div, add, sub, mul, div, rem, sum, siacoins, cmp, partial_cmp, eq, deref, zero, default, try_into u64}"],
     "none on operands: all pairs of 128-bit values (sums: 0 to 3 terms)", "sums of more than three terms (a fold of additions)", per=_w, opts=dict(solver=RACE))
BIGNUM = "num-bigint and num-rational are replaced by models/num-bigint and models/num-rational (exact integers up to 255 bits, unreduced ratios)"
spec("C12", HOW + "The reward is compared with the schedule computed by the harness.",
     ["ChainState::{block_reward, child_height}", "Currency::{siacoins, checked_mul, checked_sub}", "Network::{mainnet, zen, anagami}"],
     "none: all heights, initial and minimum coinbases", "nothing within the property", opts=dict(solver=RACE), per={"c12_reward": dict(split=True), "c12_networks": dict(solver="cadical")})
spec("C13", HOW + "Whether a subsidy is due, its value and its address are compared with the schedule computed by the harness.",
     ["ChainState::{foundation_subsidy, blocks_per_month, child_height}", "Currency::{siacoins, mul}", "ChainIndex::child_height"],
     "all heights and addresses; block intervals of 10 ms to a twelfth of 365 days, in nanoseconds", "shorter intervals (below 2.8 ms a year's subsidy exceeds 128 bits and the code aborts) and longer ones (no block-month exists)",
     [TIME], opts=dict(solver=RACE, split=True))
spec("C14", HOW + "Prefix, nonce factor, child height and maturity height are compared with the rules; all heights of the network are symbolic.",
     ["ChainState::{replay_prefix, nonce_factor, child_height, maturity_height}", "ChainIndex::child_height", "Network::{mainnet, zen, anagami}"],
     "none on values; the hardfork heights are in protocol order", "networks whose hardforks are out of order; maturity heights beyond 2^64")
spec("C15", HOW + "The tax is compared with exact integer arithmetic in the harness (numerator and denominator of the float 0.039 written out).",
     ["v1::FileContract::tax", "ChainState::{child_height, siafund_count}"], "none: all payouts, heights and hardfork heights", "nothing within the property",
     [BIGNUM], opts=dict(solver=RACE, split=True))
spec("C16", HOW + "The tax is compared with a twenty-fifth of the sum rounded down to a multiple of 10,000; every other field of the contract and the height are symbolic.",
     ["v2::FileContract::tax", "ChainState::siafund_count", "Currency::{add, sub, div, rem}"], "all contracts whose outputs sum to less than 2^128", "sums beyond 2^128 (addition aborts, C10)",
     opts=dict(solver=RACE, split=True))

spec("C23", HOW + "The address is compared with the root of a Merkle tree built recursively in the harness.",
     ["UnlockConditions::{address, standard_unlock_conditions}", "merkle::{Accumulator::{new, add_leaf, root}, sum_node}", "SiaEncodable::encode of UnlockKey, Specifier, u64, [u8]", "Address::from"],
     "0 to 4 keys (thorough also 5, 6 and 9) of 0 to 33 bytes each, lengths fixed per harness; timelock, keys, algorithms and required count take all values",
     "more keys", [HASH], build="many", opts=dict(loops=LOOPS_ROOT))
spec("C24", HOW + "The address is compared with one computed by the harness from the protocol's rule; separately, the addresses of a threshold policy before and after replacing a sub-policy by its opaque form are compared with each other.",
     ["SpendPolicy::{address, encode}", "UnlockConditions::address", "merkle::Accumulator"],
     "policy shapes fixed per harness: every kind, thresholds of 0 to 3 sub-policies, nested up to three deep; all values of the fields", "wider and deeper policies", [HASH, TIME], opts=dict(loops=LOOPS_ROOT + LOOPS_UC),
     per={k: dict(loops=[("SpendPolicy7address|encode_policy", 2), (r"3VechE.*6encode|UnlockConditions.*address|UnlockKey.*6encode|SpendPolicy.*6encode", n)] + LOOPS_ROOT)
          for k, n in (("c24_uc0", 1), ("c24_t_uc", 2), ("c24_opaque_uc", 1))})

CURVE = "Ed25519 is an uninterpreted primitive (models/ed25519-dalek): derived keys are valid and signatures verify under their key; nothing else is assumed"
WORDS = "the BIP-39 word list codec is replaced by a reversible code (models/bip39); replay uses the real one"
HEX = "the hex crate is replaced by models/hex (the same results without branching)"
spec("C25", HOW + "The root is compared with the root of a Merkle tree built recursively in the harness.",
     ["rhp::sector_root", "merkle::sum_node"],
     "a sector of 512 bytes (8 segments; the hook makes the constant smaller, the code is the same); all contents", "the real sector size of 4 MiB",
     [HASH, "rayon runs the closures one after another (models/rayon)"], build="many")
spec("C29", HOW + "Verification is compared with the primitive's verdict on the same key, hash and signature; signatures made by a key are verified under its public key.",
     ["PublicKey::verify", "PrivateKey::{from_seed, sign_hash, public_key, as_bytes, From<[u8; 64]>, From<Hash256>}"],
     "none: all keys, hashes and signatures", "the curve arithmetic itself", [CURVE])
spec("C30", HOW + "The derived key is compared with the one the formula gives; phrases are parsed back; phrases of other lengths and other texts must be errors.",
     ["Seed::{new, private_key, to_mnemonic, from_mnemonic, as_bytes}", "PrivateKey::{from_seed, From<Hash256>}"],
     "all entropies and indices; phrases of 16, 20, 24, 28 and 32 bytes of entropy; texts of 0, 31, 32 and 40 printable characters", "other texts", [HASH, CURVE, WORDS])
spec("C31", HOW + "After the destructor ran, the value's memory is read byte by byte.",
     ["Drop for PrivateKey", "Drop for Seed", "PrivateKey::{clone, sign_hash, public_key, from_seed}", "Seed::{private_key, to_mnemonic, from_mnemonic}"],
     "none: all keys and seeds", "copies the compiler makes (moves, registers) and whether an optimising build keeps the stores", [HASH, CURVE, WORDS])

spec("C27", HOW + "The decoded bytes are compared with those the characters denote; where a character is none, the statement after the call is shown to be unreachable. "
     "The macros themselves take literals, so they are expanded on fixed literals and compared with the runtime parser.",
     ["macros::{decode_hex_256, decode_hex_pair, decode_hex_char}", "address!, hash_256!, siacoin_id!, siafund_id!, contract_id!, transaction_id!, block_id!, public_key!", "Hash256::parse_string"],
     "all strings of 64 bytes (and of 76); the macros on literals of both cases, of wrong length, with a wrong character or prefix", "literals not listed", [HEX],
     opts=dict(loops=LOOPS_FIND), per=dict({"c27_invalid": dict(panics=True)}, **{n: dict(panics=True) for n in re.findall(r"c27_bad_\w+", (ROOT / "harness/c27.rs").read_text())}))

spec("C26", HOW + "Texts are written into a buffer and compared with the digits of the value; parsing is compared with a reference reading of the digits. "
     "The library's search for a colon is replaced by a plain loop, the texts of error messages are left empty.",
     ["Display and parse_string of Hash256, SiacoinOutputID, SiafundOutputID, AttestationID, BlockID, TransactionID, FileContractID, Address, Leaf, Signature", "Display and Deserialize of PublicKey"],
     "all values; all ASCII texts of the exact length, of neighbouring and a few other lengths, with identifier prefixes of 0, 1, 3 and 5 characters; texts with a character of two to four bytes at fixed positions",
     "other lengths and prefixes", [HASH, HEX], opts=dict(loops=LOOPS_FIND))

for i in range(1, 33):
    SPECS.setdefault("C%02d" % i, dict(explain="", functions=[], bounds="", outside="", assumptions=[]))

LOSSY = "printing bytes that are not UTF-8 substitutes some text (String::from_utf8_lossy is the library's, replaced by the identity on UTF-8)"
spec("C28", HOW + "Texts and values are compared byte by byte; together: a key printed is parsed back.",
     ["Specifier::{new, as_bytes, from(&str), Display}", "UnlockKey::{Display, parse_string, From<PublicKey>}"],
     "specifiers: all 16 ASCII bytes, and with a character of two to four bytes at fixed positions; all 16 bytes for absence of panics. Specifier texts of 0 to 32 bytes; "
     "keys of 0 to 3 bytes under any ASCII algorithm, of 0, 32 and 33 bytes under fixed ones; key texts with algorithms of 0 to 20 bytes and 0 to 65 characters after the colon, texts without a colon",
     "other lengths", [HEX, LOSSY], opts=dict(loops=LOOPS_FIND))
# the symbolic executor follows a failed read for a while as if it had succeeded: the lists there are bounded as those of the values are
LOOPS_FAIL = [("run_utf8_validation", 5), (r"3Vec.*6decode|3Vec.*decode_v1", 4), ("decode_policy", 3)]

# (a second harness crate, with models of its own: kani2/)
for _p in ("C25", "C26", "C27", "C28", "C29", "C30", "C31"):
    SPECS[_p]["crate"] = "kani2"

# (not registered in this commit, see tools/not_applicable.json)
DEFERRED = ("C01", "C02", "C03", "C04", "C15", "C17", "C18", "C19", "C20", "C23", "C24", "C25", "C26")
CLAIMED = [p for p in CLAIMED if p not in DEFERRED]
