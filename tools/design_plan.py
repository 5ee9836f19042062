"""How each property is decided (for DESIGN.md)."""
plan = {
'C01': 'encode a value of each shape, append a symbolic byte, decode: equal value, everything but the extra byte consumed',
'C02': 'as C01 for the v1 format',
'C03': 'the encoder writes into a sink that compares, byte for byte, with the model of the v2 layout; element proofs and chain state included',
'C04': 'as C03 for the v1 layout',
'C10': 'operators and checked operations against exact 256-bit arithmetic; built twice (overflow checks on, and off as in release); multiplication and division raced between z3, z3-new and CaDiCaL',
'C12': 'formula against the exact schedule for symbolic network and height',
'C13': 'due, amount and address against exact arithmetic on nanoseconds for symbolic height and interval',
'C14': 'prefix, nonce factor, child height and maturity against the schedule for symbolic state',
'C15': 'tax against exact rational arithmetic on both sides of the hardfork',
'C16': 'tax against exact 256-bit arithmetic, symbolic contract, two heights',
'C17': 'messages handed to BLAKE2b compared with the model encoding; the same with other signatures',
'C18': 'as C17 for the whole-transaction signature hash, one height per era and every height of each era',
'C19': 'as C17 for covered fields: order, repetition, bounds errors',
'C20': 'as C17 for v2 IDs and input signature hashes; a second transaction differing only in witnesses gives the same message',
'C21': 'as C17 for contract, renewal and attestation signing hashes',
'C22': 'as C17 for each derived identifier; also distinctness of the messages of different kinds',
'C23': 'root against a recursive Merkle definition over uninterpreted leaf and node hashes',
'C24': 'address messages against the policy model; opaque replacement gives the same address',
'C25': 'root against the recursive definition; a sector of 8 segments through the hook',
'C26': 'Display against hex digits for every value; FromStr decided on symbolic texts: accepted exactly when valid, with the value denoted',
'C27': 'the const decoder on 64 symbolic characters against the digit table; macro expansions against the runtime parser',
'C28': 'specifier and unlock key text both ways on symbolic bytes',
'C29': 'verify against the uninterpreted validity predicates for all bytes; sign/verify consistency, dependence only on the seed half',
'C30': 'derivation messages against the formula; phrase round trip and errors',
'C31': 'drop runs with the storage still observed: all bytes zero afterwards; operations leave the secret unchanged',
}
