"""Types and shapes covered by the codec harnesses (C01/C03: v2 wire form, C02/C04: v1 wire form)."""
V2 = [
    ('sco', 'SiacoinOutput', 512, []),
    ('sfo', 'SiafundOutput', 512, []),
    ('se', 'StateElement', 512, [2]),
    ('idx', 'ChainIndex', 512, []),
    ('ukey', 'v1::UnlockKey', 512, [3]),
    ('t_uc', 'v1::UnlockConditions', 512, [2, 32, 1]),
    ('att', 'v2::Attestation', 512, [2, 3]),
    ('fc', 'v2::FileContract', 512, []),
    ('sce', 'v2::SiacoinElement', 512, [1]),
    ('sfe', 'v2::SiafundElement', 512, [1]),
    ('t_fce', 'v2::FileContractElement', 512, [1]),
    ('cie', 'v2::ChainIndexElement', 512, [1]),
    ('sci', 'v2::SiacoinInput', 512, [1, 3, 1, 1]),
    ('sfi', 'v2::SiafundInput', 512, [1, 6, 1, 1]),
    ('t_rev', 'v2::FileContractRevision', 2048, [1]),
    ('t_ren', 'v2::FileContractRenewal', 2048, []),
    ('sp', 'v2::StorageProof', 512, [1, 2]),
    ('res_ren', 'v2::FileContractResolution', 2048, [1, 0]),
    ('res_sp', 'v2::FileContractResolution', 2048, [1, 1, 1, 1]),
    ('t_res_exp', 'v2::FileContractResolution', 512, [1, 2]),
    ('sat_above', 'v2::SatisfiedPolicy', 512, [1, 0, 2]),
    ('sat_key', 'v2::SatisfiedPolicy', 512, [3, 1, 1]),
    ('sat_hash', 'v2::SatisfiedPolicy', 512, [4, 0, 1]),
    ('sat_opaque', 'v2::SatisfiedPolicy', 512, [6, 0, 0]),
    ('pol_after', 'v2::SpendPolicy', 512, [2]),
    ('pol_thr0', 'v2::SpendPolicy', 512, [5, 0]),
    ('pol_thr1', 'v2::SpendPolicy', 512, [5, 1, 3]),
    ('pol_thr2', 'v2::SpendPolicy', 512, [5, 2, 1, 6]),
    ('pol_thr_nest', 'v2::SpendPolicy', 512, [5, 2, 5, 1, 4, 5, 0]),
    ('tx_empty', 'v2::Transaction', 512, []),
    ('tx_sci', 'v2::Transaction', 512, [1, 1, 3, 1, 1]),
    ('tx_sco', 'v2::Transaction', 512, [0, 2]),
    ('tx_sfi', 'v2::Transaction', 512, [0, 0, 1, 1, 3, 1, 0]),
    ('tx_sfo', 'v2::Transaction', 512, [0, 0, 0, 2]),
    ('tx_fc', 'v2::Transaction', 512, [0, 0, 0, 0, 1]),
    ('tx_rev', 'v2::Transaction', 2048, [0, 0, 0, 0, 0, 1, 0]),
    ('tx_res', 'v2::Transaction', 512, [0, 0, 0, 0, 0, 0, 1, 1, 2]),
    ('tx_att', 'v2::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 1, 2, 2]),
    ('tx_data', 'v2::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 0, 3]),
    ('tx_found', 'v2::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 0, 0, 1]),
    ('tx_mix', 'v2::Transaction', 512, [0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 1, 1]),
    ('acc0', 'ElementAccumulator', 512, [1]),
    ('t_acc1', 'ElementAccumulator', 512, [2]),
    ('acc2', 'ElementAccumulator', 512, [3]),
    ('state_genesis', 'State', 512, [0, 0, 3]),
    ('t_state_4', 'State', 512, [4, 4, 0]),
    ('state_9', 'State', 512, [10, 10, 1]),
    ('t_state_10', 'State', 512, [11, 11, 1]),
    ('state_11', 'State', 512, [12, 11, 1]),
    ('unused_times', 'State', 512, [4, 11, 0]),
]
# scalars and containers of both wire forms
SCALARS = [('u8', 'u8', []), ('bool', 'bool', []), ('u16', 'u16', []), ('u32', 'u32', []), ('u64', 'u64', []), ('usize', 'usize', []),
    ('i16', 'i16', []), ('i32', 'i32', []), ('i64', 'i64', []), ('arr', '[u8; 5]', []), ('none', 'Option<u64>', [0]),
    ('some', 'Option<u64>', [1]), ('str0', 'String', [0]), ('str3', 'String', [3]), ('vec', 'Vec<Vec<u8>>', [2, 0, 2]), ('ovec', 'Option<Vec<bool>>', [1, 2]),
    ('hash', 'Hash256', []), ('scoid', 'SiacoinOutputID', []), ('sfoid', 'SiafundOutputID', []), ('bid', 'BlockID', []),
    ('txid', 'TransactionID', []), ('fcid', 'FileContractID', []), ('addr', 'Address', []), ('leaf', 'Leaf', []),
    ('spec', 'Specifier', []), ('work', 'Work', []), ('attid', 'AttestationID', [])]
SCALARS2 = [('cur', 'Currency', []), ('pk', 'sia::signing::PublicKey', []), ('sig', 'sia::signing::Signature', []), ('time', 'time::OffsetDateTime', []), ('dur', 'time::Duration', [])]
V1 = [
    ('sco', 'SiacoinOutput', 512, []),
    ('sfo', 'SiafundOutput', 512, []),
    ('ukey', 'v1::UnlockKey', 512, [3]),
    ('uc0', 'v1::UnlockConditions', 512, [0]),
    ('uc', 'v1::UnlockConditions', 512, [2, 32, 1]),
    ('sci', 'v1::SiacoinInput', 512, [1, 32]),
    ('sfi', 'v1::SiafundInput', 512, [1, 32]),
    ('t_fc', 'v1::FileContract', 512, [2, 1]),
    ('t_rev', 'v1::FileContractRevision', 512, [1, 32, 1, 2]),
    ('sp', 'v1::StorageProof', 512, [2]),
    ('cov', 'v1::CoveredFields', 512, [1, 1, 0, 2, 0, 1, 0, 0, 1, 0, 3]),
    ('cov2', 'v1::CoveredFields', 512, [0, 0, 1, 0, 1, 0, 2, 1, 0, 1, 0]),
    ('sig', 'v1::TransactionSignature', 512, [0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 5]),
    ('tx_empty', 'v1::Transaction', 512, []),
    ('tx_sci', 'v1::Transaction', 512, [1, 1, 32]),
    ('tx_sco', 'v1::Transaction', 512, [0, 2]),
    ('tx_fc', 'v1::Transaction', 512, [0, 0, 1, 1, 1]),
    ('tx_rev', 'v1::Transaction', 512, [0, 0, 0, 1, 1, 1, 1, 1]),
    ('tx_sp', 'v1::Transaction', 512, [0, 0, 0, 0, 1, 1]),
    ('tx_sfi', 'v1::Transaction', 512, [0, 0, 0, 0, 0, 1, 1, 2]),
    ('tx_sfo', 'v1::Transaction', 512, [0, 0, 0, 0, 0, 0, 2]),
    ('tx_fee', 'v1::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 2]),
    ('tx_data', 'v1::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3]),
    ('tx_sig', 'v1::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 4]),
    ('tx_mix', 'v1::Transaction', 512, [1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0]),
    ('block0', 'Block', 512, []),
    ('block1', 'Block', 512, [1, 1, 0, 1]),
]
# for failing, short and interrupted reads and writes
FSCALARS = [s for s in SCALARS if s[0] in ('u8', 'bool', 'u16', 'usize', 'i64', 'arr', 'none', 'some', 'str3', 'vec', 'ovec', 'hash', 'addr', 'leaf', 'spec', 'work', 'fcid', 'attid')]
F2 = [
    ('sco', 'SiacoinOutput', 512, []),
    ('sfo', 'SiafundOutput', 512, []),
    ('se', 'StateElement', 512, [2]),
    ('idx', 'ChainIndex', 512, []),
    ('uc', 'v1::UnlockConditions', 512, [2, 2, 1]),
    ('att', 'v2::Attestation', 512, [2, 3]),
    ('fc', 'v2::FileContract', 512, []),
    ('cie', 'v2::ChainIndexElement', 512, [1]),
    ('sci', 'v2::SiacoinInput', 512, [1, 3, 1, 1]),
    ('sfi', 'v2::SiafundInput', 512, [1, 6, 1, 1]),
    ('sp', 'v2::StorageProof', 512, [1, 2]),
    ('t_rev', 'v2::FileContractRevision', 2048, [1]),
    ('res_exp', 'v2::FileContractResolution', 512, [1, 2]),
    ('t_res_sp', 'v2::FileContractResolution', 2048, [1, 1, 1, 1]),
    ('t_res_ren', 'v2::FileContractResolution', 2048, [1, 0]),
    ('pol_above', 'v2::SpendPolicy', 512, [1]),
    ('pol_after', 'v2::SpendPolicy', 512, [2]),
    ('pol_key', 'v2::SpendPolicy', 512, [3]),
    ('pol_thr', 'v2::SpendPolicy', 512, [5, 2, 5, 1, 4, 6]),
    ('tx_empty', 'v2::Transaction', 512, []),
    ('tx_sco', 'v2::Transaction', 512, [0, 2]),
    ('tx_found', 'v2::Transaction', 512, [0, 0, 0, 0, 0, 0, 0, 0, 2, 1]),
    ('t_tx_sci', 'v2::Transaction', 512, [1, 1, 3, 1, 1]),
    ('t_tx_mix', 'v2::Transaction', 512, [0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 1, 1]),
    ('acc', 'ElementAccumulator', 512, [3]),
    ('state', 'State', 512, [10, 10, 1]),
]
F1 = [
    ('sco', 'SiacoinOutput', 512, []),
    ('sfo', 'SiafundOutput', 512, []),
    ('uc', 'v1::UnlockConditions', 512, [2, 2, 1]),
    ('sci', 'v1::SiacoinInput', 512, [1, 2]),
    ('fc', 'v1::FileContract', 512, [1, 1]),
    ('sp', 'v1::StorageProof', 512, [2]),
    ('sig', 'v1::TransactionSignature', 512, [0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 3]),
    ('t_rev', 'v1::FileContractRevision', 512, [1, 2, 1, 2]),
    ('tx_empty', 'v1::Transaction', 512, []),
    ('tx_sco', 'v1::Transaction', 512, [0, 2]),
    ('t_tx_mix', 'v1::Transaction', 512, [1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0]),
    ('block', 'Block', 512, [1, 1, 0, 1]),
]
# types decoded from any bytes
P = 'sia::signing::'
A2 = [
    ('prim', ['u8', 'bool', 'u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64']),
    ('arrays', ['[u8; 5]', 'Hash256', 'Address', 'Leaf', 'Specifier', 'Work', 'BlockID', 'FileContractID', 'TransactionID', 'SiacoinOutputID', 'SiafundOutputID', 'AttestationID', P + 'PublicKey', P + 'Signature']),
    ('scalar', ['Currency', 'time::OffsetDateTime', 'time::Duration']),
    ('option', ['Option<u64>', 'Option<bool>']),
    ('string', ['String']), ('vec', ['Vec<u8>', 'Vec<bool>', 'Vec<Vec<u8>>', 'Option<Vec<u64>>']),
    ('outs', ['SiacoinOutput', 'SiafundOutput', 'ChainIndex']), ('se', ['StateElement']),
    ('uc', ['v1::UnlockKey', 'v1::UnlockConditions']), ('att', ['v2::Attestation']), ('fc', ['v2::FileContract']), ('elem', ['v2::SiacoinElement', 'v2::SiafundElement', 'v2::ChainIndexElement']),
    ('fce', ['v2::FileContractElement']), ('pol', ['v2::SpendPolicy']), ('sat', ['v2::SatisfiedPolicy']), ('sci', ['v2::SiacoinInput']), ('sfi', ['v2::SiafundInput']),
    ('rev', ['v2::FileContractRevision']), ('ren', ['v2::FileContractRenewal']), ('sp', ['v2::StorageProof']), ('res', ['v2::FileContractResolution']), ('tx', ['v2::Transaction']),
    ('acc', ['ElementAccumulator']), ('state', ['State']),
]
A1 = [
    ('prim', ['u8', 'bool', 'u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64']),
    ('arrays', ['[u8; 5]', 'Hash256', 'Address', 'Leaf', 'Specifier', 'Work', 'BlockID', 'FileContractID', 'TransactionID', 'SiacoinOutputID', 'SiafundOutputID', 'AttestationID']),
    ('currency', ['Currency']), ('option', ['Option<u64>', 'Option<bool>']), ('string', ['String']), ('vec', ['Vec<u8>', 'Vec<bool>', 'Vec<Vec<u8>>', 'Option<Vec<u64>>']),
    ('sco', ['SiacoinOutput']), ('sfo', ['SiafundOutput']), ('uc', ['v1::UnlockKey', 'v1::UnlockConditions']), ('ins', ['v1::SiacoinInput']), ('sfi', ['v1::SiafundInput']),
    ('fc', ['v1::FileContract']), ('rev', ['v1::FileContractRevision']), ('sp', ['v1::StorageProof']), ('cov', ['v1::CoveredFields']), ('sig', ['v1::TransactionSignature']),
    ('tx', ['v1::Transaction']), ('block', ['Block']),
]
