// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::encoding::*;
use sia::types::*;
use std::mem::ManuallyDrop;

harness!(c04_sco, 68, {
    layout1::<SiacoinOutput, 512>(G::g(&mut C::v1(&[])));
    reach!("end");
});
harness!(c04_sfo, 68, {
    layout1::<SiafundOutput, 512>(G::g(&mut C::v1(&[])));
    reach!("end");
});
harness!(c04_ukey, 68, {
    layout1::<v1::UnlockKey, 512>(G::g(&mut C::v1(&[3])));
    reach!("end");
});
harness!(c04_uc0, 68, {
    layout1::<v1::UnlockConditions, 512>(G::g(&mut C::v1(&[0])));
    reach!("end");
});
harness!(c04_uc, 68, {
    layout1::<v1::UnlockConditions, 512>(G::g(&mut C::v1(&[2, 32, 1])));
    reach!("end");
});
harness!(c04_sci, 68, {
    layout1::<v1::SiacoinInput, 512>(G::g(&mut C::v1(&[1, 32])));
    reach!("end");
});
harness!(c04_sfi, 68, {
    layout1::<v1::SiafundInput, 512>(G::g(&mut C::v1(&[1, 32])));
    reach!("end");
});
harness!(c04_t_fc, 68, {
    layout1::<v1::FileContract, 512>(G::g(&mut C::v1(&[2, 1])));
    reach!("end");
});
harness!(c04_t_rev, 68, {
    layout1::<v1::FileContractRevision, 512>(G::g(&mut C::v1(&[1, 32, 1, 2])));
    reach!("end");
});
harness!(c04_sp, 68, {
    layout1::<v1::StorageProof, 512>(G::g(&mut C::v1(&[2])));
    reach!("end");
});
harness!(c04_cov, 68, {
    layout1::<v1::CoveredFields, 512>(G::g(&mut C::v1(&[1, 1, 0, 2, 0, 1, 0, 0, 1, 0, 3])));
    reach!("end");
});
harness!(c04_cov2, 68, {
    layout1::<v1::CoveredFields, 512>(G::g(&mut C::v1(&[0, 0, 1, 0, 1, 0, 2, 1, 0, 1, 0])));
    reach!("end");
});
harness!(c04_sig, 68, {
    layout1::<v1::TransactionSignature, 512>(G::g(&mut C::v1(&[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 5])));
    reach!("end");
});
harness!(c04_tx_empty, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[])));
    reach!("end");
});
harness!(c04_tx_sci, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[1, 1, 32])));
    reach!("end");
});
harness!(c04_tx_sco, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 2])));
    reach!("end");
});
harness!(c04_tx_fc, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 1, 1, 1])));
    reach!("end");
});
harness!(c04_tx_rev, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 1, 1, 1, 1, 1])));
    reach!("end");
});
harness!(c04_tx_sp, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 0, 1, 1])));
    reach!("end");
});
harness!(c04_tx_sfi, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 0, 0, 1, 1, 2])));
    reach!("end");
});
harness!(c04_tx_sfo, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 0, 0, 0, 2])));
    reach!("end");
});
harness!(c04_tx_fee, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 0, 0, 0, 0, 2])));
    reach!("end");
});
harness!(c04_tx_data, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3])));
    reach!("end");
});
harness!(c04_tx_sig, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 4])));
    reach!("end");
});
harness!(c04_tx_mix, 68, {
    layout1::<v1::Transaction, 512>(G::g(&mut C::v1(&[1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0])));
    reach!("end");
});
harness!(c04_block0, 68, {
    layout1::<Block, 512>(G::g(&mut C::v1(&[])));
    reach!("end");
});
harness!(c04_block1, 68, {
    layout1::<Block, 512>(G::g(&mut C::v1(&[1, 1, 0, 1])));
    reach!("end");
});
harness!(c04_scalar0, 68, {
    layout1::<u8, 512>(G::g(&mut C::new(&[])));
    layout1::<bool, 512>(G::g(&mut C::new(&[])));
    layout1::<u16, 512>(G::g(&mut C::new(&[])));
    layout1::<u32, 512>(G::g(&mut C::new(&[])));
    layout1::<u64, 512>(G::g(&mut C::new(&[])));
    layout1::<usize, 512>(G::g(&mut C::new(&[])));
    layout1::<i16, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c04_scalar1, 68, {
    layout1::<i32, 512>(G::g(&mut C::new(&[])));
    layout1::<i64, 512>(G::g(&mut C::new(&[])));
    layout1::<[u8; 5], 512>(G::g(&mut C::new(&[])));
    layout1::<Option<u64>, 512>(G::g(&mut C::new(&[0])));
    layout1::<Option<u64>, 512>(G::g(&mut C::new(&[1])));
    layout1::<String, 512>(G::g(&mut C::new(&[0])));
    layout1::<String, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c04_scalar2, 68, {
    layout1::<Vec<Vec<u8>>, 512>(G::g(&mut C::new(&[2, 0, 2])));
    layout1::<Option<Vec<bool>>, 512>(G::g(&mut C::new(&[1, 2])));
    layout1::<Hash256, 512>(G::g(&mut C::new(&[])));
    layout1::<SiacoinOutputID, 512>(G::g(&mut C::new(&[])));
    layout1::<SiafundOutputID, 512>(G::g(&mut C::new(&[])));
    layout1::<BlockID, 512>(G::g(&mut C::new(&[])));
    layout1::<TransactionID, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c04_scalar3, 68, {
    layout1::<FileContractID, 512>(G::g(&mut C::new(&[])));
    layout1::<Address, 512>(G::g(&mut C::new(&[])));
    layout1::<Leaf, 512>(G::g(&mut C::new(&[])));
    layout1::<Specifier, 512>(G::g(&mut C::new(&[])));
    layout1::<Work, 512>(G::g(&mut C::new(&[])));
    layout1::<AttestationID, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});

// the variable-length forms, for every value
harness!(c04_currency, 68, {
    layout1::<Currency, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c04_sfo_any, 68, {
    layout1::<SiafundOutput, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
