// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::encoding::*;
use sia::types::*;
use std::mem::ManuallyDrop;

harness!(c03_sco, 68, {
    layout2::<SiacoinOutput, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_sfo, 68, {
    layout2::<SiafundOutput, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_se, 68, {
    layout2::<StateElement, 512>(G::g(&mut C::new(&[2])));
    reach!("end");
});
harness!(c03_idx, 68, {
    layout2::<ChainIndex, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_ukey, 68, {
    layout2::<v1::UnlockKey, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c03_t_uc, 68, {
    layout2::<v1::UnlockConditions, 512>(G::g(&mut C::new(&[2, 32, 1])));
    reach!("end");
});
harness!(c03_att, 68, {
    layout2::<v2::Attestation, 512>(G::g(&mut C::new(&[2, 3])));
    reach!("end");
});
harness!(c03_fc, 68, {
    layout2::<v2::FileContract, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_sce, 68, {
    layout2::<v2::SiacoinElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c03_sfe, 68, {
    layout2::<v2::SiafundElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c03_t_fce, 68, {
    layout2::<v2::FileContractElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c03_cie, 68, {
    layout2::<v2::ChainIndexElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c03_sci, 68, {
    layout2::<v2::SiacoinInput, 512>(G::g(&mut C::new(&[1, 3, 1, 1])));
    reach!("end");
});
harness!(c03_sfi, 68, {
    layout2::<v2::SiafundInput, 512>(G::g(&mut C::new(&[1, 6, 1, 1])));
    reach!("end");
});
harness!(c03_t_rev, 132, {
    layout2::<v2::FileContractRevision, 2048>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c03_t_ren, 132, {
    layout2::<v2::FileContractRenewal, 2048>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_sp, 68, {
    layout2::<v2::StorageProof, 512>(G::g(&mut C::new(&[1, 2])));
    reach!("end");
});
harness!(c03_res_ren, 132, {
    layout2::<v2::FileContractResolution, 2048>(G::g(&mut C::new(&[1, 0])));
    reach!("end");
});
harness!(c03_res_sp, 132, {
    layout2::<v2::FileContractResolution, 2048>(G::g(&mut C::new(&[1, 1, 1, 1])));
    reach!("end");
});
harness!(c03_t_res_exp, 68, {
    layout2::<v2::FileContractResolution, 512>(G::g(&mut C::new(&[1, 2])));
    reach!("end");
});
harness!(c03_sat_above, 68, {
    layout2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[1, 0, 2])));
    reach!("end");
});
harness!(c03_sat_key, 68, {
    layout2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[3, 1, 1])));
    reach!("end");
});
harness!(c03_sat_hash, 68, {
    layout2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[4, 0, 1])));
    reach!("end");
});
harness!(c03_sat_opaque, 68, {
    layout2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[6, 0, 0])));
    reach!("end");
});
harness!(c03_pol_after, 68, {
    layout2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[2])));
    reach!("end");
});
harness!(c03_pol_thr0, 68, {
    layout2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 0])));
    reach!("end");
});
harness!(c03_pol_thr1, 68, {
    layout2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 1, 3])));
    reach!("end");
});
harness!(c03_pol_thr2, 68, {
    layout2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 2, 1, 6])));
    reach!("end");
});
harness!(c03_pol_thr_nest, 68, {
    layout2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 2, 5, 1, 4, 5, 0])));
    reach!("end");
});
harness!(c03_tx_empty, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_tx_sci, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[1, 1, 3, 1, 1])));
    reach!("end");
});
harness!(c03_tx_sco, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 2])));
    reach!("end");
});
harness!(c03_tx_sfi, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 1, 1, 3, 1, 0])));
    reach!("end");
});
harness!(c03_tx_sfo, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 2])));
    reach!("end");
});
harness!(c03_tx_fc, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 1])));
    reach!("end");
});
harness!(c03_tx_rev, 132, {
    layout2::<v2::Transaction, 2048>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 1, 0])));
    reach!("end");
});
harness!(c03_tx_res, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 1, 1, 2])));
    reach!("end");
});
harness!(c03_tx_att, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 0, 1, 2, 2])));
    reach!("end");
});
harness!(c03_tx_data, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 0, 0, 3])));
    reach!("end");
});
harness!(c03_tx_found, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1])));
    reach!("end");
});
harness!(c03_tx_mix, 68, {
    layout2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 1, 1])));
    reach!("end");
});
harness!(c03_acc0, 68, {
    layout2::<ElementAccumulator, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c03_t_acc1, 68, {
    layout2::<ElementAccumulator, 512>(G::g(&mut C::new(&[2])));
    reach!("end");
});
harness!(c03_acc2, 68, {
    layout2::<ElementAccumulator, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c03_state_genesis, 68, {
    layout2::<State, 512>(G::g(&mut C::new(&[0, 0, 3])));
    reach!("end");
});
harness!(c03_t_state_4, 68, {
    layout2::<State, 512>(G::g(&mut C::new(&[4, 4, 0])));
    reach!("end");
});
harness!(c03_state_9, 68, {
    layout2::<State, 512>(G::g(&mut C::new(&[10, 10, 1])));
    reach!("end");
});
harness!(c03_t_state_10, 68, {
    layout2::<State, 512>(G::g(&mut C::new(&[11, 11, 1])));
    reach!("end");
});
harness!(c03_state_11, 68, {
    layout2::<State, 512>(G::g(&mut C::new(&[12, 11, 1])));
    reach!("end");
});
harness!(c03_unused_times, 68, {
    layout2::<State, 512>(G::g(&mut C::new(&[4, 11, 0])));
    reach!("end");
});
harness!(c03_scalar0, 68, {
    layout2::<u8, 512>(G::g(&mut C::new(&[])));
    layout2::<bool, 512>(G::g(&mut C::new(&[])));
    layout2::<u16, 512>(G::g(&mut C::new(&[])));
    layout2::<u32, 512>(G::g(&mut C::new(&[])));
    layout2::<u64, 512>(G::g(&mut C::new(&[])));
    layout2::<usize, 512>(G::g(&mut C::new(&[])));
    layout2::<i16, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_scalar1, 68, {
    layout2::<i32, 512>(G::g(&mut C::new(&[])));
    layout2::<i64, 512>(G::g(&mut C::new(&[])));
    layout2::<[u8; 5], 512>(G::g(&mut C::new(&[])));
    layout2::<Option<u64>, 512>(G::g(&mut C::new(&[0])));
    layout2::<Option<u64>, 512>(G::g(&mut C::new(&[1])));
    layout2::<String, 512>(G::g(&mut C::new(&[0])));
    layout2::<String, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c03_scalar2, 68, {
    layout2::<Vec<Vec<u8>>, 512>(G::g(&mut C::new(&[2, 0, 2])));
    layout2::<Option<Vec<bool>>, 512>(G::g(&mut C::new(&[1, 2])));
    layout2::<Hash256, 512>(G::g(&mut C::new(&[])));
    layout2::<SiacoinOutputID, 512>(G::g(&mut C::new(&[])));
    layout2::<SiafundOutputID, 512>(G::g(&mut C::new(&[])));
    layout2::<BlockID, 512>(G::g(&mut C::new(&[])));
    layout2::<TransactionID, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_scalar3, 68, {
    layout2::<FileContractID, 512>(G::g(&mut C::new(&[])));
    layout2::<Address, 512>(G::g(&mut C::new(&[])));
    layout2::<Leaf, 512>(G::g(&mut C::new(&[])));
    layout2::<Specifier, 512>(G::g(&mut C::new(&[])));
    layout2::<Work, 512>(G::g(&mut C::new(&[])));
    layout2::<AttestationID, 512>(G::g(&mut C::new(&[])));
    layout2::<Currency, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c03_scalar4, 68, {
    layout2::<sia::signing::PublicKey, 512>(G::g(&mut C::new(&[])));
    layout2::<sia::signing::Signature, 512>(G::g(&mut C::new(&[])));
    layout2::<time::OffsetDateTime, 512>(G::g(&mut C::new(&[])));
    layout2::<time::Duration, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});

#[allow(deprecated)]
harness!(c03_pol_uc, 40, {
    let uc: v1::UnlockConditions = G::g(&mut C::new(&[1, 1]));
    let (mut a, mut b) = (Out::<512>::new(), Out::<512>::new());
    Sink::tag(&mut b, 1);
    Sink::tag(&mut b, 7);
    uc.e2(&mut b);
    let p = ManuallyDrop::new(v2::SpendPolicy::UnlockConditions(uc));
    assert!(p.encode(&mut a).is_ok());
    assert!(a.same(&b));
    reach!("end");
});
