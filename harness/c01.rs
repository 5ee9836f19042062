// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::encoding::*;
use sia::types::*;
use std::mem::ManuallyDrop;

harness!(c01_sco, 68, {
    round2::<SiacoinOutput, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_sfo, 68, {
    round2::<SiafundOutput, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_se, 68, {
    round2::<StateElement, 512>(G::g(&mut C::new(&[2])));
    reach!("end");
});
harness!(c01_idx, 68, {
    round2::<ChainIndex, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_ukey, 68, {
    round2::<v1::UnlockKey, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c01_t_uc, 68, {
    round2::<v1::UnlockConditions, 512>(G::g(&mut C::new(&[2, 32, 1])));
    reach!("end");
});
harness!(c01_att, 68, {
    round2::<v2::Attestation, 512>(G::g(&mut C::new(&[2, 3])));
    reach!("end");
});
harness!(c01_fc, 68, {
    round2::<v2::FileContract, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_sce, 68, {
    round2::<v2::SiacoinElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c01_sfe, 68, {
    round2::<v2::SiafundElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c01_t_fce, 68, {
    round2::<v2::FileContractElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c01_cie, 68, {
    round2::<v2::ChainIndexElement, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c01_sci, 68, {
    round2::<v2::SiacoinInput, 512>(G::g(&mut C::new(&[1, 3, 1, 1])));
    reach!("end");
});
harness!(c01_sfi, 68, {
    round2::<v2::SiafundInput, 512>(G::g(&mut C::new(&[1, 6, 1, 1])));
    reach!("end");
});
harness!(c01_t_rev, 132, {
    round2::<v2::FileContractRevision, 2048>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c01_t_ren, 132, {
    round2::<v2::FileContractRenewal, 2048>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_sp, 68, {
    round2::<v2::StorageProof, 512>(G::g(&mut C::new(&[1, 2])));
    reach!("end");
});
harness!(c01_res_ren, 132, {
    round2::<v2::FileContractResolution, 2048>(G::g(&mut C::new(&[1, 0])));
    reach!("end");
});
harness!(c01_res_sp, 132, {
    round2::<v2::FileContractResolution, 2048>(G::g(&mut C::new(&[1, 1, 1, 1])));
    reach!("end");
});
harness!(c01_t_res_exp, 68, {
    round2::<v2::FileContractResolution, 512>(G::g(&mut C::new(&[1, 2])));
    reach!("end");
});
harness!(c01_sat_above, 68, {
    round2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[1, 0, 2])));
    reach!("end");
});
harness!(c01_sat_key, 68, {
    round2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[3, 1, 1])));
    reach!("end");
});
harness!(c01_sat_hash, 68, {
    round2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[4, 0, 1])));
    reach!("end");
});
harness!(c01_sat_opaque, 68, {
    round2::<v2::SatisfiedPolicy, 512>(G::g(&mut C::new(&[6, 0, 0])));
    reach!("end");
});
harness!(c01_pol_after, 68, {
    round2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[2])));
    reach!("end");
});
harness!(c01_pol_thr0, 68, {
    round2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 0])));
    reach!("end");
});
harness!(c01_pol_thr1, 68, {
    round2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 1, 3])));
    reach!("end");
});
harness!(c01_pol_thr2, 68, {
    round2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 2, 1, 6])));
    reach!("end");
});
harness!(c01_pol_thr_nest, 68, {
    round2::<v2::SpendPolicy, 512>(G::g(&mut C::new(&[5, 2, 5, 1, 4, 5, 0])));
    reach!("end");
});
harness!(c01_tx_empty, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_tx_sci, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[1, 1, 3, 1, 1])));
    reach!("end");
});
harness!(c01_tx_sco, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 2])));
    reach!("end");
});
harness!(c01_tx_sfi, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 1, 1, 3, 1, 0])));
    reach!("end");
});
harness!(c01_tx_sfo, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 2])));
    reach!("end");
});
harness!(c01_tx_fc, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 1])));
    reach!("end");
});
harness!(c01_tx_rev, 132, {
    round2::<v2::Transaction, 2048>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 1, 0])));
    reach!("end");
});
harness!(c01_tx_res, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 1, 1, 2])));
    reach!("end");
});
harness!(c01_tx_att, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 0, 1, 2, 2])));
    reach!("end");
});
harness!(c01_tx_data, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 0, 0, 3])));
    reach!("end");
});
harness!(c01_tx_found, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1])));
    reach!("end");
});
harness!(c01_tx_mix, 68, {
    round2::<v2::Transaction, 512>(G::g(&mut C::new(&[0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 1, 1])));
    reach!("end");
});
harness!(c01_acc0, 68, {
    round2::<ElementAccumulator, 512>(G::g(&mut C::new(&[1])));
    reach!("end");
});
harness!(c01_t_acc1, 68, {
    round2::<ElementAccumulator, 512>(G::g(&mut C::new(&[2])));
    reach!("end");
});
harness!(c01_acc2, 68, {
    round2::<ElementAccumulator, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c01_state_genesis, 68, {
    round2::<State, 512>(G::g(&mut C::new(&[0, 0, 3])));
    reach!("end");
});
harness!(c01_t_state_4, 68, {
    round2::<State, 512>(G::g(&mut C::new(&[4, 4, 0])));
    reach!("end");
});
harness!(c01_state_9, 68, {
    round2::<State, 512>(G::g(&mut C::new(&[10, 10, 1])));
    reach!("end");
});
harness!(c01_t_state_10, 68, {
    round2::<State, 512>(G::g(&mut C::new(&[11, 11, 1])));
    reach!("end");
});
harness!(c01_state_11, 68, {
    round2::<State, 512>(G::g(&mut C::new(&[12, 11, 1])));
    reach!("end");
});
harness!(c01_scalar0, 68, {
    round2::<u8, 512>(G::g(&mut C::new(&[])));
    round2::<bool, 512>(G::g(&mut C::new(&[])));
    round2::<u16, 512>(G::g(&mut C::new(&[])));
    round2::<u32, 512>(G::g(&mut C::new(&[])));
    round2::<u64, 512>(G::g(&mut C::new(&[])));
    round2::<usize, 512>(G::g(&mut C::new(&[])));
    round2::<i16, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_scalar1, 68, {
    round2::<i32, 512>(G::g(&mut C::new(&[])));
    round2::<i64, 512>(G::g(&mut C::new(&[])));
    round2::<[u8; 5], 512>(G::g(&mut C::new(&[])));
    round2::<Option<u64>, 512>(G::g(&mut C::new(&[0])));
    round2::<Option<u64>, 512>(G::g(&mut C::new(&[1])));
    round2::<String, 512>(G::g(&mut C::new(&[0])));
    round2::<String, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c01_scalar2, 68, {
    round2::<Vec<Vec<u8>>, 512>(G::g(&mut C::new(&[2, 0, 2])));
    round2::<Option<Vec<bool>>, 512>(G::g(&mut C::new(&[1, 2])));
    round2::<Hash256, 512>(G::g(&mut C::new(&[])));
    round2::<SiacoinOutputID, 512>(G::g(&mut C::new(&[])));
    round2::<SiafundOutputID, 512>(G::g(&mut C::new(&[])));
    round2::<BlockID, 512>(G::g(&mut C::new(&[])));
    round2::<TransactionID, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_scalar3, 68, {
    round2::<FileContractID, 512>(G::g(&mut C::new(&[])));
    round2::<Address, 512>(G::g(&mut C::new(&[])));
    round2::<Leaf, 512>(G::g(&mut C::new(&[])));
    round2::<Specifier, 512>(G::g(&mut C::new(&[])));
    round2::<Work, 512>(G::g(&mut C::new(&[])));
    round2::<AttestationID, 512>(G::g(&mut C::new(&[])));
    round2::<Currency, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c01_scalar4, 68, {
    round2::<sia::signing::PublicKey, 512>(G::g(&mut C::new(&[])));
    round2::<sia::signing::Signature, 512>(G::g(&mut C::new(&[])));
    round2::<time::OffsetDateTime, 512>(G::g(&mut C::new(&[])));
    round2::<time::Duration, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});

#[allow(deprecated)]
harness!(c01_pol_uc, 40, {
    let uc: v1::UnlockConditions = G::g(&mut C::new(&[1, 1]));
    let keep = dup(&uc);
    let mut t = Tape::<512>::new();
    t.tag(1);
    t.tag(7);
    uc.e2(&mut t);
    let p = ManuallyDrop::new(v2::SpendPolicy::UnlockConditions(uc));
    round2_tape(&*p, &t, |w| if let v2::SpendPolicy::UnlockConditions(b) = w { keep.q(b) } else { false });
    reach!("end");
});
