// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::encoding::*;
use sia::types::*;
use std::mem::ManuallyDrop;

harness!(c02_sco, 68, {
    round1::<SiacoinOutput, 512>(G::g(&mut C::v1i(&[])));
    reach!("end");
});
harness!(c02_sfo, 68, {
    round1::<SiafundOutput, 512>(G::g(&mut C::v1i(&[])));
    reach!("end");
});
harness!(c02_ukey, 68, {
    round1::<v1::UnlockKey, 512>(G::g(&mut C::v1i(&[3])));
    reach!("end");
});
harness!(c02_uc0, 68, {
    round1::<v1::UnlockConditions, 512>(G::g(&mut C::v1i(&[0])));
    reach!("end");
});
harness!(c02_uc, 68, {
    round1::<v1::UnlockConditions, 512>(G::g(&mut C::v1i(&[2, 32, 1])));
    reach!("end");
});
harness!(c02_sci, 68, {
    round1::<v1::SiacoinInput, 512>(G::g(&mut C::v1i(&[1, 32])));
    reach!("end");
});
harness!(c02_sfi, 68, {
    round1::<v1::SiafundInput, 512>(G::g(&mut C::v1i(&[1, 32])));
    reach!("end");
});
harness!(c02_t_fc, 68, {
    round1::<v1::FileContract, 512>(G::g(&mut C::v1i(&[2, 1])));
    reach!("end");
});
harness!(c02_t_rev, 68, {
    round1::<v1::FileContractRevision, 512>(G::g(&mut C::v1i(&[1, 32, 1, 2])));
    reach!("end");
});
harness!(c02_sp, 68, {
    round1::<v1::StorageProof, 512>(G::g(&mut C::v1i(&[2])));
    reach!("end");
});
harness!(c02_cov, 68, {
    round1::<v1::CoveredFields, 512>(G::g(&mut C::v1i(&[1, 1, 0, 2, 0, 1, 0, 0, 1, 0, 3])));
    reach!("end");
});
harness!(c02_cov2, 68, {
    round1::<v1::CoveredFields, 512>(G::g(&mut C::v1i(&[0, 0, 1, 0, 1, 0, 2, 1, 0, 1, 0])));
    reach!("end");
});
harness!(c02_sig, 68, {
    round1::<v1::TransactionSignature, 512>(G::g(&mut C::v1i(&[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 5])));
    reach!("end");
});
harness!(c02_tx_empty, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[])));
    reach!("end");
});
harness!(c02_tx_sci, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[1, 1, 32])));
    reach!("end");
});
harness!(c02_tx_sco, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 2])));
    reach!("end");
});
harness!(c02_tx_fc, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 1, 1, 1])));
    reach!("end");
});
harness!(c02_tx_rev, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 1, 1, 1, 1, 1])));
    reach!("end");
});
harness!(c02_tx_sp, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 0, 1, 1])));
    reach!("end");
});
harness!(c02_tx_sfi, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 0, 0, 1, 1, 2])));
    reach!("end");
});
harness!(c02_tx_sfo, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 0, 0, 0, 2])));
    reach!("end");
});
harness!(c02_tx_fee, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 0, 0, 0, 0, 2])));
    reach!("end");
});
harness!(c02_tx_data, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3])));
    reach!("end");
});
harness!(c02_tx_sig, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 4])));
    reach!("end");
});
harness!(c02_tx_mix, 68, {
    round1::<v1::Transaction, 512>(G::g(&mut C::v1i(&[1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0])));
    reach!("end");
});
harness!(c02_block0, 68, {
    round1::<Block, 512>(G::g(&mut C::v1i(&[])));
    reach!("end");
});
harness!(c02_block1, 68, {
    round1::<Block, 512>(G::g(&mut C::v1i(&[1, 1, 0, 1])));
    reach!("end");
});
harness!(c02_scalar0, 68, {
    round1::<u8, 512>(G::g(&mut C::new(&[])));
    round1::<bool, 512>(G::g(&mut C::new(&[])));
    round1::<u16, 512>(G::g(&mut C::new(&[])));
    round1::<u32, 512>(G::g(&mut C::new(&[])));
    round1::<u64, 512>(G::g(&mut C::new(&[])));
    round1::<usize, 512>(G::g(&mut C::new(&[])));
    round1::<i16, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c02_scalar1, 68, {
    round1::<i32, 512>(G::g(&mut C::new(&[])));
    round1::<i64, 512>(G::g(&mut C::new(&[])));
    round1::<[u8; 5], 512>(G::g(&mut C::new(&[])));
    round1::<Option<u64>, 512>(G::g(&mut C::new(&[0])));
    round1::<Option<u64>, 512>(G::g(&mut C::new(&[1])));
    round1::<String, 512>(G::g(&mut C::new(&[0])));
    round1::<String, 512>(G::g(&mut C::new(&[3])));
    reach!("end");
});
harness!(c02_scalar2, 68, {
    round1::<Vec<Vec<u8>>, 512>(G::g(&mut C::new(&[2, 0, 2])));
    round1::<Option<Vec<bool>>, 512>(G::g(&mut C::new(&[1, 2])));
    round1::<Hash256, 512>(G::g(&mut C::new(&[])));
    round1::<SiacoinOutputID, 512>(G::g(&mut C::new(&[])));
    round1::<SiafundOutputID, 512>(G::g(&mut C::new(&[])));
    round1::<BlockID, 512>(G::g(&mut C::new(&[])));
    round1::<TransactionID, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c02_scalar3, 68, {
    round1::<FileContractID, 512>(G::g(&mut C::new(&[])));
    round1::<Address, 512>(G::g(&mut C::new(&[])));
    round1::<Leaf, 512>(G::g(&mut C::new(&[])));
    round1::<Specifier, 512>(G::g(&mut C::new(&[])));
    round1::<Work, 512>(G::g(&mut C::new(&[])));
    round1::<AttestationID, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});

// the variable-length forms, for every value
fn any_value<T: V1SiaEncodable + V1SiaDecodable + Q + G, const N: usize>() {
    let v = T::g(&mut C::new(&[]));
    let mut enc = Out::<N>::new();
    assert!(v.encode_v1(&mut enc).is_ok());
    let n = enc.n;
    enc.put(&[0xa5]);
    let mut r = &enc.b[..n + 1];
    match T::decode_v1(&mut r) {
        Ok(w) => {
            assert!(r.len() == 1);
            assert!(v.q(&w));
        }
        Err(_) => assert!(false, "decoding an encoded value failed"),
    }
}
harness!(c02_currency, 68, {
    any_value::<Currency, 512>();
    reach!("end");
});
harness!(c02_sfo_any, 68, {
    any_value::<SiafundOutput, 512>();
    reach!("end");
});
