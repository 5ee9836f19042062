// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn contract(k: u8) {
    let f: v2::FileContract = G::g(&mut C::new(&[]));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/sig/filecontract|").put(prefix);
    fc_sem(&f, &mut o);
    is32(&f.sig_hash(&cs), &o);
}
fn renewal(k: u8) {
    let f: v2::FileContractRenewal = G::g(&mut C::new(&[]));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/sig/filecontractrenewal|").put(prefix);
    renewal_sem(&f, &mut o);
    is32(&f.sig_hash(&cs), &o);
}
fn attestation(k: u8, shape: &'static [u8]) {
    let a: ManuallyDrop<v2::Attestation> = ManuallyDrop::new(G::g(&mut C::new(shape)));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/sig/attestation|").put(prefix);
    a.public_key.e2(&mut o);
    a.key.e2(&mut o);
    a.value.e2(&mut o);
    o.put(&[0; 64]);
    is32(&a.sig_hash(&cs), &o);
}

harness!(c21_contract0, 84, {
    contract(0);
    reach!("end");
});
harness!(c21_renewal0, 84, {
    renewal(0);
    reach!("end");
});
harness!(c21_attestation0, 84, {
    attestation(0, &[2, 3]);
    reach!("end");
});
harness!(c21_contract1, 84, {
    contract(1);
    reach!("end");
});
harness!(c21_t_renewal1, 84, {
    renewal(1);
    reach!("end");
});
harness!(c21_attestation1, 84, {
    attestation(1, &[0, 0]);
    reach!("end");
});
harness!(c21_contract2, 84, {
    contract(2);
    reach!("end");
});
harness!(c21_t_renewal2, 84, {
    renewal(2);
    reach!("end");
});
harness!(c21_attestation2, 84, {
    attestation(2, &[1, 1]);
    reach!("end");
});
harness!(c21_contract3, 84, {
    contract(3);
    reach!("end");
});
harness!(c21_renewal3, 84, {
    renewal(3);
    reach!("end");
});
harness!(c21_attestation3, 84, {
    attestation(3, &[3, 0]);
    reach!("end");
});
