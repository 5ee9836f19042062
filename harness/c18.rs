// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn whole(shape: &'static [u8], k: u8) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let (cs, prefix) = era(k);
    let (parent, index, timelock): ([u8; 32], u64, u64) = (bytes(), u64_(), u64_());
    let mut o = Msg::new();
    o.u64(t.siacoin_inputs.len() as u64);
    let mut i = 0;
    while i < t.siacoin_inputs.len() {
        o.put(prefix);
        t.siacoin_inputs[i].e1(&mut o);
        i += 1;
    }
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    o.u64(t.siafund_inputs.len() as u64);
    i = 0;
    while i < t.siafund_inputs.len() {
        o.put(prefix);
        t.siafund_inputs[i].e1(&mut o);
        i += 1;
    }
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o.put(&parent).u64(index).u64(timelock);
    let r = ManuallyDrop::new(t.whole_sig_hash(&cs, &SiacoinOutputID::new(parent), index, timelock));
    match &*r {
        Ok(h) => is32(h, &o),
        Err(_) => assert!(false, "hashing failed"),
    }
}

harness!(c18_empty, 68, {
    whole(&[], 0);
    reach!("end");
});
harness!(c18_sci, 68, {
    whole(&[1, 1, 32], 2);
    reach!("end");
});
harness!(c18_sco, 68, {
    whole(&[0, 2], 2);
    reach!("end");
});
harness!(c18_fc, 68, {
    whole(&[0, 0, 1, 1, 1], 3);
    reach!("end");
});
harness!(c18_rev, 68, {
    whole(&[0, 0, 0, 1, 1, 1, 1, 1], 0);
    reach!("end");
});
harness!(c18_sp, 68, {
    whole(&[0, 0, 0, 0, 1, 1], 1);
    reach!("end");
});
harness!(c18_sfi, 68, {
    whole(&[0, 0, 0, 0, 0, 1, 1, 2], 1);
    reach!("end");
});
harness!(c18_sfo, 68, {
    whole(&[0, 0, 0, 0, 0, 0, 2], 3);
    reach!("end");
});
harness!(c18_fee, 68, {
    whole(&[0, 0, 0, 0, 0, 0, 0, 2], 0);
    reach!("end");
});
harness!(c18_data, 68, {
    whole(&[0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3], 1);
    reach!("end");
});
harness!(c18_sig, 68, {
    whole(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 4], 2);
    reach!("end");
});
harness!(c18_mix, 68, {
    whole(&[1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0], 3);
    reach!("end");
});
harness!(c18_two_in, 68, {
    whole(&[2, 1, 32, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0], 3);
    reach!("end");
});
harness!(c18_two_sf, 68, {
    whole(&[0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0], 0);
    reach!("end");
});
