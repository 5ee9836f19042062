// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn ids(shape: &'static [u8], k: u8) {
    let t: ManuallyDrop<v2::Transaction> = ManuallyDrop::new(G::g(&mut C::new(shape)));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/id/transaction|");
    tx_sem(&t, &mut o);
    is32(&t.id(), &o);
    let mut o = Msg::new();
    o.put(b"sia/sig/input|").put(prefix);
    tx_sem(&t, &mut o);
    is32(&t.input_sig_hash(&cs), &o);
}

harness!(c20_empty, 84, {
    ids(&[], 1);
    reach!("end");
});
harness!(c20_sci, 84, {
    ids(&[1, 1, 3, 1, 1], 2);
    reach!("end");
});
harness!(c20_sco, 84, {
    ids(&[0, 2], 3);
    reach!("end");
});
harness!(c20_sfi, 84, {
    ids(&[0, 0, 1, 1, 3, 1, 0], 0);
    reach!("end");
});
harness!(c20_sfo, 84, {
    ids(&[0, 0, 0, 2], 1);
    reach!("end");
});
harness!(c20_fc, 84, {
    ids(&[0, 0, 0, 0, 1], 2);
    reach!("end");
});
harness!(c20_rev, 84, {
    ids(&[0, 0, 0, 0, 0, 1, 0], 3);
    reach!("end");
});
harness!(c20_res, 84, {
    ids(&[0, 0, 0, 0, 0, 0, 1, 1, 2], 0);
    reach!("end");
});
harness!(c20_att, 84, {
    ids(&[0, 0, 0, 0, 0, 0, 0, 1, 2, 2], 1);
    reach!("end");
});
harness!(c20_data, 84, {
    ids(&[0, 0, 0, 0, 0, 0, 0, 0, 3], 2);
    reach!("end");
});
harness!(c20_found, 84, {
    ids(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1], 3);
    reach!("end");
});
harness!(c20_mix, 84, {
    ids(&[0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 1, 1], 0);
    reach!("end");
});
harness!(c20_fc2, 84, {
    ids(&[0, 0, 0, 0, 2], 1);
    reach!("end");
});
harness!(c20_res_sp, 84, {
    ids(&[0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1], 2);
    reach!("end");
});
harness!(c20_res_ren, 84, {
    ids(&[0, 0, 0, 0, 0, 0, 1, 1, 0], 3);
    reach!("end");
});
harness!(c20_sci2, 84, {
    ids(&[2, 1, 3, 1, 1, 0, 5, 1, 3, 0, 0], 0);
    reach!("end");
});
harness!(c20_sfi2, 84, {
    ids(&[0, 0, 2], 1);
    reach!("end");
});
