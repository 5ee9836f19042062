// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

// kinds: which child identifiers to check
fn ids(shape: &'static [u8], kinds: u8) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let i = usize_();
    let mut o = Msg::new();
    no_sigs(&t, &mut o);
    is32(&t.id(), &o);
    let mut k = 0;
    while k < 3 {
        if kinds >> k & 1 == 1 {
            let mut p = Msg::new();
            p.put([b"siacoin output\0\0", b"siafund output\0\0", b"file contract\0\0\0"][k]);
            no_sigs(&t, &mut p);
            p.u64(i as u64);
            if k == 0 {
                is32(&t.siacoin_output_id(i), &p);
            } else if k == 1 {
                is32(&t.siafund_output_id(i), &p);
            } else {
                is32(&t.file_contract_id(i), &p);
            }
        }
        k += 1;
    }
}

harness!(c17_empty, 68, {
    ids(&[], 1);
    reach!("end");
});
harness!(c17_sci, 68, {
    ids(&[1, 1, 32], 2);
    reach!("end");
});
harness!(c17_sco, 68, {
    ids(&[0, 2], 4);
    reach!("end");
});
harness!(c17_fc, 68, {
    ids(&[0, 0, 1, 1, 1], 1);
    reach!("end");
});
harness!(c17_rev, 68, {
    ids(&[0, 0, 0, 1, 1, 1, 1, 1], 2);
    reach!("end");
});
harness!(c17_sp, 68, {
    ids(&[0, 0, 0, 0, 1, 1], 4);
    reach!("end");
});
harness!(c17_sfi, 68, {
    ids(&[0, 0, 0, 0, 0, 1, 1, 2], 1);
    reach!("end");
});
harness!(c17_sfo, 68, {
    ids(&[0, 0, 0, 0, 0, 0, 2], 2);
    reach!("end");
});
harness!(c17_fee, 68, {
    ids(&[0, 0, 0, 0, 0, 0, 0, 2], 4);
    reach!("end");
});
harness!(c17_data, 68, {
    ids(&[0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3], 1);
    reach!("end");
});
harness!(c17_sig, 68, {
    ids(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 4], 7);
    reach!("end");
});
harness!(c17_mix, 68, {
    ids(&[1, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0], 0);
    reach!("end");
});
harness!(c17_two_in, 68, {
    ids(&[2, 1, 32, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0], 0);
    reach!("end");
});
harness!(c17_two_sf, 68, {
    ids(&[0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0], 2);
    reach!("end");
});
