// generated by tools/gen_codec.py
use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn covered(l: [&[usize]; 10]) -> v1::CoveredFields {
    v1::CoveredFields {
        whole_transaction: bool_(),
        siacoin_inputs: l[0].to_vec(),
        siacoin_outputs: l[1].to_vec(),
        file_contracts: l[2].to_vec(),
        file_contract_revisions: l[3].to_vec(),
        storage_proofs: l[4].to_vec(),
        siafund_inputs: l[5].to_vec(),
        siafund_outputs: l[6].to_vec(),
        miner_fees: l[7].to_vec(),
        arbitrary_data: l[8].to_vec(),
        signatures: l[9].to_vec(),
    }
}
fn each<T: E1>(list: &[T], idx: &[usize], prefix: &[u8], o: &mut Msg) {
    let mut i = 0;
    while i < idx.len() {
        o.put(prefix);
        list[idx[i]].e1(o);
        i += 1;
    }
}
fn partial(shape: &'static [u8], l: [&[usize]; 10], k: u8) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let cov = ManuallyDrop::new(covered(l));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    each(&t.siacoin_inputs, l[0], prefix, &mut o);
    each(&t.siacoin_outputs, l[1], &[], &mut o);
    each(&t.file_contracts, l[2], &[], &mut o);
    each(&t.file_contract_revisions, l[3], &[], &mut o);
    each(&t.storage_proofs, l[4], &[], &mut o);
    each(&t.siafund_inputs, l[5], prefix, &mut o);
    each(&t.siafund_outputs, l[6], &[], &mut o);
    each(&t.miner_fees, l[7], &[], &mut o);
    each(&t.arbitrary_data, l[8], &[], &mut o);
    each(&t.signatures, l[9], &[], &mut o);
    let r = ManuallyDrop::new(t.partial_sig_hash(&cs, &cov));
    match &*r {
        Ok(h) => is32(h, &o),
        Err(_) => assert!(false, "hashing failed"),
    }
}
// an index outside list k
fn outside(shape: &'static [u8], k: usize, bad: &[usize]) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let (cs, _) = era(3);
    let mut j = 0;
    while j < bad.len() {
        let mut l: [&[usize]; 10] = [&[]; 10];
        l[k] = &bad[j..j + 1];
        let cov = ManuallyDrop::new(covered(l));
        let r = ManuallyDrop::new(t.partial_sig_hash(&cs, &cov));
        assert!(r.is_err());
        j += 1;
    }
}

harness!(c19_sci, 84, {
    partial(&[2, 0, 0], [&[1, 0, 1], &[], &[], &[], &[], &[], &[], &[], &[], &[]], 3);
    outside(&[2, 0, 0], 0, &[2, usize::MAX]);
    outside(&[], 0, &[usize_()]);
    reach!("end");
});
harness!(c19_sco, 84, {
    partial(&[0, 2], [&[], &[1, 0, 1], &[], &[], &[], &[], &[], &[], &[], &[]], 1);
    outside(&[0, 2], 1, &[2, usize::MAX]);
    outside(&[], 1, &[usize_()]);
    reach!("end");
});
harness!(c19_fc, 84, {
    partial(&[0, 0, 2, 1, 0, 0, 1], [&[], &[], &[1, 0, 1], &[], &[], &[], &[], &[], &[], &[]], 2);
    outside(&[0, 0, 2, 1, 0, 0, 1], 2, &[2, usize::MAX]);
    outside(&[], 2, &[usize_()]);
    reach!("end");
});
harness!(c19_rev, 84, {
    partial(&[0, 0, 0, 2, 0, 1, 0, 0, 0, 1], [&[], &[], &[], &[1, 0, 1], &[], &[], &[], &[], &[], &[]], 3);
    outside(&[0, 0, 0, 2, 0, 1, 0, 0, 0, 1], 3, &[2, usize::MAX]);
    outside(&[], 3, &[usize_()]);
    reach!("end");
});
harness!(c19_sp, 84, {
    partial(&[0, 0, 0, 0, 2, 1, 0], [&[], &[], &[], &[], &[1, 0, 1], &[], &[], &[], &[], &[]], 0);
    outside(&[0, 0, 0, 0, 2, 1, 0], 4, &[2, usize::MAX]);
    outside(&[], 4, &[usize_()]);
    reach!("end");
});
harness!(c19_sfi, 84, {
    partial(&[0, 0, 0, 0, 0, 2, 0, 0], [&[], &[], &[], &[], &[], &[1, 0, 1], &[], &[], &[], &[]], 2);
    outside(&[0, 0, 0, 0, 0, 2, 0, 0], 5, &[2, usize::MAX]);
    outside(&[], 5, &[usize_()]);
    reach!("end");
});
harness!(c19_sfo, 84, {
    partial(&[0, 0, 0, 0, 0, 0, 2], [&[], &[], &[], &[], &[], &[], &[1, 0, 1], &[], &[], &[]], 2);
    outside(&[0, 0, 0, 0, 0, 0, 2], 6, &[2, usize::MAX]);
    outside(&[], 6, &[usize_()]);
    reach!("end");
});
harness!(c19_fee, 84, {
    partial(&[0, 0, 0, 0, 0, 0, 0, 2], [&[], &[], &[], &[], &[], &[], &[], &[1, 0, 1], &[], &[]], 3);
    outside(&[0, 0, 0, 0, 0, 0, 0, 2], 7, &[2, usize::MAX]);
    outside(&[], 7, &[usize_()]);
    reach!("end");
});
harness!(c19_data, 84, {
    partial(&[0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 2], [&[], &[], &[], &[], &[], &[], &[], &[], &[1, 0, 1], &[]], 0);
    outside(&[0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 2], 8, &[2, usize::MAX]);
    outside(&[], 8, &[usize_()]);
    reach!("end");
});
harness!(c19_sig, 84, {
    partial(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], [&[], &[], &[], &[], &[], &[], &[], &[], &[], &[1, 0, 1]], 1);
    outside(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], 9, &[2, usize::MAX]);
    outside(&[], 9, &[usize_()]);
    reach!("end");
});
harness!(c19_t_all0, 84, {
    partial(&[1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], [&[0], &[0], &[0], &[0], &[0], &[0], &[0], &[0], &[0], &[0]], 0);
    reach!("end");
});
harness!(c19_all1, 84, {
    partial(&[1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], [&[0], &[], &[0], &[], &[0], &[], &[0], &[], &[0], &[]], 1);
    reach!("end");
});
harness!(c19_all2, 84, {
    partial(&[1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], [&[0], &[0], &[0], &[0], &[0], &[0], &[0], &[0], &[0], &[0]], 2);
    reach!("end");
});
harness!(c19_all3, 84, {
    partial(&[1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], [&[], &[0], &[], &[0], &[], &[0], &[], &[0], &[], &[0]], 3);
    reach!("end");
});
