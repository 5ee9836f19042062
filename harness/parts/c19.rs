fn covered(l: [&[usize]; 10]) -> v1::CoveredFields {
    v1::CoveredFields {
        whole_transaction: bool_(),
        siacoin_inputs: l[0].to_vec(),
        siacoin_outputs: l[1].to_vec(),
        file_contracts: l[2].to_vec(),
        file_contract_revisions: l[3].to_vec(),
        storage_proofs: l[4].to_vec(),
        siafund_inputs: l[5].to_vec(),
        siafund_outputs: l[6].to_vec(),
        miner_fees: l[7].to_vec(),
        arbitrary_data: l[8].to_vec(),
        signatures: l[9].to_vec(),
    }
}
fn each<T: E1>(list: &[T], idx: &[usize], prefix: &[u8], o: &mut Msg) {
    let mut i = 0;
    while i < idx.len() {
        o.put(prefix);
        list[idx[i]].e1(o);
        i += 1;
    }
}
fn partial(shape: &'static [u8], l: [&[usize]; 10], k: u8) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let cov = ManuallyDrop::new(covered(l));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    each(&t.siacoin_inputs, l[0], prefix, &mut o);
    each(&t.siacoin_outputs, l[1], &[], &mut o);
    each(&t.file_contracts, l[2], &[], &mut o);
    each(&t.file_contract_revisions, l[3], &[], &mut o);
    each(&t.storage_proofs, l[4], &[], &mut o);
    each(&t.siafund_inputs, l[5], prefix, &mut o);
    each(&t.siafund_outputs, l[6], &[], &mut o);
    each(&t.miner_fees, l[7], &[], &mut o);
    each(&t.arbitrary_data, l[8], &[], &mut o);
    each(&t.signatures, l[9], &[], &mut o);
    let r = ManuallyDrop::new(t.partial_sig_hash(&cs, &cov));
    match &*r {
        Ok(h) => is32(h, &o),
        Err(_) => assert!(false, "hashing failed"),
    }
}
// an index outside list k
fn outside(shape: &'static [u8], k: usize, bad: &[usize]) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let (cs, _) = era(3);
    let mut j = 0;
    while j < bad.len() {
        let mut l: [&[usize]; 10] = [&[]; 10];
        l[k] = &bad[j..j + 1];
        let cov = ManuallyDrop::new(covered(l));
        let r = ManuallyDrop::new(t.partial_sig_hash(&cs, &cov));
        assert!(r.is_err());
        j += 1;
    }
}
