fn whole(shape: &'static [u8], k: u8) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let (cs, prefix) = era(k);
    let (parent, index, timelock): ([u8; 32], u64, u64) = (bytes(), u64_(), u64_());
    let mut o = Msg::new();
    o.u64(t.siacoin_inputs.len() as u64);
    let mut i = 0;
    while i < t.siacoin_inputs.len() {
        o.put(prefix);
        t.siacoin_inputs[i].e1(&mut o);
        i += 1;
    }
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    o.u64(t.siafund_inputs.len() as u64);
    i = 0;
    while i < t.siafund_inputs.len() {
        o.put(prefix);
        t.siafund_inputs[i].e1(&mut o);
        i += 1;
    }
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o.put(&parent).u64(index).u64(timelock);
    let r = ManuallyDrop::new(t.whole_sig_hash(&cs, &SiacoinOutputID::new(parent), index, timelock));
    match &*r {
        Ok(h) => is32(h, &o),
        Err(_) => assert!(false, "hashing failed"),
    }
}
