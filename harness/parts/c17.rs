// kinds: which child identifiers to check
fn ids(shape: &'static [u8], kinds: u8) {
    let t: ManuallyDrop<v1::Transaction> = ManuallyDrop::new(G::g(&mut C::v1(shape)));
    let i = usize_();
    let mut o = Msg::new();
    no_sigs(&t, &mut o);
    is32(&t.id(), &o);
    let mut k = 0;
    while k < 3 {
        if kinds >> k & 1 == 1 {
            let mut p = Msg::new();
            p.put([b"siacoin output\0\0", b"siafund output\0\0", b"file contract\0\0\0"][k]);
            no_sigs(&t, &mut p);
            p.u64(i as u64);
            if k == 0 {
                is32(&t.siacoin_output_id(i), &p);
            } else if k == 1 {
                is32(&t.siafund_output_id(i), &p);
            } else {
                is32(&t.file_contract_id(i), &p);
            }
        }
        k += 1;
    }
}
