fn ids(shape: &'static [u8], k: u8) {
    let t: ManuallyDrop<v2::Transaction> = ManuallyDrop::new(G::g(&mut C::new(shape)));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/id/transaction|");
    tx_sem(&t, &mut o);
    is32(&t.id(), &o);
    let mut o = Msg::new();
    o.put(b"sia/sig/input|").put(prefix);
    tx_sem(&t, &mut o);
    is32(&t.input_sig_hash(&cs), &o);
}
