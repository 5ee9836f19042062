fn contract(k: u8) {
    let f: v2::FileContract = G::g(&mut C::new(&[]));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/sig/filecontract|").put(prefix);
    fc_sem(&f, &mut o);
    is32(&f.sig_hash(&cs), &o);
}
fn renewal(k: u8) {
    let f: v2::FileContractRenewal = G::g(&mut C::new(&[]));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/sig/filecontractrenewal|").put(prefix);
    renewal_sem(&f, &mut o);
    is32(&f.sig_hash(&cs), &o);
}
fn attestation(k: u8, shape: &'static [u8]) {
    let a: ManuallyDrop<v2::Attestation> = ManuallyDrop::new(G::g(&mut C::new(shape)));
    let (cs, prefix) = era(k);
    let mut o = Msg::new();
    o.put(b"sia/sig/attestation|").put(prefix);
    a.public_key.e2(&mut o);
    a.key.e2(&mut o);
    a.value.e2(&mut o);
    o.put(&[0; 64]);
    is32(&a.sig_hash(&cs), &o);
}
