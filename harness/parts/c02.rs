// the variable-length forms, for every value
fn any_value<T: V1SiaEncodable + V1SiaDecodable + Q + G, const N: usize>() {
    let v = T::g(&mut C::new(&[]));
    let mut enc = Out::<N>::new();
    assert!(v.encode_v1(&mut enc).is_ok());
    let n = enc.n;
    enc.put(&[0xa5]);
    let mut r = &enc.b[..n + 1];
    match T::decode_v1(&mut r) {
        Ok(w) => {
            assert!(r.len() == 1);
            assert!(v.q(&w));
        }
        Err(_) => assert!(false, "decoding an encoded value failed"),
    }
}
harness!(c02_currency, 68, {
    any_value::<Currency, 512>();
    reach!("end");
});
harness!(c02_sfo_any, 68, {
    any_value::<SiafundOutput, 512>();
    reach!("end");
});
