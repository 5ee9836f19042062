#[allow(deprecated)]
harness!(c03_pol_uc, 40, {
    let uc: v1::UnlockConditions = G::g(&mut C::new(&[1, 1]));
    let (mut a, mut b) = (Out::<512>::new(), Out::<512>::new());
    Sink::tag(&mut b, 1);
    Sink::tag(&mut b, 7);
    uc.e2(&mut b);
    let p = ManuallyDrop::new(v2::SpendPolicy::UnlockConditions(uc));
    assert!(p.encode(&mut a).is_ok());
    assert!(a.same(&b));
    reach!("end");
});
