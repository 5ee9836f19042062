#[allow(deprecated)]
harness!(c01_pol_uc, 40, {
    let uc: v1::UnlockConditions = G::g(&mut C::new(&[1, 1]));
    let keep = dup(&uc);
    let mut t = Tape::<512>::new();
    t.tag(1);
    t.tag(7);
    uc.e2(&mut t);
    let p = ManuallyDrop::new(v2::SpendPolicy::UnlockConditions(uc));
    round2_tape(&*p, &t, |w| if let v2::SpendPolicy::UnlockConditions(b) = w { keep.q(b) } else { false });
    reach!("end");
});
