// the variable-length forms, for every value
harness!(c04_currency, 68, {
    layout1::<Currency, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
harness!(c04_sfo_any, 68, {
    layout1::<SiafundOutput, 512>(G::g(&mut C::new(&[])));
    reach!("end");
});
