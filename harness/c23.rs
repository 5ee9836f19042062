use crate::model::*;
use crate::sym::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn check(shape: &'static [u8]) {
    let uc: ManuallyDrop<v1::UnlockConditions> = ManuallyDrop::new(G::g(&mut C::new(shape)));
    let got = uc.address();
    is_addr(&got, &uc_address(&uc));
}
harness!(c23_keys0, 34, {
    check(&[0]);
    reach!("end");
});
harness!(c23_keys1, 34, {
    check(&[1, 32]);
    reach!("end");
});
harness!(c23_keys1_short, 34, {
    check(&[1, 0]);
    reach!("end");
});
harness!(c23_keys2, 34, {
    check(&[2, 32, 32]);
    reach!("end");
});
harness!(c23_keys3, 34, {
    check(&[3, 1, 33, 32]);
    reach!("end");
});
harness!(c23_keys4, 34, {
    check(&[4, 32, 0, 5, 32]);
    reach!("end");
});
harness!(c23_t_keys5, 34, {
    check(&[5, 32, 32, 32, 32, 32]);
    reach!("end");
});
harness!(c23_t_keys6, 34, {
    check(&[6, 32, 0, 0, 3, 32, 0]);
    reach!("end");
});
harness!(c23_t_keys9, 34, {
    check(&[9, 32, 0, 0, 3, 32, 0, 2, 2, 2]);
    reach!("end");
});
// the usual conditions of a single key
harness!(c23_standard, 34, {
    let k: [u8; 32] = bytes();
    let uc = ManuallyDrop::new(v1::UnlockConditions::standard_unlock_conditions(sia::signing::PublicKey::new(k)));
    assert!(uc.timelock == 0 && uc.signatures_required == 1 && uc.public_keys.len() == 1);
    let mut o = [Msg::new(), Msg::new(), Msg::new()];
    o[0].u8(0).u64(0);
    o[1].u8(0).put(b"ed25519\0\0\0\0\0\0\0\0\0").u64(32).put(&k);
    o[2].u8(0).u64(1);
    let l = [o[0].h32(), o[1].h32(), o[2].h32()];
    is_addr(&uc.address(), &merkle_root(&l, 0, 3));
    reach!("end");
});
