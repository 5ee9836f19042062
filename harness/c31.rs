use crate::sym::*;
use sia::seed::Seed;
use sia::signing::*;
use sia::types::Hash256;
use std::mem::ManuallyDrop;

// the memory that held the value, after it was dropped
fn erased<T, const N: usize>(v: &mut ManuallyDrop<T>) {
    assert!(std::mem::size_of::<T>() == N);
    let p = &**v as *const T as *const u8;
    unsafe { ManuallyDrop::drop(v) };
    let mut i = 0;
    while i < N {
        assert!(unsafe { std::ptr::read_volatile(p.add(i)) } == 0);
        i += 1;
    }
}
fn key(b: &[u8]) -> [u8; 64] {
    let mut x = [0; 64];
    x.copy_from_slice(b);
    x
}
harness!(c31_key, 66, {
    let b: [u8; 64] = bytes();
    let mut k = ManuallyDrop::new(PrivateKey::from(b));
    assert!(eq64(&key(k.as_bytes()), &b));
    erased::<_, 64>(&mut k);
    reach!("end");
});
harness!(c31_key_used, 66, {
    let b: [u8; 64] = bytes();
    let h: [u8; 32] = bytes();
    let mut k = ManuallyDrop::new(PrivateKey::from(b));
    let _ = k.public_key();
    let _ = k.sign_hash(&Hash256::new(h));
    assert!(eq64(&key(k.as_bytes()), &b));
    let mut c = ManuallyDrop::new(PrivateKey::clone(&k));
    assert!(eq64(&key(c.as_bytes()), &b));
    erased::<_, 64>(&mut k);
    // the copy has its own secret
    assert!(eq64(&key(c.as_bytes()), &b));
    let _ = c.sign_hash(&Hash256::new(h));
    erased::<_, 64>(&mut c);
    reach!("end");
});
harness!(c31_key_derived, 66, {
    let s: [u8; 32] = bytes();
    let mut k = ManuallyDrop::new(PrivateKey::from_seed(&s));
    erased::<_, 64>(&mut k);
    let mut k = ManuallyDrop::new(PrivateKey::from(Hash256::new(s)));
    erased::<_, 64>(&mut k);
    reach!("end");
});
harness!(c31_seed, 66, {
    let e: [u8; 16] = bytes();
    let mut s = ManuallyDrop::new(Seed::new(e));
    assert!(u128::from_le_bytes(s.as_bytes().try_into().unwrap()) == u128::from_le_bytes(e));
    erased::<_, 16>(&mut s);
    reach!("end");
});
harness!(c31_seed_used, 66, {
    let e: [u8; 16] = bytes();
    let i = u64_();
    let mut s = ManuallyDrop::new(Seed::new(e));
    let mut k = ManuallyDrop::new(s.private_key(i));
    let p = ManuallyDrop::new(s.to_mnemonic());
    let _ = s.as_bytes();
    assert!(u128::from_le_bytes(s.as_bytes().try_into().unwrap()) == u128::from_le_bytes(e));
    let mut t = ManuallyDrop::new(Seed::from_mnemonic(&p).ok().unwrap());
    erased::<_, 16>(&mut s);
    erased::<_, 16>(&mut t);
    erased::<_, 64>(&mut k);
    reach!("end");
});
