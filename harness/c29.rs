use crate::sym::*;
use ed25519_dalek::{Signer, SigningKey};
use sia::signing::*;
use sia::types::Hash256;
use std::mem::ManuallyDrop;

#[cfg(kani)]
fn valid(pk: &[u8; 32], h: &[u8; 32], sig: &[u8; 64]) -> bool {
    ed25519_dalek::model_verify(pk, h, sig)
}
#[cfg(not(kani))]
fn valid(pk: &[u8; 32], h: &[u8; 32], sig: &[u8; 64]) -> bool {
    use ed25519_dalek::{Verifier, VerifyingKey};
    match VerifyingKey::from_bytes(pk) {
        Ok(k) => k.verify(h, &ed25519_dalek::Signature::from_bytes(sig)).is_ok(),
        Err(_) => false,
    }
}
fn agree(pk: &[u8; 32], h: &[u8; 32], sig: &[u8; 64]) {
    let got = PublicKey::new(*pk).verify(&Hash256::new(*h), &Signature::new(*sig));
    assert!(got == valid(pk, h, sig));
}
// Where the solver's key is one the real curve does not have, the same disagreement is looked for with real keys:
// a genuine signature, variations of it, keys of small order, and points that are not on the curve.
#[cfg(not(kani))]
fn battery(x: &[u8; 32], h: &[u8; 32], sig: &[u8; 64]) {
    let k = SigningKey::from_bytes(x);
    let p = k.verifying_key().to_bytes();
    let s = k.sign(h).to_bytes();
    let zero = {
        let mut z = [0u8; 64];
        z[0] = 1;
        z
    };
    let mut keys = vec![p, *x, [0xff; 32]];
    for b in 0..=20u8 {
        let mut q = [0u8; 32];
        q[0] = b;
        keys.push(q);
        q[31] = 0x80;
        keys.push(q);
        let mut q = [0xff; 32];
        q[0] = b.wrapping_sub(20);
        keys.push(q);
        q[31] = 0x7f;
        keys.push(q);
    }
    let mut sigs = vec![s, *sig, zero, [0; 64], [0xff; 64]];
    for i in 0..64 {
        let mut t = s;
        t[i] ^= 1 << (i % 8);
        sigs.push(t);
    }
    let mut t = [0u8; 64];
    t[..32].copy_from_slice(&s[32..]);
    t[32..].copy_from_slice(&s[..32]);
    sigs.push(t);
    for hash in [*h, [0; 32], { let mut r = *h; r.reverse(); r }, { let mut r = *h; r[31] ^= 0x80; r }] {
        for key in &keys {
            for sig in &sigs {
                agree(key, &hash, sig);
            }
        }
    }
}
harness!(c29_verify, 66, {
    let (pk, h): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let sig: [u8; 64] = bytes();
    agree(&pk, &h, &sig);
    #[cfg(not(kani))]
    battery(&pk, &h, &sig);
    reach!("end");
});
// several verifications in a row: no answer depends on an earlier one
harness!(c29_twice, 66, {
    let (pk, pk2, h, h2): ([u8; 32], [u8; 32], [u8; 32], [u8; 32]) = (bytes(), bytes(), bytes(), bytes());
    let (sig, sig2): ([u8; 64], [u8; 64]) = (bytes(), bytes());
    agree(&pk, &h, &sig);
    agree(&pk2, &h2, &sig2);
    agree(&pk, &h2, &sig);
    reach!("end");
});
harness!(c29_sign, 66, {
    let (seed, h): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let k = ManuallyDrop::new(PrivateKey::from_seed(&seed));
    let p = k.public_key();
    let s = k.sign_hash(&Hash256::new(h));
    assert!(p.verify(&Hash256::new(h), &s));
    let b = k.as_bytes();
    assert!(b.len() == 64);
    let (mut x, mut y) = ([0; 32], [0; 32]);
    x.copy_from_slice(&b[..32]);
    y.copy_from_slice(&b[32..]);
    assert!(eq32(&x, &seed));
    assert!(eq32(&y, &SigningKey::from_bytes(&seed).verifying_key().to_bytes()));
    reach!("end");
});
// any 64 bytes are a key; its halves need not belong together
harness!(c29_halves, 66, {
    let (a, b, h): ([u8; 32], [u8; 32], [u8; 32]) = (bytes(), bytes(), bytes());
    let mut kb = [0; 64];
    kb[..32].copy_from_slice(&a);
    kb[32..].copy_from_slice(&b);
    let k = ManuallyDrop::new(PrivateKey::from(kb));
    let p = k.public_key();
    let pb: &[u8] = p.as_ref();
    let mut x = [0; 32];
    x.copy_from_slice(pb);
    assert!(pb.len() == 32 && eq32(&x, &b));
    let s = k.sign_hash(&Hash256::new(h));
    let w = SigningKey::from_bytes(&a).sign(&h).to_bytes();
    assert!(eq64(s.as_ref(), &w));
    assert!(s.data().len() == 64);
    let k2 = ManuallyDrop::new(PrivateKey::from(Hash256::new(a)));
    let s2 = k2.sign_hash(&Hash256::new(h));
    assert!(eq64(s2.as_ref(), &w));
    reach!("end");
});
