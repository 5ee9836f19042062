use crate::sym::*;
use bip39::{Language, Mnemonic};
use ed25519_dalek::SigningKey;
use sia::seed::*;
use std::mem::ManuallyDrop;

fn same16(a: &[u8], b: &[u8; 16]) -> bool {
    let mut x = [0; 16];
    x.copy_from_slice(a);
    u128::from_le_bytes(x) == u128::from_le_bytes(*b)
}
harness!(c30_derive, 66, {
    let e: [u8; 16] = bytes();
    let (i, j) = (u64_(), u64_());
    let s = ManuallyDrop::new(Seed::new(e));
    let mut n = 0;
    while n < 2 {
        let i = if n == 0 { i } else { j };
        let k = ManuallyDrop::new(s.private_key(i));
        let inner = h32(&e);
        let mut o = Msg::new();
        let seed = o.put(&inner).u64(i).h32();
        let b = k.as_bytes();
        let (mut x, mut y) = ([0; 32], [0; 32]);
        x.copy_from_slice(&b[..32]);
        y.copy_from_slice(&b[32..]);
        assert!(eq32(&x, &seed));
        assert!(eq32(&y, &SigningKey::from_bytes(&seed).verifying_key().to_bytes()));
        assert!(same16(s.as_bytes(), &e));
        n += 1;
    }
    reach!("end");
});
harness!(c30_phrase, 66, {
    let e: [u8; 16] = bytes();
    let s = ManuallyDrop::new(Seed::new(e));
    let p = ManuallyDrop::new(s.to_mnemonic());
    let w = ManuallyDrop::new(Mnemonic::from_entropy_in(Language::English, &e).unwrap().to_string());
    assert!(p.len() == w.len() && p.as_bytes() == w.as_bytes());
    match Seed::from_mnemonic(&p) {
        Ok(t) => {
            let t = ManuallyDrop::new(t);
            assert!(same16(t.as_bytes(), &e))
        }
        Err(_) => assert!(false),
    }
    assert!(same16(s.as_bytes(), &e));
    reach!("end");
});
fn other<const N: usize>() {
    let e: [u8; N] = bytes();
    let w = ManuallyDrop::new(Mnemonic::from_entropy_in(Language::English, &e).unwrap().to_string());
    match Seed::from_mnemonic(&w) {
        Ok(_) => assert!(false),
        Err(r) => assert!(matches!(r, SeedError::InvalidLength)),
    }
    reach!("end");
}
harness!(c30_other_20, 66, {
    other::<20>();
});
harness!(c30_other_24, 66, {
    other::<24>();
});
harness!(c30_other_28, 66, {
    other::<28>();
});
harness!(c30_other_32, 66, {
    other::<32>();
});
// printable text: a seed exactly when the word list has it as a phrase of sixteen bytes
fn text<const N: usize>() {
    let b: [u8; N] = bytes();
    let mut i = 0;
    while i < N {
        assume(b[i] > 0x20 && b[i] < 0x7f);
        i += 1;
    }
    let t = unsafe { std::str::from_utf8_unchecked(&b) };
    let m = Mnemonic::parse_in(Language::English, t);
    match (Seed::from_mnemonic(t), m) {
        (Ok(s), Ok(m)) => {
            let s = ManuallyDrop::new(s);
            let e = ManuallyDrop::new(m.to_entropy());
            assert!(e.len() == 16 && same16(s.as_bytes(), unsafe { &*(e.as_ptr() as *const [u8; 16]) }));
        }
        (Ok(_), Err(_)) => assert!(false),
        (Err(r), Ok(m)) => assert!(matches!(r, SeedError::InvalidLength) && m.word_count() != 12),
        (Err(r), Err(_)) => assert!(matches!(r, SeedError::MnemonicError)),
    }
    reach!("end");
}
harness!(c30_text_0, 66, {
    text::<0>();
});
harness!(c30_text_31, 66, {
    text::<31>();
});
harness!(c30_text_32, 66, {
    text::<32>();
});
harness!(c30_text_40, 66, {
    text::<40>();
});
