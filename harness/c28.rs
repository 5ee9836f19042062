use crate::sym::*;
use sia::signing::PublicKey;
use sia::types::v1::UnlockKey;
use sia::types::Specifier;
use std::mem::ManuallyDrop;

fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
// N bytes: ASCII, except that at `at` a character of `k` bytes begins; no colons before `colons`
fn chars<const N: usize>(at: usize, k: usize, colons: usize) -> [u8; N] {
    let b: [u8; N] = bytes();
    let mut i = 0;
    while i < N {
        if i == at {
            if k == 2 {
                assume(b[i] >= 0xc2 && b[i] < 0xe0);
            } else if k == 3 {
                assume(b[i] >= 0xe1 && b[i] < 0xed);
            } else {
                assume(b[i] >= 0xf1 && b[i] < 0xf4);
            }
        } else if i > at && i < at + k {
            assume(b[i] >= 0x80 && b[i] < 0xc0);
        } else {
            assume(b[i] < 0x80 && (i >= colons || b[i] != b':'));
        }
        i += 1;
    }
    b
}
const NO: usize = usize::MAX / 2;
// the first sixteen bytes of b, and zeros
fn is_spec(s: &Specifier, b: &[u8]) -> bool {
    let (s, mut ok, mut i) = (s.as_bytes(), true, 0);
    while i < 16 {
        ok &= s[i] == if i < b.len() { b[i] } else { 0 };
        i += 1;
    }
    ok
}

macro_rules! from {
    (@h $n:ident $len:literal $at:expr, $k:expr) => { harness_text!($n, 34, {
        let b: [u8; $len] = chars($at, $k, 0);
        assert!(is_spec(&Specifier::from(text(&b)), &b));
        reach!("end");
    }); };
}
from!(@h c28_from_0 0 NO, 1);
from!(@h c28_from_1 1 NO, 1);
from!(@h c28_from_2 2 NO, 1);
from!(@h c28_from_7 7 NO, 1);
from!(@h c28_from_8 8 NO, 1);
from!(@h c28_from_15 15 NO, 1);
from!(@h c28_from_16 16 NO, 1);
from!(@h c28_from_17 17 NO, 1);
from!(@h c28_from_20 20 NO, 1);
from!(@h c28_from_32 32 NO, 1);
from!(@h c28_from_wide_3 3 0, 3);
from!(@h c28_from_wide_16 16 13, 3);
from!(@h c28_from_wide_17 17 15, 2);
from!(@h c28_from_wide_18 18 15, 3);
from!(@h c28_from_wide_19 19 14, 3);
from!(@h c28_from_wide_20 20 14, 4);
harness_text!(c28_new, 34, {
    let b: [u8; 16] = bytes();
    let s = Specifier::new(b);
    assert!(is_spec(&s, &b));
    reach!("end");
});

// length without trailing zeros
fn trimmed(b: &[u8; 16]) -> usize {
    let (mut n, mut i) = (0, 0);
    while i < 16 {
        if b[i] != 0 {
            n = i + 1;
        }
        i += 1;
    }
    n
}
macro_rules! show {
    (@h $n:ident $at:expr, $k:expr) => { harness_lossy!($n, 20, {
        let b: [u8; 16] = chars($at, $k, 0);
        lossless();
        let n = trimmed(&b);
        let t = Text::<24>::of(&Specifier::new(b));
        assert!(t.n == n);
        let mut i = 0;
        while i < 16 {
            assert!(i >= n || t.b[i] == b[i]);
            i += 1;
        }
        reach!("end");
    }); };
}
show!(@h c28_show NO, 1);
show!(@h c28_show_wide_0 0, 2);
show!(@h c28_show_wide_7 7, 3);
show!(@h c28_show_wide_12 12, 4);
show!(@h c28_show_wide_14 14, 2);
// any bytes: printing does not panic
harness_lossy!(c28_show_any, 20, {
    let b: [u8; 16] = bytes();
    let _ = Text::<64>::of(&Specifier::new(b));
    reach!("end");
});
macro_rules! key {
    (@h $n:ident $k:literal) => { harness_lossy!($n, 68, {
        let b: [u8; 16] = chars(NO, 1, 0);
        lossless();
        let d: [u8; $k] = bytes();
        let n = trimmed(&b);
        let key = ManuallyDrop::new(UnlockKey { algorithm: Specifier::new(b), key: d.to_vec() });
        let t = Text::<{ 17 + 2 * $k }>::of(&*key);
        assert!(t.n == n + 1 + 2 * $k);
        let mut i = 0;
        while i < 16 {
            assert!(i >= n || t.b[i] == b[i]);
            i += 1;
        }
        assert!(t.b[n] == b':');
        let mut i = 0;
        while i < $k {
            let (h, l) = (d[i] >> 4, d[i] & 15);
            assert!(t.b[n + 1 + 2 * i] == h + if h < 10 { b'0' } else { b'a' - 10 });
            assert!(t.b[n + 2 + 2 * i] == l + if l < 10 { b'0' } else { b'a' - 10 });
            i += 1;
        }
        reach!("end");
    }); };
}
key!(@h c28_key_0 0);
key!(@h c28_key_1 1);
key!(@h c28_key_2 2);
key!(@h c28_key_3 3);
harness_lossy!(c28_key_any, 20, {
    let b: [u8; 16] = bytes();
    let d: [u8; 2] = bytes();
    let key = ManuallyDrop::new(UnlockKey { algorithm: Specifier::new(b), key: d.to_vec() });
    let _ = Text::<64>::of(&*key);
    reach!("end");
});
// algorithms of fixed text
macro_rules! fixed {
    (@h $n:ident $alg:literal $len:literal $k:literal) => { harness_lossy!($n, 70, {
        let d: [u8; $k] = bytes();
        lossless();
        let key = ManuallyDrop::new(UnlockKey { algorithm: Specifier::from($alg), key: d.to_vec() });
        let t = Text::<{ $len + 1 + 2 * $k }>::of(&*key);
        assert!(t.n == $len + 1 + 2 * $k && t.b[$len] == b':');
        let alg = $alg.as_bytes();
        let mut i = 0;
        while i < $len {
            assert!(t.b[i] == alg[i]);
            i += 1;
        }
        assert!(shows(&t.b, $len + 1, &d));
        reach!("end");
    }); };
}
fixed!(@h c28_fixed_ed25519 "ed25519" 7 32);
fixed!(@h c28_fixed_entropy "entropy" 7 0);
fixed!(@h c28_fixed_long "sixteen letters!" 16 33);
harness_text!(c28_of_public, 34, {
    let b: [u8; 32] = bytes();
    let k = ManuallyDrop::new(UnlockKey::from(PublicKey::new(b)));
    assert!(is_spec(&k.algorithm, b"ed25519") && k.key.len() == 32);
    let mut i = 0;
    while i < 32 {
        assert!(k.key[i] == b[i]);
        i += 1;
    }
    reach!("end");
});

// A text of which the first $a bytes are the algorithm's, then a colon, then the key's
macro_rules! parse {
    (@h $n:ident $a:literal $at:expr, $w:expr, $len:literal) => { harness_text!($n, 80, {
        let mut b: [u8; $a + 1 + $len] = chars($at, $w, $a);
        b[$a] = b':';
        const K: usize = $len / 2;
        let (ok, w) = unhex::<K>(&b, $a + 1);
        colons($a + 1 + $len, Some(Some($a)), None);
        match UnlockKey::parse_string(text(&b)) {
            Ok(p) => {
                let p = ManuallyDrop::new(p);
                assert!(ok && $len % 2 == 0);
                assert!(is_spec(&p.algorithm, &b[..$a]) && p.key.len() == K);
                let mut i = 0;
                while i < K {
                    assert!(p.key[i] == w[i]);
                    i += 1;
                }
            }
            Err(_) => assert!(!ok || $len % 2 == 1),
        }
        reach!("end");
    }); };
}
parse!(@h c28_parse_0_0 0 NO, 1, 0);
parse!(@h c28_parse_0_2 0 NO, 1, 2);
parse!(@h c28_parse_1_0 1 NO, 1, 0);
parse!(@h c28_parse_1_1 1 NO, 1, 1);
parse!(@h c28_parse_1_4 1 NO, 1, 4);
parse!(@h c28_parse_7_63 7 NO, 1, 63);
parse!(@h c28_parse_7_64 7 NO, 1, 64);
parse!(@h c28_parse_7_65 7 NO, 1, 65);
parse!(@h c28_parse_16_6 16 NO, 1, 6);
parse!(@h c28_parse_17_6 17 NO, 1, 6);
parse!(@h c28_parse_20_5 20 NO, 1, 5);
parse!(@h c28_parse_wide_2 2 0, 2, 4);
parse!(@h c28_parse_wide_18 18 14, 4, 4);
parse!(@h c28_parse_wide_key 3 4, 2, 4);
parse!(@h c28_parse_wide_key3 3 5, 3, 5);
// no colon
macro_rules! none {
    (@h $n:ident $len:literal) => { harness_text!($n, 80, {
        let b: [u8; $len] = chars(NO, 1, $len);
        no_colon($len);
        match UnlockKey::parse_string(text(&b)) {
            Ok(p) => {
                let _ = ManuallyDrop::new(p);
                assert!(false)
            }
            Err(_) => {}
        }
        reach!("end");
    }); };
}
none!(@h c28_none_2 2);
none!(@h c28_none_1 1);
none!(@h c28_none_7 7);
none!(@h c28_none_64 64);
none!(@h c28_none_71 71);
