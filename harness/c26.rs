use crate::sym::*;
use sia::signing::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
// N bytes: ASCII, no colon, except that at `at` (if below N) a character of `k` bytes begins
fn chars<const N: usize>(at: usize, k: usize, colons: bool) -> [u8; N] {
    let b: [u8; N] = bytes();
    let mut i = 0;
    while i < N {
        if i == at {
            if k == 2 {
                assume(b[i] >= 0xc2 && b[i] < 0xe0);
            } else if k == 3 {
                assume(b[i] >= 0xe1 && b[i] < 0xed);
            } else {
                assume(b[i] >= 0xf1 && b[i] < 0xf4);
            }
        } else if i > at && i < at + k {
            assume(b[i] >= 0x80 && b[i] < 0xc0);
        } else {
            assume(b[i] < 0x80 && (colons || b[i] != b':'));
        }
        i += 1;
    }
    b
}
const NO: usize = usize::MAX / 2;

macro_rules! show_id {
    ($n:ident, $t:ty) => {
        fn $n() {
            let b: [u8; 32] = bytes();
            let v = <$t>::new(b);
            let t = Text::<64>::of(&v);
            assert!(t.n == 64 && shows(&t.b, 0, &b));
            no_colon(64);
            match <$t>::parse_string(t.str()) {
                Ok(p) => {
                    let p: &[u8; 32] = p.as_ref();
                    assert!(eq32(p, &b))
                }
                Err(_) => assert!(false),
            }
        }
    };
}
show_id!(hash256, Hash256);
show_id!(siacoin, SiacoinOutputID);
show_id!(siafund, SiafundOutputID);
show_id!(attestation, AttestationID);
show_id!(block, BlockID);
show_id!(transaction, TransactionID);
show_id!(contract, FileContractID);
harness_text!(c26_show_hash256, 66, {
    hash256();
    reach!("end");
});
harness_text!(c26_show_siacoin, 66, {
    siacoin();
    reach!("end");
});
harness_text!(c26_t_show_siafund, 66, {
    siafund();
    reach!("end");
});
harness_text!(c26_t_show_attestation, 66, {
    attestation();
    reach!("end");
});
harness_text!(c26_t_show_block, 66, {
    block();
    reach!("end");
});
harness_text!(c26_t_show_transaction, 66, {
    transaction();
    reach!("end");
});
harness_text!(c26_t_show_contract, 66, {
    contract();
    reach!("end");
});
// a text whose 64 last bytes are the digits, after `skip` bytes that end with the first colon
macro_rules! parse_id {
    ($t:ty, $b:expr, $skip:expr, $n:expr) => {{
        let b: [u8; $n] = $b;
        let (ok, w) = unhex::<32>(&b, $skip);
        match <$t>::parse_string(text(&b)) {
            Ok(p) => {
                let p: &[u8; 32] = p.as_ref();
                assert!(ok && eq32(p, &w))
            }
            Err(_) => assert!(!ok),
        }
    }};
}
macro_rules! refuse {
    ($t:ty, $b:expr) => {
        match <$t>::parse_string(text(&$b)) {
            Ok(p) => {
                let _ = ManuallyDrop::new(p);
                assert!(false)
            }
            Err(_) => {}
        }
    };
}
harness_text!(c26_id_plain, 66, {
    no_colon(64);
    parse_id!(Hash256, chars(NO, 1, false), 0, 64);
    reach!("end");
});
harness_text!(c26_tx_plain, 66, {
    no_colon(64);
    parse_id!(TransactionID, chars(NO, 1, false), 0, 64);
    reach!("end");
});
fn prefixed<const P: usize, const N: usize>(at: usize, k: usize) -> [u8; N] {
    let p: [u8; P] = chars(at, k, false);
    let mut b: [u8; N] = chars(NO, 1, true);
    let mut i = 0;
    while i < P {
        b[i] = p[i];
        i += 1;
    }
    b[P] = b':';
    colons(N, Some(Some(P)), None);
    b
}
harness_text!(c26_id_prefix_0, 70, {
    parse_id!(Hash256, prefixed::<0, 65>(NO, 1), 1, 65);
    reach!("end");
});
harness_text!(c26_id_prefix_1, 70, {
    parse_id!(SiacoinOutputID, prefixed::<1, 66>(NO, 1), 2, 66);
    reach!("end");
});
harness_text!(c26_id_prefix_5, 72, {
    parse_id!(BlockID, prefixed::<5, 70>(NO, 1), 6, 70);
    reach!("end");
});
harness_text!(c26_id_prefix_wide, 70, {
    parse_id!(FileContractID, prefixed::<3, 68>(1, 2), 4, 68);
    reach!("end");
});
// two colons: the prefix ends at the first
harness_text!(c26_id_two, 72, {
    let mut b: [u8; 68] = chars(NO, 1, false);
    let k = below(3);
    let mut i = 4;
    while i < 68 {
        assume(is_hex(b[i]));
        i += 1;
    }
    b[3] = b':';
    let mut j = 0;
    while j < 3 {
        if j == k {
            b[j] = b':';
        }
        j += 1;
    }
    colons(68, None, Some(Some(3)));
    refuse!(Hash256, b);
    reach!("end");
});
// texts of other lengths
harness_text!(c26_id_len_0, 6, {
    no_colon(0);
    let b: [u8; 0] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_len_1, 7, {
    no_colon(1);
    let b: [u8; 1] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_len_62, 68, {
    no_colon(62);
    let b: [u8; 62] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_len_63, 69, {
    no_colon(63);
    let b: [u8; 63] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_len_65, 71, {
    no_colon(65);
    let b: [u8; 65] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_len_66, 72, {
    no_colon(66);
    let b: [u8; 66] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_len_128, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(NO, 1, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_pre_63, 73, {
    let b = prefixed::<3, 67>(NO, 1);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_pre_65, 75, {
    let b = prefixed::<3, 69>(NO, 1);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_pre_0, 10, {
    let b = prefixed::<3, 4>(NO, 1);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_pre_64, 70, {
    let b = prefixed::<3, 64>(NO, 1);
    refuse!(TransactionID, b);
    reach!("end");
});
harness_text!(c26_addr_len_0, 6, {
    no_colon(0);
    let b: [u8; 0] = chars(NO, 1, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_len_64, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(NO, 1, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_len_75, 81, {
    no_colon(75);
    let b: [u8; 75] = chars(NO, 1, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_len_77, 83, {
    no_colon(77);
    let b: [u8; 77] = chars(NO, 1, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_len_78, 84, {
    no_colon(78);
    let b: [u8; 78] = chars(NO, 1, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_leaf_len_0, 6, {
    no_colon(0);
    let b: [u8; 0] = chars(NO, 1, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_len_64, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(NO, 1, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_len_126, 132, {
    no_colon(126);
    let b: [u8; 126] = chars(NO, 1, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_len_127, 133, {
    no_colon(127);
    let b: [u8; 127] = chars(NO, 1, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_len_129, 135, {
    no_colon(129);
    let b: [u8; 129] = chars(NO, 1, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_len_130, 136, {
    no_colon(130);
    let b: [u8; 130] = chars(NO, 1, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_sig_len_0, 6, {
    no_colon(0);
    let b: [u8; 0] = chars(NO, 1, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_len_64, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(NO, 1, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_len_126, 132, {
    no_colon(126);
    let b: [u8; 126] = chars(NO, 1, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_len_127, 133, {
    no_colon(127);
    let b: [u8; 127] = chars(NO, 1, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_len_129, 135, {
    no_colon(129);
    let b: [u8; 129] = chars(NO, 1, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_len_130, 136, {
    no_colon(130);
    let b: [u8; 130] = chars(NO, 1, false);
    refuse!(Signature, b);
    reach!("end");
});
// characters of several bytes
harness_text!(c26_id_wide_0, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(0, 2, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_wide_31, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(31, 2, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_wide_62, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(62, 2, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_wide_30, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(30, 3, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_id_wide_60, 70, {
    no_colon(64);
    let b: [u8; 64] = chars(60, 4, false);
    refuse!(Hash256, b);
    reach!("end");
});
harness_text!(c26_addr_wide_0, 82, {
    no_colon(76);
    let b: [u8; 76] = chars(0, 2, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_wide_63, 82, {
    no_colon(76);
    let b: [u8; 76] = chars(63, 2, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_wide_62, 82, {
    no_colon(76);
    let b: [u8; 76] = chars(62, 3, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_wide_74, 82, {
    no_colon(76);
    let b: [u8; 76] = chars(74, 2, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_addr_wide_72, 82, {
    no_colon(76);
    let b: [u8; 76] = chars(72, 4, false);
    refuse!(Address, b);
    reach!("end");
});
harness_text!(c26_leaf_wide_0, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(0, 2, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_wide_63, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(63, 2, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_leaf_wide_126, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(126, 2, false);
    refuse!(Leaf, b);
    reach!("end");
});
harness_text!(c26_sig_wide_0, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(0, 2, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_wide_63, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(63, 2, false);
    refuse!(Signature, b);
    reach!("end");
});
harness_text!(c26_sig_wide_126, 134, {
    no_colon(128);
    let b: [u8; 128] = chars(126, 2, false);
    refuse!(Signature, b);
    reach!("end");
});
// addresses
harness_text!(c26_addr_show, 80, {
    let b: [u8; 32] = bytes();
    let v = Address::new(b);
    let t = Text::<76>::of(&v);
    assert!(t.n == 76 && shows(&t.b, 0, &b));
    let c = h32(&b);
    assert!(shows(&t.b, 64, &c[..6]));
    reach!("end");
});
harness_text!(c26_addr_parse, 80, {
    no_colon(76);
    let b: [u8; 76] = chars(NO, 1, false);
    let (ok, w) = unhex::<32>(&b, 0);
    let (ok2, c) = unhex::<6>(&b, 64);
    let h = h32(&w);
    let sum = c[0] == h[0] && c[1] == h[1] && c[2] == h[2] && c[3] == h[3] && c[4] == h[4] && c[5] == h[5];
    match Address::parse_string(text(&b)) {
        Ok(p) => {
            assert!(ok && ok2 && sum);
            crate::model::is_addr(&p, &w)
        }
        Err(_) => assert!(!(ok && ok2 && sum)),
    }
    reach!("end");
});
fn enc64<T: V1>(v: &T) -> [u8; 64] {
    let mut o = Out::<64>::new();
    v.put(&mut o);
    assert!(o.n == 64);
    o.b
}
trait V1 {
    fn put(&self, o: &mut Out<64>);
}
impl V1 for Leaf {
    fn put(&self, o: &mut Out<64>) {
        assert!(sia::encoding::SiaEncodable::encode(self, o).is_ok())
    }
}
impl V1 for Signature {
    fn put(&self, o: &mut Out<64>) {
        o.put(self.data());
    }
}
harness_text!(c26_leaf_show, 132, {
    let b: [u8; 64] = bytes();
    let v = Leaf::from(b);
    let t = Text::<128>::of(&v);
    assert!(t.n == 128 && shows(&t.b, 0, &b));
    no_colon(128);
    match Leaf::parse_string(t.str()) {
        Ok(p) => assert!(eq64(&enc64(&p), &b)),
        Err(_) => assert!(false),
    }
    reach!("end");
});
harness_text!(c26_leaf_parse, 132, {
    no_colon(128);
    let b: [u8; 128] = chars(NO, 1, false);
    let (ok, w) = unhex::<64>(&b, 0);
    match Leaf::parse_string(text(&b)) {
        Ok(p) => assert!(ok && eq64(&enc64(&p), &w)),
        Err(_) => assert!(!ok),
    }
    reach!("end");
});
harness_text!(c26_sig_show, 132, {
    let b: [u8; 64] = bytes();
    let v = Signature::from(b);
    let t = Text::<128>::of(&v);
    assert!(t.n == 128 && shows(&t.b, 0, &b));
    no_colon(128);
    match Signature::parse_string(t.str()) {
        Ok(p) => assert!(eq64(&enc64(&p), &b)),
        Err(_) => assert!(false),
    }
    reach!("end");
});
harness_text!(c26_sig_parse, 132, {
    no_colon(128);
    let b: [u8; 128] = chars(NO, 1, false);
    let (ok, w) = unhex::<64>(&b, 0);
    match Signature::parse_string(text(&b)) {
        Ok(p) => assert!(ok && eq64(&enc64(&p), &w)),
        Err(_) => assert!(!ok),
    }
    reach!("end");
});
// public keys: their text form is read by deserialization only
#[derive(Debug)]
struct Fail;
impl std::fmt::Display for Fail {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fail {}
impl serde::de::Error for Fail {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Fail
    }
}
fn key(s: &str) -> Result<PublicKey, Fail> {
    use serde::de::IntoDeserializer;
    let d: serde::de::value::StrDeserializer<'_, Fail> = s.into_deserializer();
    <PublicKey as serde::Deserialize>::deserialize(d)
}
fn key_bytes(k: &PublicKey) -> [u8; 32] {
    let mut w = [0; 32];
    copy_bytes(&mut w, 0, k.as_ref(), 0, 32);
    w
}
harness_text!(c26_key_show, 76, {
    let b: [u8; 32] = bytes();
    let v = PublicKey::new(b);
    let t = Text::<72>::of(&v);
    assert!(t.n == 72 && shows(&t.b, 8, &b));
    let p = b"ed25519:";
    let mut i = 0;
    while i < 8 {
        assert!(t.b[i] == p[i]);
        i += 1;
    }
    match key(t.str()) {
        Ok(p) => assert!(eq32(&key_bytes(&p), &b)),
        Err(_) => assert!(false),
    }
    reach!("end");
});
harness_text!(c26_key_parse, 76, {
    let b: [u8; 72] = chars(NO, 1, true);
    let (mut ok, w) = unhex::<32>(&b, 8);
    let p = b"ed25519:";
    let mut i = 0;
    while i < 8 {
        ok &= b[i] == p[i];
        i += 1;
    }
    match key(text(&b)) {
        Ok(p) => assert!(ok && eq32(&key_bytes(&p), &w)),
        Err(_) => assert!(!ok),
    }
    reach!("end");
});
harness_text!(c26_key_len_0, 6, {
    let b: [u8; 0] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_7, 13, {
    let b: [u8; 7] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_8, 14, {
    let b: [u8; 8] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_64, 70, {
    let b: [u8; 64] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_70, 76, {
    let b: [u8; 70] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_71, 77, {
    let b: [u8; 71] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_73, 79, {
    let b: [u8; 73] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_len_74, 80, {
    let b: [u8; 74] = chars(NO, 1, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_wide_0, 78, {
    let b: [u8; 72] = chars(0, 2, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_wide_7, 78, {
    let b: [u8; 72] = chars(7, 2, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_wide_8, 78, {
    let b: [u8; 72] = chars(8, 2, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
harness_text!(c26_key_wide_70, 78, {
    let b: [u8; 72] = chars(70, 2, true);
    assert!(key(text(&b)).is_err());
    reach!("end");
});
