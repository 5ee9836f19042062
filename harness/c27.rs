use crate::sym::*;
use sia::macros::decode_hex_256;
use sia::signing::PublicKey;
use sia::types::*;

fn is_hex(c: u8) -> bool {
    (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F')
}
fn val(c: u8) -> u8 {
    if c <= b'9' {
        c - b'0'
    } else {
        (c | 0x20) - b'a' + 10
    }
}
fn want(s: &[u8]) -> [u8; 32] {
    let mut w = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        w[i] = val(s[2 * i]) * 16 + val(s[2 * i + 1]);
        i += 1;
    }
    w
}
fn all_hex(s: &[u8]) {
    let mut i = 0;
    while i < 64 {
        assume(is_hex(s[i]));
        i += 1;
    }
}
harness!(c27_value, 66, {
    let s: [u8; 64] = bytes();
    all_hex(&s);
    assert!(eq32(&decode_hex_256(&s), &want(&s)));
    reach!("end");
});
// an address literal: what follows the first 64 characters does not matter
harness!(c27_value_76, 66, {
    let s: [u8; 76] = bytes();
    all_hex(&s);
    assert!(eq32(&decode_hex_256(&s), &want(&s)));
    reach!("end");
});
// a character that is no hexadecimal digit, anywhere
harness!(c27_invalid, 66, {
    let s: [u8; 64] = bytes();
    let k = below(64);
    assume(!is_hex(s[k]));
    let r = decode_hex_256(&s);
    reach!("never: a character that is no digit was accepted");
    std::mem::forget(r);
});
// the runtime parser agrees on every text of 64 bytes that is one
harness_text!(c27_runtime, 66, {
    let s: [u8; 64] = bytes();
    all_hex(&s);
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    no_colon(64);
    match Hash256::parse_string(t) {
        Ok(h) => assert!(eq32(h.as_ref(), &decode_hex_256(&s))),
        Err(_) => assert!(false),
    }
    reach!("end");
});
macro_rules! lit {
    ($n:ident, $m:ident, $t:ty, $l:literal) => {{
        let v: $t = sia::$m!($l);
        let b: &[u8; 32] = v.as_ref();
        assert!(eq32(b, &want($l.as_bytes())));
        match <$t>::parse_string($l) {
            Ok(p) => {
                let p: &[u8; 32] = p.as_ref();
                assert!(eq32(p, b))
            }
            Err(_) => assert!(false),
        }
    }};
}
harness_text!(c27_literals, 80, {
    no_colon(64);
    lit!(a, hash_256, Hash256, "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c");
    lit!(a, hash_256, Hash256, "0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    lit!(b, siacoin_id, SiacoinOutputID, "0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    lit!(c, siafund_id, SiafundOutputID, "0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    lit!(d, contract_id, FileContractID, "0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    lit!(e, transaction_id, TransactionID, "0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    lit!(f, block_id, BlockID, "0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    let a: Address = sia::address!("0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3cdf32abee86f");
    crate::model::is_addr(&a, &want(b"0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3"));
    let p: PublicKey = sia::public_key!("ed25519:0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3");
    let b: &[u8] = p.as_ref();
    let mut x = [0; 32];
    copy_bytes(&mut x, 0, b, 0, 32);
    assert!(eq32(&x, &want(b"0123456789abcdefABCDEF9876543210ffFFfFFf00aAbBcCdDeEfF19f0e1d2c3")));
    reach!("end");
});
harness!(c27_bad_hash_256_63, 80, {
    std::mem::forget(sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_hash_256_66, 80, {
    std::mem::forget(sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_hash_256_g, 80, {
    std::mem::forget(sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_siacoin_id_63, 80, {
    std::mem::forget(sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_siacoin_id_66, 80, {
    std::mem::forget(sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_siacoin_id_g, 80, {
    std::mem::forget(sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_siafund_id_63, 80, {
    std::mem::forget(sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_siafund_id_66, 80, {
    std::mem::forget(sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_siafund_id_g, 80, {
    std::mem::forget(sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_contract_id_63, 80, {
    std::mem::forget(sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_contract_id_66, 80, {
    std::mem::forget(sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_contract_id_g, 80, {
    std::mem::forget(sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_transaction_id_63, 80, {
    std::mem::forget(sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_transaction_id_66, 80, {
    std::mem::forget(sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_transaction_id_g, 80, {
    std::mem::forget(sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_block_id_63, 80, {
    std::mem::forget(sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_block_id_66, 80, {
    std::mem::forget(sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_block_id_g, 80, {
    std::mem::forget(sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_address_64, 80, {
    std::mem::forget(sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_address_78, 80, {
    std::mem::forget(sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8ccdf32abee86f00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_address_g, 80, {
    std::mem::forget(sia::address!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8ccdf32abee86f"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_public_key_64, 80, {
    std::mem::forget(sia::public_key!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_public_key_74, 80, {
    std::mem::forget(sia::public_key!("ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_public_key_prefix, 80, {
    std::mem::forget(sia::public_key!("ed25518:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c"));
    reach!("never: a literal that is no value was accepted");
});
harness!(c27_bad_public_key_g, 80, {
    std::mem::forget(sia::public_key!("ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g"));
    reach!("never: a literal that is no value was accepted");
});
