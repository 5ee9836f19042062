use crate::sym::*;
use sia::rhp::*;

const L: usize = SECTOR_SIZE / SEGMENT_SIZE;

fn side(_s: u8) {
    #[cfg(kani)]
    blake2b_simd::model_side(_s);
}
// the Merkle root of segments a..b (a power of two of them)
fn root(s: &[u8], a: usize, b: usize) -> [u8; 32] {
    let mut o = Msg::new();
    if b - a == 1 {
        o.u8(0).put(&s[a * 64..b * 64]);
    } else {
        let m = (a + b) / 2;
        let (l, r) = (root(s, a, m), root(s, m, b));
        o.u8(1).put(&l).put(&r);
    }
    o.h32()
}
harness!(c25_root, 67, {
    let s: [u8; SECTOR_SIZE] = bytes();
    side(1);
    let got = sector_root(&s);
    side(2);
    assert!(eq32(got.as_ref(), &root(&s, 0, L)));
    reach!("end");
});
