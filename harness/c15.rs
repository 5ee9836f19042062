use crate::model::*;
use crate::sym::*;
use num_bigint::BigInt;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

// the 64-bit float 0.039 is exactly N / 2^57
const N: u64 = 5620492334958379;

fn check(p: u128, h: u64, fork: u64) {
    let (size, start, end, root) = (u64_(), u64_(), u64_(), bytes::<32>());
    let f = ManuallyDrop::new(v1::FileContract {
        file_size: size,
        file_merkle_root: Hash256::new(root),
        window_start: start,
        window_end: end,
        payout: Currency::new(p),
        valid_proof_outputs: Vec::new(),
        missed_proof_outputs: Vec::new(),
        unlock_hash: Address::new(root),
        revision_number: start,
    });
    let mut n = network(0, 0, 0);
    n.hardfork_tax.height = fork;
    let cs = ManuallyDrop::new(ChainState { network: n, state: state(h) });
    let t: BigInt = if h.wrapping_add(1) < fork {
        BigInt::from(p) * N / (1u64 << 57)
    } else {
        BigInt::from(p) * 39u64 / 1000u64
    };
    let want = t.clone() - t % 10_000u64;
    assert!(BigInt::from(*f.tax(&cs)) == want);
}
harness!(c15_before, 4, {
    let (p, h, fork) = (u128_(), u64_(), u64_());
    assume(h.wrapping_add(1) < fork);
    check(p, h, fork);
    reach!("end");
});
harness!(c15_after, 4, {
    let (p, h, fork) = (u128_(), u64_(), u64_());
    assume(h.wrapping_add(1) >= fork);
    check(p, h, fork);
    reach!("end");
});
