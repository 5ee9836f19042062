use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;
use time::Duration;

const SC: u128 = 1_000_000_000_000_000_000_000_000;
// a twelfth of 365 days, in nanoseconds
const MONTH: u64 = 2_628_000_000_000_000;

fn chain(h: u64, fork: u64, interval: i64, addr: [u8; 32]) -> ManuallyDrop<ChainState> {
    let (asic, allow, p, f, coin) = (u64_(), u64_(), bytes::<32>(), bytes::<32>(), u128_());
    let mut n = network(asic, fork, allow);
    n.block_interval = Duration::nanoseconds(interval);
    n.hardfork_foundation.primary_address = Address::new(p);
    n.hardfork_foundation.failsafe_address = Address::new(f);
    n.initial_coinbase = Currency::new(coin);
    let mut s = state(h);
    s.foundation_primary_address = Address::new(addr);
    s.foundation_failsafe_address = Address::new(f);
    ManuallyDrop::new(ChainState { network: n, state: s })
}
fn due(h: u64, fork: u64, interval: i64) {
    let addr: [u8; 32] = bytes();
    let cs = chain(h, fork, interval, addr);
    let month = (MONTH as i128 / interval as i128) as u64;
    assert!(cs.blocks_per_month() == month);
    let child = h.wrapping_add(1);
    let due = child >= fork && (child - fork) % month == 0;
    let got = ManuallyDrop::new(cs.foundation_subsidy());
    match &*got {
        Some(o) => {
            assert!(due);
            let one = 30_000 * SC * (month as u128);
            assert!(o.value == Currency::new(if child == fork { one * 12 } else { one }));
            let a: &[u8] = o.address.as_ref();
            assert!(a.len() == 32 && eq32(unsafe { &*(a.as_ptr() as *const [u8; 32]) }, &addr));
        }
        None => assert!(!due),
    }
}
// every interval from 10 ms to a month, every height
harness!(c13_all, 9, {
    let (h, fork, i) = (u64_(), u64_(), u64_());
    assume(i >= 10_000_000 && i <= MONTH);
    due(h, fork, i as i64);
    reach!("end");
});
harness!(c13_t_ten_minutes, 9, {
    due(u64_(), u64_(), 600_000_000_000);
    reach!("end");
});
