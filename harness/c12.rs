use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

const SC: u128 = 1_000_000_000_000_000_000_000_000;

fn reward(child: u64, initial: u128, min: u128) -> Currency {
    // initial less a siacoin per child height, if there is that much and it is at least the minimum
    Currency::new(SC.checked_mul(child as u128).and_then(|d| initial.checked_sub(d)).filter(|v| *v >= min).unwrap_or(min))
}
harness!(c12_reward, 9, {
    let (h, initial, min) = (u64_(), u128_(), u128_());
    let mut n = network(0, 0, 0);
    n.initial_coinbase = Currency::new(initial);
    n.minimum_coinbase = Currency::new(min);
    let cs = ManuallyDrop::new(ChainState { network: n, state: state(h) });
    assert!(cs.block_reward() == reward(h.wrapping_add(1), initial, min));
    reach!("end");
});
// the schedules of the public networks
harness!(c12_networks, 34, {
    let n = [ManuallyDrop::new(Network::mainnet()), ManuallyDrop::new(Network::zen()), ManuallyDrop::new(Network::anagami())];
    assert!(n[0].initial_coinbase == Currency::new(300_000 * SC) && n[0].minimum_coinbase == Currency::new(30_000 * SC));
    assert!(n[1].initial_coinbase == Currency::new(300_000 * SC) && n[1].minimum_coinbase == Currency::new(300_000 * SC));
    assert!(n[2].initial_coinbase == Currency::new(300_000 * SC) && n[2].minimum_coinbase == Currency::new(300_000 * SC));
    reach!("end");
});
