use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

harness!(c14_rules, 2, {
    let (h, asic, foundation, allow, delay) = (u64_(), u64_(), u64_(), u64_(), u64_());
    let (require, tax, dev, sp, oak, fix) = (u64_(), u64_(), u64_(), u64_(), u64_(), u64_());
    let mut n = network(asic, foundation, allow);
    n.maturity_delay = delay;
    n.hardfork_v2.require_height = require;
    n.hardfork_tax.height = tax;
    n.hardfork_dev_addr.height = dev;
    n.hardfork_storage_proof.height = sp;
    n.hardfork_oak.height = oak;
    n.hardfork_oak.fix_height = fix;
    let cs = ManuallyDrop::new(ChainState { network: n, state: state(h) });
    // hardforks happen in this order
    assume(asic <= foundation && foundation <= allow);
    let p = cs.replay_prefix();
    if h < asic {
        assert!(p.len() == 0);
    } else {
        assert!(p.len() == 1 && p[0] == if h < foundation { 0 } else if h < allow { 1 } else { 2 });
    }
    let child = h.wrapping_add(1);
    assert!(cs.child_height() == child);
    assert!(cs.state.index.child_height() == child);
    assert!(cs.nonce_factor() == if child < asic { 1 } else { 1009 });
    if child <= u64::MAX - delay {
        assert!(cs.maturity_height() == child + delay);
    }
    reach!("end");
});
// the eras of the public networks
fn heights(h: u64, n: Network, asic: u64, foundation: u64, allow: u64) {
    let cs = ManuallyDrop::new(ChainState { network: n, state: state(h) });
    let p = cs.replay_prefix();
    let era = if h >= allow { 3 } else if h >= foundation { 2 } else if h >= asic { 1 } else { 0 };
    assert!(if era == 0 { p.len() == 0 } else { p.len() == 1 && p[0] == era - 1 });
    let child = h.wrapping_add(1);
    assert!(cs.nonce_factor() == if child < asic { 1 } else { 1009 });
    if child <= u64::MAX - 144 {
        assert!(cs.maturity_height() == child + 144);
    }
}
harness!(c14_mainnet, 34, {
    heights(u64_(), Network::mainnet(), 179_000, 298_000, 1_000_000);
    reach!("end");
});
harness!(c14_zen, 34, {
    heights(u64_(), Network::zen(), 20, 30, 100_000);
    reach!("end");
});
harness!(c14_anagami, 34, {
    heights(u64_(), Network::anagami(), 20, 30, 2016);
    reach!("end");
});
