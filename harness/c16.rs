use crate::model::*;
use crate::sym::*;
use sia::consensus::*;
use sia::types::*;
use std::mem::ManuallyDrop;

fn contract(renter: u128, host: u128) -> ManuallyDrop<v2::FileContract> {
    let mut f: v2::FileContract = G::g(&mut C::new(&[]));
    f.renter_output.value = Currency::new(renter);
    f.host_output.value = Currency::new(host);
    ManuallyDrop::new(f)
}
harness!(c16_all, 2, {
    let (a, b, h, fork) = (u128_(), u128_(), u64_(), u64_());
    let f = contract(a, b);
    let sum = (*f.renter_output.value).checked_add(*f.host_output.value);
    assume(sum.is_some());
    let mut n = network(0, 0, 0);
    n.hardfork_tax.height = fork;
    let cs = ManuallyDrop::new(ChainState { network: n, state: state(h) });
    // 4% is one twenty-fifth
    let t = sum.unwrap_or(0) / 25;
    assert!(f.tax(&cs) == Currency::new(t.wrapping_sub(t % 10_000)));
    reach!("end");
});
