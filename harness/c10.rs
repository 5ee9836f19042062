use crate::sym::*;
use sia::types::Currency;

const SC: u128 = 1_000_000_000_000_000_000_000_000;
fn c(v: u128) -> Currency {
    Currency::new(v)
}

fn add() {
    let (a, b) = (u128_(), u128_());
    let want = a.checked_add(b);
    let got = c(a).checked_add(c(b));
    assert!(got.map(|v| *v) == want);
    if let Some(w) = want {
        assert!(*(c(a) + c(b)) == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_add, 2, { add() });
harness!(c10_add_wrap, 2, { add() });
harness!(c10_add_aborts, 2, {
    let (a, b) = (u128_(), u128_());
    assume(a.checked_add(b).is_none());
    reach!("start");
    let v = c(a) + c(b);
    if *v == 0 {
        reach!("never: no result, but zero was returned");
    }
    reach!("never: no result, but one was returned");
});

fn sub() {
    let (a, b) = (u128_(), u128_());
    let want = a.checked_sub(b);
    let got = c(a).checked_sub(c(b));
    assert!(got.map(|v| *v) == want);
    if let Some(w) = want {
        assert!(*(c(a) - c(b)) == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_sub, 2, { sub() });
harness!(c10_sub_wrap, 2, { sub() });
harness!(c10_sub_aborts, 2, {
    let (a, b) = (u128_(), u128_());
    assume(a.checked_sub(b).is_none());
    reach!("start");
    let v = c(a) - c(b);
    if *v == 0 {
        reach!("never: no result, but zero was returned");
    }
    reach!("never: no result, but one was returned");
});

fn mul() {
    let (a, b) = (u128_(), u128_());
    let want = a.checked_mul(b);
    let got = c(a).checked_mul(c(b));
    assert!(got.map(|v| *v) == want);
    if let Some(w) = want {
        assert!(*(c(a) * c(b)) == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_mul, 2, { mul() });
harness!(c10_mul_wrap, 2, { mul() });
harness!(c10_mul_aborts, 2, {
    let (a, b) = (u128_(), u128_());
    assume(a.checked_mul(b).is_none());
    reach!("start");
    let v = c(a) * c(b);
    if *v == 0 {
        reach!("never: no result, but zero was returned");
    }
    reach!("never: no result, but one was returned");
});

fn div() {
    let (a, b) = (u128_(), u128_());
    let want = a.checked_div(b);
    let got = c(a).checked_div(c(b));
    assert!(got.map(|v| *v) == want);
    if let Some(w) = want {
        assert!(*(c(a) / c(b)) == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_div, 2, { div() });
harness!(c10_div_wrap, 2, { div() });
harness!(c10_div_aborts, 2, {
    let (a, b) = (u128_(), u128_());
    assume(a.checked_div(b).is_none());
    reach!("start");
    let v = c(a) / c(b);
    if *v == 0 {
        reach!("never: no result, but zero was returned");
    }
    reach!("never: no result, but one was returned");
});

fn rem() {
    let (a, b) = (u128_(), u128_());
    let want = a.checked_rem(b);
    if let Some(w) = want {
        assert!(*(c(a) % c(b)) == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_rem, 2, { rem() });
harness!(c10_rem_wrap, 2, { rem() });
harness!(c10_rem_aborts, 2, {
    let (a, b) = (u128_(), u128_());
    assume(a.checked_rem(b).is_none());
    reach!("start");
    let v = c(a) % c(b);
    if *v == 0 {
        reach!("never: no result, but zero was returned");
    }
    reach!("never: no result, but one was returned");
});

fn siacoins() {
    let n = u64_();
    if let Some(w) = SC.checked_mul(n as u128) {
        assert!(*Currency::siacoins(n) == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_siacoins, 9, { siacoins() });
harness!(c10_siacoins_wrap, 9, { siacoins() });
harness!(c10_siacoins_aborts, 9, {
    let n = u64_();
    assume(SC.checked_mul(n as u128).is_none());
    reach!("start");
    let v = Currency::siacoins(n);
    if *v == 0 {
        reach!("never: no result, but zero was returned");
    }
    reach!("never: no result, but one was returned");
});
fn sum() {
    let (n, a, b, d) = (below(4), u128_(), u128_(), u128_());
    let list = [c(a), c(b), c(d)];
    let want = match n {
        0 => Some(0),
        1 => Some(a),
        2 => a.checked_add(b),
        _ => a.checked_add(b).and_then(|s| s.checked_add(d)),
    };
    if let Some(w) = want {
        assert!(*list[..n].iter().copied().sum::<Currency>() == w);
        reach!("representable");
    }
    reach!("end");
}
harness!(c10_sum, 5, { sum() });
harness!(c10_sum_wrap, 5, { sum() });
harness!(c10_sum_aborts, 5, {
    let (n, a, b, d) = (below(2), u128_(), u128_(), u128_());
    let list = [c(a), c(b), c(d)];
    let s = a.checked_add(b);
    assume(if n == 0 { s.is_none() } else { s.and_then(|s| s.checked_add(d)).is_none() });
    reach!("start");
    let _ = list[..n + 2].iter().copied().sum::<Currency>();
    reach!("never: no result, but one was returned");
});
harness!(c10_order, 2, {
    let (a, b) = (u128_(), u128_());
    assert!(c(a).cmp(&c(b)) == a.cmp(&b));
    assert!(c(a).partial_cmp(&c(b)) == Some(a.cmp(&b)));
    assert!((c(a) == c(b)) == (a == b));
    assert!((c(a) < c(b)) == (a < b));
    assert!((c(a) >= c(b)) == (a >= b));
    assert!(c(a).max(c(b)) == c(a.max(b)));
    let t: Result<u64, _> = c(a).try_into();
    assert!(match t { Ok(v) => v as u128 == a, Err(_) => a > u64::MAX as u128 });
    assert!(*Currency::zero() == 0 && Currency::default() == Currency::zero() && *c(a) == a);
    reach!("end");
});
