use crate::model::*;
use crate::sym::*;
use sia::types::v2::SpendPolicy;
use sia::types::*;
use std::mem::ManuallyDrop;

// the address of a policy, by the protocol
#[allow(deprecated)]
fn address(p: &SpendPolicy) -> [u8; 32] {
    let mut o = Msg::new();
    match p {
        SpendPolicy::Opaque(a) => {
            let mut w = [0u8; 32];
            copy_bytes(&mut w, 0, a.as_ref(), 0, 32);
            return w;
        }
        SpendPolicy::UnlockConditions(uc) => return uc_address(uc),
        SpendPolicy::Threshold(n, of) => {
            o.put(b"sia/address|").u8(1).u8(5).u8(*n).u8(of.len() as u8);
            let mut i = 0;
            while i < of.len() {
                o.u8(6).put(&address(&of[i]));
                i += 1;
            }
        }
        _ => {
            o.put(b"sia/address|");
            p.e2(&mut o);
        }
    }
    o.h32()
}
fn check(shape: &'static [u8]) {
    let p: ManuallyDrop<SpendPolicy> = ManuallyDrop::new(G::g(&mut C::new(shape)));
    let got = p.address();
    is_addr(&got, &address(&p));
}
// unlock conditions (the number of keys is written again where the symbolic executor finds it)
#[allow(deprecated)]
fn unlock_conditions<const N: usize>(shape: &'static [u8]) -> (v1::UnlockConditions, SpendPolicy) {
    let uc: v1::UnlockConditions = G::g(&mut C::new(shape));
    let dup = unsafe { std::ptr::read(&uc) };
    let mut p = SpendPolicy::UnlockConditions(uc);
    if let SpendPolicy::UnlockConditions(u) = &mut p {
        unsafe { u.public_keys.set_len(N) };
    }
    (dup, p)
}
// replacing sub-policy k by its opaque form
fn opaque(shape: &'static [u8], k: usize) {
    let n = u8_();
    let mut of: Vec<SpendPolicy> = G::g(&mut C::new(shape));
    let p = ManuallyDrop::new(SpendPolicy::Threshold(n, unsafe { std::ptr::read(&of) }));
    let a = p.address();
    let h = SpendPolicy::Opaque(of[k].address());
    unsafe { std::ptr::write(&mut of[k], h) };
    let q = ManuallyDrop::new(SpendPolicy::Threshold(n, of));
    let b = q.address();
    let w: &[u8] = b.as_ref();
    is_addr(&a, unsafe { &*(w.as_ptr() as *const [u8; 32]) });
}
harness!(c24_above, 34, {
    check(&[1]);
    reach!("end");
});
harness!(c24_after, 34, {
    check(&[2]);
    reach!("end");
});
harness!(c24_key, 34, {
    check(&[3]);
    reach!("end");
});
harness!(c24_hash, 34, {
    check(&[4]);
    reach!("end");
});
harness!(c24_opaque, 34, {
    check(&[6]);
    reach!("end");
});
harness!(c24_t_uc, 34, {
    let (uc, p) = unlock_conditions::<1>(&[1, 1]);
    let (uc, p) = (ManuallyDrop::new(uc), ManuallyDrop::new(p));
    let got = p.address();
    is_addr(&got, &uc_address(&uc));
    reach!("end");
});
harness!(c24_uc0, 34, {
    let (uc, p) = unlock_conditions::<0>(&[0]);
    let (uc, p) = (ManuallyDrop::new(uc), ManuallyDrop::new(p));
    let got = p.address();
    is_addr(&got, &uc_address(&uc));
    reach!("end");
});
harness!(c24_thr0, 34, {
    check(&[5, 0]);
    reach!("end");
});
harness!(c24_thr1, 34, {
    check(&[5, 1, 3]);
    reach!("end");
});
harness!(c24_thr2, 34, {
    check(&[5, 2, 1, 6]);
    reach!("end");
});
harness!(c24_thr3, 34, {
    check(&[5, 3, 2, 4, 3]);
    reach!("end");
});
harness!(c24_thr_nest, 34, {
    check(&[5, 2, 5, 1, 4, 5, 0]);
    reach!("end");
});
harness!(c24_thr_nest2, 34, {
    check(&[5, 1, 5, 2, 6, 3]);
    reach!("end");
});
harness!(c24_t_thr_uc, 34, {
    check(&[5, 1, 7, 1, 4]);
    reach!("end");
});
harness!(c24_thr_deep, 34, {
    check(&[5, 1, 5, 1, 5, 1, 1]);
    reach!("end");
});
harness!(c24_opaque_above, 34, {
    opaque(&[1, 1], 0);
    reach!("end");
});
harness!(c24_opaque_after, 34, {
    opaque(&[2, 1, 2], 1);
    reach!("end");
});
harness!(c24_opaque_key, 34, {
    opaque(&[1, 3], 0);
    reach!("end");
});
harness!(c24_opaque_hash, 34, {
    opaque(&[2, 4, 4], 0);
    reach!("end");
});
harness!(c24_opaque_opaque, 34, {
    opaque(&[2, 6, 1], 0);
    reach!("end");
});
harness!(c24_opaque_thr, 34, {
    opaque(&[2, 5, 1, 3, 4], 0);
    reach!("end");
});
harness!(c24_opaque_thr2, 34, {
    opaque(&[2, 3, 5, 2, 1, 6], 1);
    reach!("end");
});
harness!(c24_opaque_uc, 34, {
    let (uc, p) = unlock_conditions::<0>(&[0]);
    let (n, uc) = (u8_(), ManuallyDrop::new(uc));
    let p = ManuallyDrop::new(SpendPolicy::Threshold(n, vec![p]));
    let q = ManuallyDrop::new(SpendPolicy::Threshold(n, vec![SpendPolicy::Opaque(uc.address())]));
    let (a, b) = (p.address(), q.address());
    let w: &[u8] = b.as_ref();
    is_addr(&a, unsafe { &*(w.as_ptr() as *const [u8; 32]) });
    reach!("end");
});
