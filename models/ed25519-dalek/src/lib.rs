//! Verification model of ed25519-dalek: key derivation, signing and verification as *uninterpreted functions*
//! of their inputs, related only by the facts every signature scheme has: a derived public key is a valid
//! key, and a signature made with a key verifies under its public key for the same message.
use std::fmt;

const MSG: usize = 64;
const SLOTS: usize = 6;
#[derive(Clone, Copy)]
struct Msg {
    n: usize,
    b: [u128; MSG / 16],
}
fn msg(m: &[u8]) -> Msg {
    assert!(m.len() <= MSG, "model limit: message too long");
    let mut r = Msg { n: m.len(), b: [0; MSG / 16] };
    unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), r.b.as_mut_ptr() as *mut u8, m.len()) };
    r
}
impl Msg {
    fn eq(&self, o: &Msg) -> bool {
        self.n == o.n && self.b[0] == o.b[0] && self.b[1] == o.b[1] && self.b[2] == o.b[2] && self.b[3] == o.b[3]
    }
}
type W2 = [u128; 2];
type W4 = [u128; 4];
fn w2(b: &[u8; 32]) -> W2 {
    unsafe { std::mem::transmute(*b) }
}
fn w4(b: &[u8; 64]) -> W4 {
    unsafe { std::mem::transmute(*b) }
}
fn eq2(a: &W2, b: &W2) -> bool {
    a[0] == b[0] && a[1] == b[1]
}
fn eq4(a: &W4, b: &W4) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
}
#[cfg(kani)]
fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
#[cfg(kani)]
fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(not(kani))]
fn any<T>() -> T {
    unimplemented!("only for the model checker")
}
#[cfg(not(kani))]
fn assume(_: bool) {}

static mut PUB: ([(W2, W2); SLOTS], usize) = ([([0; 2], [0; 2]); SLOTS], 0);
static mut VALID: ([(W2, bool); SLOTS], usize) = ([([0; 2], false); SLOTS], 0);
static mut SIGN: ([(W2, Msg, W4); SLOTS], usize) = ([([0; 2], Msg { n: 0, b: [0; MSG / 16] }, [0; 4]); SLOTS], 0);
static mut VERIFY: ([(W2, Msg, W4, bool); SLOTS], usize) =
    ([([0; 2], Msg { n: 0, b: [0; MSG / 16] }, [0; 4], false); SLOTS], 0);

#[allow(static_mut_refs)]
fn f_pub(s: W2) -> W2 {
    unsafe {
        let r: W2 = [any(), any()];
        let k = PUB.1;
        assert!(k < SLOTS, "model limit: too many key derivations");
        let mut i = 0;
        while i < k {
            assume(!eq2(&PUB.0[i].0, &s) || eq2(&PUB.0[i].1, &r));
            i += 1;
        }
        PUB.0[k] = (s, r);
        PUB.1 = k + 1;
        r
    }
}
#[allow(static_mut_refs)]
fn f_valid(p: W2) -> bool {
    unsafe {
        let r = any::<u8>() & 1 == 1;
        let k = VALID.1;
        assert!(k < SLOTS, "model limit: too many key checks");
        let mut i = 0;
        while i < k {
            assume(!eq2(&VALID.0[i].0, &p) || VALID.0[i].1 == r);
            i += 1;
        }
        i = 0;
        while i < PUB.1 {
            assume(!eq2(&PUB.0[i].1, &p) || r);
            i += 1;
        }
        VALID.0[k] = (p, r);
        VALID.1 = k + 1;
        r
    }
}
#[allow(static_mut_refs)]
fn f_sign(s: W2, m: Msg) -> W4 {
    unsafe {
        let r: W4 = [any(), any(), any(), any()];
        let k = SIGN.1;
        assert!(k < SLOTS, "model limit: too many signatures");
        let mut i = 0;
        while i < k {
            let e = &SIGN.0[i];
            assume(!(eq2(&e.0, &s) && e.1.eq(&m)) || eq4(&e.2, &r));
            i += 1;
        }
        SIGN.0[k] = (s, m, r);
        SIGN.1 = k + 1;
        r
    }
}
#[allow(static_mut_refs)]
fn f_verify(p: W2, m: Msg, g: W4) -> bool {
    unsafe {
        let r = any::<u8>() & 1 == 1;
        let k = VERIFY.1;
        assert!(k < SLOTS, "model limit: too many verifications");
        let mut i = 0;
        while i < k {
            let e = &VERIFY.0[i];
            assume(!(eq2(&e.0, &p) && e.1.eq(&m) && eq4(&e.2, &g)) || e.3 == r);
            i += 1;
        }
        // sign(s, m) verifies under pub(s) for m
        i = 0;
        while i < SIGN.1 {
            let e = &SIGN.0[i];
            let mut j = 0;
            while j < PUB.1 {
                let q = &PUB.0[j];
                assume(!(eq2(&e.0, &q.0) && eq2(&q.1, &p) && e.1.eq(&m) && eq4(&e.2, &g)) || r);
                j += 1;
            }
            i += 1;
        }
        VERIFY.0[k] = (p, m, g, r);
        VERIFY.1 = k + 1;
        r
    }
}
/// (harness) verification as specified: the oracle
pub fn model_verify(pk: &[u8; 32], m: &[u8], sig: &[u8; 64]) -> bool {
    let v = f_valid(w2(pk));
    f_verify(w2(pk), msg(m), w4(sig)) && v
}

pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const KEYPAIR_LENGTH: usize = 64;
pub const SIGNATURE_LENGTH: usize = 64;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SignatureError(());
pub type SecretKey = [u8; 32];
impl fmt::Display for SignatureError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("signature error")
    }
}
impl std::error::Error for SignatureError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Signature(W4);
impl Signature {
    pub fn from_bytes(b: &[u8; 64]) -> Signature {
        Signature(w4(b))
    }
    pub fn from_slice(b: &[u8]) -> Result<Signature, SignatureError> {
        if b.len() != 64 {
            return Err(SignatureError(()));
        }
        let mut a = [0; 64];
        a.copy_from_slice(b);
        Ok(Signature(w4(&a)))
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        unsafe { std::mem::transmute(self.0) }
    }
}
impl From<[u8; 64]> for Signature {
    fn from(b: [u8; 64]) -> Self {
        Signature(w4(&b))
    }
}
impl From<&[u8; 64]> for Signature {
    fn from(b: &[u8; 64]) -> Self {
        Signature(w4(b))
    }
}
impl TryFrom<&[u8]> for Signature {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        Self::from_slice(b)
    }
}
pub trait Signer<S> {
    fn sign(&self, m: &[u8]) -> S {
        match self.try_sign(m) {
            Ok(s) => s,
            Err(_) => panic!("signature operation failed"),
        }
    }
    fn try_sign(&self, m: &[u8]) -> Result<S, SignatureError>;
}
pub trait Verifier<S> {
    fn verify(&self, m: &[u8], s: &S) -> Result<(), SignatureError>;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct VerifyingKey(W2);
impl VerifyingKey {
    pub fn from_bytes(b: &[u8; 32]) -> Result<VerifyingKey, SignatureError> {
        if f_valid(w2(b)) {
            Ok(VerifyingKey(w2(b)))
        } else {
            Err(SignatureError(()))
        }
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        unsafe { std::mem::transmute(self.0) }
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        unsafe { &*(&self.0 as *const W2 as *const [u8; 32]) }
    }
    /// stricter than `verify`: also refuses some signatures that are valid
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verify(m, s)?;
        if any::<u8>() & 1 == 1 { Ok(()) } else { Err(SignatureError(())) }
    }
}
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        if f_verify(self.0, msg(m), s.0) { Ok(()) } else { Err(SignatureError(())) }
    }
}
impl TryFrom<&[u8]> for VerifyingKey {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        if b.len() != 32 {
            return Err(SignatureError(()));
        }
        let mut a = [0; 32];
        a.copy_from_slice(b);
        Self::from_bytes(&a)
    }
}
impl From<&SigningKey> for VerifyingKey {
    fn from(k: &SigningKey) -> Self {
        k.verifying_key()
    }
}
#[derive(Debug, Clone)]
pub struct SigningKey {
    s: W2,
    p: W2,
}
impl SigningKey {
    pub fn from_bytes(b: &[u8; 32]) -> SigningKey {
        let s = w2(b);
        SigningKey { s, p: f_pub(s) }
    }
    pub fn from_keypair_bytes(b: &[u8; 64]) -> Result<SigningKey, SignatureError> {
        let (mut s, mut p) = ([0; 32], [0; 32]);
        s.copy_from_slice(&b[..32]);
        p.copy_from_slice(&b[32..]);
        let k = Self::from_bytes(&s);
        if eq2(&k.p, &w2(&p)) { Ok(k) } else { Err(SignatureError(())) }
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        unsafe { std::mem::transmute(self.s) }
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        unsafe { &*(&self.s as *const W2 as *const [u8; 32]) }
    }
    pub fn to_keypair_bytes(&self) -> [u8; 64] {
        unsafe { std::mem::transmute([self.s[0], self.s[1], self.p[0], self.p[1]]) }
    }
    pub fn verifying_key(&self) -> VerifyingKey {
        VerifyingKey(self.p)
    }
    pub fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verifying_key().verify(m, s)
    }
}
impl Signer<Signature> for SigningKey {
    fn try_sign(&self, m: &[u8]) -> Result<Signature, SignatureError> {
        Ok(Signature(f_sign(self.s, msg(m))))
    }
}
