//! Verification model of `blake2b_simd`: BLAKE2b as an *uninterpreted function* of everything that was
//! hashed (parameters and message). Equal transcripts give equal digests; a transcript that was not
//! seen before gives an arbitrary digest of the requested length. A property proved against this model
//! therefore holds for every hash function, BLAKE2b included. With the `collision_free` flag set by a
//! harness, digests of different transcripts are additionally assumed different.
//!
//! Messages longer than CAP bytes are outside the model: a harness that reaches that limit fails.
use std::fmt;

pub const OUTBYTES: usize = 64;
pub const KEYBYTES: usize = 64;
pub const SALTBYTES: usize = 16;
pub const PERSONALBYTES: usize = 16;
pub const BLOCKBYTES: usize = 128;

pub const CAP: usize = if cfg!(feature = "big") { 1280 } else if cfg!(feature = "many") { 80 } else { 512 };
const WORDS: usize = CAP / 16;

#[cfg(not(kani))]
fn any_word() -> u128 {
    unimplemented!("blake2b_simd model is only for the model checker")
}
#[cfg(kani)]
fn any_word() -> u128 {
    kani::any()
}

#[derive(Clone, Copy, PartialEq, Eq)]
struct Par {
    len: u8,
    fanout: u8,
    depth: u8,
    node_depth: u8,
    inner: u8,
    last: bool,
    leaf: u32,
    off: u64,
    /// salt, personalization and key are folded into the transcript
    extra: u8,
}

impl Par {
    fn pack(&self) -> (u128, u128) {
        let a = self.len as u128
            | (self.fanout as u128) << 8
            | (self.depth as u128) << 16
            | (self.node_depth as u128) << 24
            | (self.inner as u128) << 32
            | (self.last as u128) << 40
            | (self.extra as u128) << 48;
        (a, self.leaf as u128 | (self.off as u128) << 64)
    }
}

const PAR0: Par = Par { len: 64, fanout: 1, depth: 1, node_depth: 0, inner: 0, last: false, leaf: 0, off: 0, extra: 0 };

#[derive(Clone)]
pub struct Params {
    p: Par,
    // key, salt, personalization
    x: *mut [u8; 144],
    xn: usize,
}

impl Params {
    pub fn new() -> Self {
        Params { p: PAR0, x: std::ptr::null_mut(), xn: 0 }
    }
    fn fold(&mut self, v: &[u8]) {
        if self.x.is_null() {
            self.x = Box::leak(Box::new([0; 144]));
        }
        unsafe { (&mut *self.x)[self.xn..self.xn + v.len()].copy_from_slice(v) };
        self.xn += v.len();
    }
    pub fn hash(&self, input: &[u8]) -> Hash {
        self.to_state().update(input).finalize()
    }
    pub fn to_state(&self) -> State {
        let mut s = State::start(self.p);
        if self.xn > 0 {
            s.update(unsafe { &(&*self.x)[..self.xn] });
        }
        s
    }
    pub fn hash_length(&mut self, length: usize) -> &mut Self {
        assert!(1 <= length && length <= OUTBYTES, "Bad hash length: {}", length);
        self.p.len = length as u8;
        self
    }
    pub fn key(&mut self, key: &[u8]) -> &mut Self {
        assert!(key.len() <= KEYBYTES);
        self.p.extra |= 1;
        self.fold(key);
        self
    }
    pub fn salt(&mut self, v: &[u8]) -> &mut Self {
        assert!(v.len() <= SALTBYTES);
        self.p.extra |= 2;
        self.fold(v);
        self
    }
    pub fn personal(&mut self, v: &[u8]) -> &mut Self {
        assert!(v.len() <= PERSONALBYTES);
        self.p.extra |= 4;
        self.fold(v);
        self
    }
    pub fn fanout(&mut self, v: u8) -> &mut Self {
        self.p.fanout = v;
        self
    }
    pub fn max_depth(&mut self, v: u8) -> &mut Self {
        self.p.depth = v;
        self
    }
    pub fn max_leaf_length(&mut self, v: u32) -> &mut Self {
        self.p.leaf = v;
        self
    }
    pub fn node_offset(&mut self, v: u64) -> &mut Self {
        self.p.off = v;
        self
    }
    pub fn node_depth(&mut self, v: u8) -> &mut Self {
        self.p.node_depth = v;
        self
    }
    pub fn inner_hash_length(&mut self, v: usize) -> &mut Self {
        self.p.inner = v as u8;
        self
    }
    pub fn last_node(&mut self, v: bool) -> &mut Self {
        self.p.last = v;
        self
    }
}
unsafe impl Send for Params {}
unsafe impl Sync for Params {}
impl Default for Params {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Params {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Params")
    }
}

/// dst[at..at + src.len()] = src, byte by byte: a block copy into a large array costs the symbolic executor an
/// assignment of every element of the array
#[inline(never)]
fn put_bytes(dst: &mut [u8; CAP], at: usize, src: &[u8]) {
    let (mut i, k) = (0, src.len());
    if CAP <= 80 {
        // (small: a block copy is cheaper)
        dst[at..at + k].copy_from_slice(src);
        return;
    }
    while k - i >= 8 {
        dst[at + i] = src[i];
        dst[at + i + 1] = src[i + 1];
        dst[at + i + 2] = src[i + 2];
        dst[at + i + 3] = src[i + 3];
        dst[at + i + 4] = src[i + 4];
        dst[at + i + 5] = src[i + 5];
        dst[at + i + 6] = src[i + 6];
        dst[at + i + 7] = src[i + 7];
        i += 8;
    }
    while i < k {
        dst[at + i] = src[i];
        i += 1;
    }
}

#[derive(Clone, Copy)]
#[repr(align(16))]
struct Buf([u8; CAP]);

/// A hash in progress: its transcript lives in the log itself, where the digest will be (no copies).
pub struct State {
    p: Par,
    k: *mut Slot,
    n: usize,
}

pub type Count = u128;

#[allow(static_mut_refs)]
impl State {
    pub fn new() -> Self {
        Params::new().to_state()
    }
    fn start(p: Par) -> State {
        unsafe {
            // (not initialised: nothing is read that was not written)
            let k = slot();
            (*k).prev = LAST;
            (*k).done = false;
            (*k).text = std::alloc::alloc(std::alloc::Layout::new::<Buf>()) as *mut Buf;
            LAST = k;
            State { p, k, n: 0 }
        }
    }
    /// the same transcript in a slot of its own
    fn fork(&self) -> State {
        let mut s = State::start(self.p);
        unsafe {
            if self.n > 0 {
                let from: &Buf = &*(*self.k).text;
                let src: *const [u8] = &from.0[..self.n];
                put_bytes(&mut (*(*s.k).text).0, 0, &*src);
            }
        }
        s.n = self.n;
        s
    }
    pub fn update(&mut self, input: &[u8]) -> &mut Self {
        let k = input.len();
        assert!(k <= CAP && self.n <= CAP - k, "hash model: transcript capacity exceeded");
        if k > 0 {
            unsafe {
                if (*self.k).done {
                    *self = self.fork();
                }
                put_bytes(&mut (*(*self.k).text).0, self.n, input);
            }
            self.n += k;
        }
        self
    }
    pub fn finalize(&self) -> Hash {
        unsafe {
            if (*self.k).done {
                return digest(&self.fork());
            }
        }
        digest(self)
    }
    pub fn set_last_node(&mut self, v: bool) -> &mut Self {
        self.p.last = v;
        self
    }
    pub fn count(&self) -> Count {
        self.n as Count
    }
}
impl Clone for State {
    fn clone(&self) -> State {
        self.fork()
    }
}
impl std::io::Write for State {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.update(buf);
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.update(buf);
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl fmt::Debug for State {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("State")
    }
}
impl Default for State {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Clone, Copy)]
pub struct Hash {
    w: [u128; 4],
    len: u8,
}
impl Hash {
    pub fn as_bytes(&self) -> &[u8] {
        &self.as_array()[..self.len as usize]
    }
    pub fn as_array(&self) -> &[u8; OUTBYTES] {
        unsafe { &*(&self.w as *const [u128; 4] as *const [u8; OUTBYTES]) }
    }
    pub fn to_hex(&self) -> String {
        let mut s = String::new();
        for b in self.as_bytes() {
            s.push(b"0123456789abcdef"[(b >> 4) as usize] as char);
            s.push(b"0123456789abcdef"[(b & 15) as usize] as char);
        }
        s
    }
}
impl From<[u8; OUTBYTES]> for Hash {
    fn from(bytes: [u8; OUTBYTES]) -> Self {
        let mut w = [0u128; 4];
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), w.as_mut_ptr() as *mut u8, OUTBYTES) };
        Hash { w, len: OUTBYTES as u8 }
    }
}
impl From<&[u8; OUTBYTES]> for Hash {
    fn from(bytes: &[u8; OUTBYTES]) -> Self {
        Self::from(*bytes)
    }
}
impl PartialEq for Hash {
    fn eq(&self, o: &Hash) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
impl PartialEq<[u8]> for Hash {
    fn eq(&self, o: &[u8]) -> bool {
        self.as_bytes() == o
    }
}
impl Eq for Hash {}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}
impl fmt::Debug for Hash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Hash")
    }
}

pub fn blake2b(input: &[u8]) -> Hash {
    State::new().update(input).finalize()
}

// ---- the uninterpreted function -----------------------------------------------------------------

// (one object per slot and transcript: an access costs the symbolic executor time proportional to the object)
struct Slot {
    prev: *mut Slot,
    text: *mut Buf,
    done: bool,
    side: u8,
    p0: u128,
    p1: u128,
    n: usize,
    d0: u128,
    d1: u128,
    d2: u128,
    d3: u128,
    /// the transcript as 16-byte words, the last one padded with zeros
    w: [u128; WORDS + 1],
}
const EMPTY: Slot = Slot {
    prev: std::ptr::null_mut(),
    text: std::ptr::null_mut(),
    done: false,
    side: 0,
    p0: 0,
    p1: 0,
    n: 0,
    d0: 0,
    d1: 0,
    d2: 0,
    d3: 0,
    w: [0; WORDS + 1],
};
macro_rules! slots {
    ($($i:literal $s:ident)*) => {
        $(static mut $s: Slot = EMPTY;)*
        unsafe fn slot() -> *mut Slot {
            USED += 1;
            match USED {
                $($i => &raw mut $s,)*
                _ => panic!("hash model: too many digests"),
            }
        }
    };
}
slots!{1 S1 2 S2 3 S3 4 S4 5 S5 6 S6 7 S7 8 S8 9 S9 10 S10 11 S11 12 S12 13 S13 14 S14 15 S15 16 S16 17 S17 18 S18 19 S19 20 S20 21 S21 22 S22 23 S23 24 S24 25 S25 26 S26 27 S27 28 S28 29 S29 30 S30 31 S31 32 S32 33 S33 34 S34 35 S35 36 S36 37 S37 38 S38 39 S39 40 S40 41 S41 42 S42 43 S43 44 S44 45 S45 46 S46 47 S47 48 S48 49 S49 50 S50 51 S51 52 S52 53 S53 54 S54 55 S55 56 S56 57 S57 58 S58 59 S59 60 S60 61 S61 62 S62 63 S63 64 S64}
static mut USED: usize = 0;
static mut LAST: *mut Slot = std::ptr::null_mut();
static mut COLLISION_FREE: bool = false;
unsafe impl Send for State {}
unsafe impl Sync for State {}

static mut SIDE: u8 = 0;
/// (harness) with many digests: those of one side (1 or 2) are only related to those of the other; digests within a
/// side are left unrelated, which allows more behaviours than any hash function has
pub fn model_side(s: u8) {
    unsafe { SIDE = s }
}
/// (harness) assume from here on that different transcripts have different digests
pub fn model_collision_free() {
    unsafe { COLLISION_FREE = true }
}

unsafe fn pack(k: *mut Slot, n: usize) {
    let t = (*k).text;
    let mut i = 0;
    while 16 * (i + 1) <= n {
        (*k).w[i] = (&*(t as *const [u128; WORDS]))[i];
        i += 1;
    }
    let (mut r, mut j) = (0u128, 16 * i);
    while j < n {
        r |= ((*t).0[j] as u128) << (8 * (j % 16));
        j += 1;
    }
    (*k).w[i] = r;
}
fn same(a: &Slot, b: &Slot, n: usize) -> bool {
    // (words that were not written are zero)
    let mut eq = (a.w[0] == b.w[0]) & (a.w[1] == b.w[1]) & (a.w[2] == b.w[2]) & (a.w[3] == b.w[3]) & (a.w[4] == b.w[4]);
    let mut i = 5;
    while i << 4 < n {
        eq &= a.w[i] == b.w[i];
        i += 1;
    }
    eq
}

// Ackermann expansion: every call gets its own slot and a fresh digest, constrained to agree with the
// digests of all earlier calls on equal transcripts. No branch depends on symbolic data, so the
// slots in use stay constants for the symbolic executor.
fn digest(s: &State) -> Hash {
    unsafe {
        let (p0, p1) = s.p.pack();
        let d0 = any_word();
        let d1 = any_word();
        let (d2, d3) = if s.p.len > 32 { (any_word(), any_word()) } else { (0, 0) };
        let me = s.k;
        pack(me, s.n);
        (*me).done = true;
        (*me).side = SIDE;
        (*me).p0 = p0;
        (*me).p1 = p1;
        (*me).n = s.n;
        (*me).d0 = d0;
        (*me).d1 = d1;
        (*me).d2 = d2;
        (*me).d3 = d3;
        #[cfg(kani)]
        {
            let mut next: *const Slot = LAST;
            let mine = &*me;
            while next != std::ptr::null() {
                let u = &*next;
                if next != me as *const Slot && u.done && (SIDE == 0 || u.side != SIDE) {
                    if u.n == s.n && u.p0 == p0 && u.p1 == p1 {
                        let m = same(u, mine, s.n);
                        kani::assume(!m | ((u.d0 == d0) & (u.d1 == d1) & (u.d2 == d2) & (u.d3 == d3)));
                        if COLLISION_FREE {
                            kani::assume(m | (u.d0 != d0) | (u.d1 != d1));
                        }
                    } else if COLLISION_FREE {
                        kani::assume((u.d0 != d0) | (u.d1 != d1));
                    }
                }
                next = u.prev;
            }
        }
        let _ = (same as fn(&Slot, &Slot, usize) -> bool, COLLISION_FREE);
        Hash { w: [d0, d1, d2, d3], len: s.p.len }
    }
}

pub mod many {
    use super::*;
    pub const MAX_DEGREE: usize = 4;
    pub fn degree() -> usize {
        4
    }
    #[derive(Clone)]
    pub struct HashManyJob<'a> {
        params: Params,
        input: &'a [u8],
        out: Option<Hash>,
    }
    impl<'a> HashManyJob<'a> {
        pub fn new(params: &Params, input: &'a [u8]) -> Self {
            HashManyJob { params: params.clone(), input, out: None }
        }
        pub fn to_hash(&self) -> Hash {
            match &self.out {
                Some(h) => *h,
                None => panic!("job hasn't been run yet"),
            }
        }
    }
    impl<'a> fmt::Debug for HashManyJob<'a> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("HashManyJob")
        }
    }
    pub fn hash_many<'a, 'b, I>(jobs: I)
    where
        'b: 'a,
        I: IntoIterator<Item = &'a mut HashManyJob<'b>>,
    {
        for j in jobs {
            j.out = Some(j.params.hash(j.input));
        }
    }
    pub fn update_many<'a, 'b, I, T>(pairs: I)
    where
        I: IntoIterator<Item = (&'a mut State, &'b T)>,
        T: 'b + AsRef<[u8]> + ?Sized,
    {
        for (s, t) in pairs {
            s.update(t.as_ref());
        }
    }
}
