//! Symbolic inputs (model checker) / recorded inputs (native replay), buffers and assertion helpers.
use std::io::{self, Read, Write};

/// Declares a harness: a Kani proof under the model checker, a plain function in the native replayer.
#[macro_export]
macro_rules! harness {
    ($(#[$m:meta])* $name:ident, $unwind:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        $(#[$m])*
        pub fn $name() $body
    };
}

/// A harness in which the search for a byte in a text is replaced by a plain loop (the library's looks at whole
/// words, by the text's alignment), and the texts of error messages are left empty.
#[macro_export]
macro_rules! harness_text {
    ($name:ident, $unwind:literal, $body:block) => {
        $crate::harness!(#[cfg_attr(kani, kani::stub(core::slice::memchr::memchr, crate::sym::memchr))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memrchr, crate::sym::memrchr))]
            #[cfg_attr(kani, kani::stub(std::fmt::format, crate::sym::message))]
            $name, $unwind, $body);
    };
}

/// ... and in which text that may not be UTF-8 is made printable by `sym::lossy`
#[macro_export]
macro_rules! harness_lossy {
    ($name:ident, $unwind:literal, $body:block) => {
        $crate::harness!(#[cfg_attr(kani, kani::stub(core::slice::memchr::memchr, crate::sym::memchr))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memrchr, crate::sym::memrchr))]
            #[cfg_attr(kani, kani::stub(std::fmt::format, crate::sym::message))]
            #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, crate::sym::lossy))]
            $name, $unwind, $body);
    };
}

#[cfg(kani)]
#[macro_export]
macro_rules! reach {
    ($m:literal) => { kani::cover!(true, $m) };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! reach {
    ($m:literal) => { $crate::sym::reached($m) };
}

macro_rules! anys {
    ($($n:ident $t:ty),*) => { $(
        #[cfg(kani)] pub fn $n() -> $t { kani::any() }
        #[cfg(not(kani))] pub fn $n() -> $t { <$t>::from_le_bytes(take()) }
    )* };
}
anys!(u8_ u8, u16_ u16, u32_ u32, u64_ u64, u128_ u128, usize_ usize, i16_ i16, i32_ i32, i64_ i64);

#[cfg(kani)]
pub fn bytes<const N: usize>() -> [u8; N] {
    kani::any()
}
#[cfg(not(kani))]
pub fn bytes<const N: usize>() -> [u8; N] {
    take()
}
pub fn bool_() -> bool {
    let b = u8_();
    assume(b < 2);
    b == 1
}
/// a value below n
pub fn below(n: usize) -> usize {
    let v = u8_() as usize;
    assume(v < n);
    v
}

#[cfg(kani)]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        println!("REPLAY-ASSUMPTION-FAILED");
        std::process::exit(3);
    }
}

#[cfg(not(kani))]
static mut INPUT: (Vec<u8>, usize) = (Vec::new(), 0);
#[cfg(not(kani))]
#[allow(static_mut_refs)]
pub fn set_input(v: Vec<u8>) {
    unsafe { INPUT = (v, 0) }
}
#[cfg(not(kani))]
#[allow(static_mut_refs)]
fn take<const N: usize>() -> [u8; N] {
    let mut out = [0u8; N];
    unsafe {
        for o in out.iter_mut() {
            *o = INPUT.0.get(INPUT.1).copied().unwrap_or(0);
            INPUT.1 += 1;
        }
    }
    out
}
#[cfg(not(kani))]
pub fn reached(m: &str) {
    println!("REPLAY-REACHED {}", m);
}

/// dst[at..at + k] = src[from..from + k], byte by byte: a block copy into a large array costs the symbolic
/// executor an assignment of every element of the array
pub fn copy_bytes(dst: &mut [u8], at: usize, src: &[u8], from: usize, k: usize) {
    let mut i = 0;
    while k - i >= 8 {
        dst[at + i] = src[from + i];
        dst[at + i + 1] = src[from + i + 1];
        dst[at + i + 2] = src[from + i + 2];
        dst[at + i + 3] = src[from + i + 3];
        dst[at + i + 4] = src[from + i + 4];
        dst[at + i + 5] = src[from + i + 5];
        dst[at + i + 6] = src[from + i + 6];
        dst[at + i + 7] = src[from + i + 7];
        i += 8;
    }
    while i < k {
        dst[at + i] = src[from + i];
        i += 1;
    }
}

/// fixed-capacity output buffer
pub struct Out<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> Out<N> {
    pub fn new() -> Self {
        Out { b: [0; N], n: 0 }
    }
    pub fn put(&mut self, s: &[u8]) -> &mut Self {
        let k = s.len();
        assert!(k <= N && self.n <= N - k, "model limit: harness buffer too small");
        copy_bytes(&mut self.b, self.n, s, 0, k);
        self.n += k;
        self
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.put(&[v])
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.put(&v.to_le_bytes())
    }
    pub fn s(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
impl<const N: usize> Write for Out<N> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.put(b);
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        self.put(b);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// equality of 32-byte values without a loop
pub fn eq32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    unsafe {
        let (x, y) = (&*(a as *const [u8; 32] as *const [u128p; 2]), &*(b as *const [u8; 32] as *const [u128p; 2]));
        let (x0, x1, y0, y1) = (x[0], x[1], y[0], y[1]);
        x0.0 == y0.0 && x1.0 == y1.0
    }
}
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
#[repr(packed)]
struct u128p(u128);

pub fn h32(parts: &[u8]) -> [u8; 32] {
    let h = blake2b_simd::Params::new().hash_length(32).to_state().update(parts).finalize();
    let mut o = [0u8; 32];
    o.copy_from_slice(h.as_bytes());
    o
}
/// from here on different messages have different hashes (model checker only; true of BLAKE2b for all we know)
pub fn collision_free() {
    #[cfg(kani)]
    blake2b_simd::model_collision_free();
}

/// a message to be hashed
pub struct Msg(blake2b_simd::State);
impl Msg {
    pub fn new() -> Msg {
        Msg(blake2b_simd::Params::new().hash_length(32).to_state())
    }
    pub fn put(&mut self, s: &[u8]) -> &mut Self {
        self.0.update(s);
        self
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.put(&[v])
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.put(&v.to_le_bytes())
    }
    pub fn h32(&self) -> [u8; 32] {
        let h = self.0.finalize();
        let mut o = [0u8; 32];
        o.copy_from_slice(h.as_bytes());
        o
    }
}
/// `got` is the hash of the message
pub fn is32<T: AsRef<[u8; 32]>>(got: &T, o: &Msg) {
    assert!(eq32(got.as_ref(), &o.h32()));
}
/// equality of 64-byte values without a loop
pub fn eq64(a: &[u8; 64], b: &[u8; 64]) -> bool {
    unsafe {
        let (x, y) = (&*(a as *const [u8; 64] as *const [[u8; 32]; 2]), &*(b as *const [u8; 64] as *const [[u8; 32]; 2]));
        eq32(&x[0], &y[0]) && eq32(&x[1], &y[1])
    }
}

/// (harness) the text about to be parsed: its length and, where known, the positions of its first and last colon
pub fn colons(len: usize, first: Option<Option<usize>>, last: Option<Option<usize>>) {
    unsafe { COLONS = (len, first, last) }
}
static mut COLONS: (usize, Option<Option<usize>>, Option<Option<usize>>) = (usize::MAX, None, None);
/// ... which has no colon
pub fn no_colon(len: usize) {
    colons(len, Some(None), Some(None))
}

pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    let n = text.len();
    let (mut i, mut at) = (n, n);
    while i > 0 {
        i -= 1;
        if text[i] == x {
            at = i;
        }
    }
    known(x, n, at, unsafe { COLONS.1 })
}
pub fn memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let n = text.len();
    let (mut i, mut at) = (0, n);
    while i < n {
        if text[i] == x {
            at = i;
        }
        i += 1;
    }
    known(x, n, at, unsafe { COLONS.2 })
}
// what the harness said, checked: a constant for the symbolic executor
fn known(x: u8, n: usize, at: usize, k: Option<Option<usize>>) -> Option<usize> {
    if x == b':' && n == unsafe { COLONS.0 } {
        if let Some(k) = k {
            assert!(at == k.unwrap_or(n), "model limit: another text");
            return k;
        }
    }
    if at < n { Some(at) } else { None }
}
pub fn message(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
/// (harness) bytes to be printed are UTF-8
pub fn lossless() {
    unsafe { LOSSLESS = true }
}
static mut LOSSLESS: bool = false;
pub fn lossy(b: &[u8]) -> std::borrow::Cow<'_, str> {
    if unsafe { LOSSLESS } {
        std::borrow::Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(b) })
    } else {
        std::borrow::Cow::Owned(String::from("\u{fffd}"))
    }
}
/// a text being written
pub struct Text<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> Text<N> {
    pub fn of<T: std::fmt::Display>(v: &T) -> Self {
        let mut t = Text { b: [0; N], n: 0 };
        #[cfg(kani)]
        assert!(v.fmt(&mut std::fmt::Formatter::new(&mut t, std::fmt::FormattingOptions::new())).is_ok());
        #[cfg(not(kani))]
        assert!(std::fmt::Write::write_fmt(&mut t, format_args!("{}", v)).is_ok());
        t
    }
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
}
impl<const N: usize> std::fmt::Write for Text<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = s.len();
        assert!(k <= N - self.n, "text longer than expected");
        copy_bytes(&mut self.b, self.n, s.as_bytes(), 0, k);
        self.n += k;
        Ok(())
    }
}
pub fn is_hex(c: u8) -> bool {
    (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F')
}
pub fn hex_val(c: u8) -> u8 {
    if c <= b'9' { c.wrapping_sub(b'0') } else { (c | 0x20).wrapping_sub(b'a').wrapping_add(10) }
}
/// the lower-case digits of b are s[at..]
pub fn shows(s: &[u8], at: usize, b: &[u8]) -> bool {
    let (mut ok, mut i) = (true, 0);
    while i < b.len() {
        let (h, l) = (b[i] >> 4, b[i] & 15);
        ok &= s[at + 2 * i] == h + if h < 10 { b'0' } else { b'a' - 10 };
        ok &= s[at + 2 * i + 1] == l + if l < 10 { b'0' } else { b'a' - 10 };
        i += 1;
    }
    ok
}
/// s[at..at + 2 * N] as bytes, if it is all digits
pub fn unhex<const N: usize>(s: &[u8], at: usize) -> (bool, [u8; N]) {
    let (mut ok, mut w, mut i) = (true, [0u8; N], 0);
    while i < N {
        let (h, l) = (s[at + 2 * i], s[at + 2 * i + 1]);
        ok &= is_hex(h) & is_hex(l);
        w[i] = hex_val(h) << 4 | hex_val(l) & 15;
        i += 1;
    }
    (ok, w)
}
