//! Verification model of hex: the same results, computed without branching on the data.
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FromHexError {
    InvalidHexCharacter { c: char, index: usize },
    OddLength,
    InvalidStringLength,
}
impl std::error::Error for FromHexError {}
impl fmt::Display for FromHexError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match *self {
            FromHexError::InvalidHexCharacter { c, index } => write!(f, "Invalid character {:?} at position {}", c, index),
            FromHexError::OddLength => f.write_str("Odd number of digits"),
            FromHexError::InvalidStringLength => f.write_str("Invalid string length"),
        }
    }
}

fn digit(n: u8, a: u8) -> u8 {
    n + if n < 10 { b'0' } else { a - 10 }
}
fn val(c: u8) -> u8 {
    let (d, l) = (c.wrapping_sub(b'0'), (c | 0x20).wrapping_sub(b'a'));
    if d < 10 { d } else if l < 6 { l + 10 } else { 0xff }
}
fn enc(src: &[u8], a: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(2 * src.len());
    let mut i = 0;
    while i < src.len() {
        v.push(digit(src[i] >> 4, a));
        v.push(digit(src[i] & 15, a));
        i += 1;
    }
    v
}
fn dec(src: &[u8], out: &mut [u8]) -> Result<(), FromHexError> {
    let (mut bad, mut at) = (false, 0);
    let mut i = 0;
    while i < out.len() {
        let (h, l) = (val(src[2 * i]), val(src[2 * i + 1]));
        out[i] = h << 4 | (l & 15);
        if !bad && (h | l) == 0xff {
            bad = true;
            at = 2 * i + (h != 0xff) as usize;
        }
        i += 1;
    }
    if bad { Err(FromHexError::InvalidHexCharacter { c: src[at] as char, index: at }) } else { Ok(()) }
}

pub trait ToHex {
    fn encode_hex<T: std::iter::FromIterator<char>>(&self) -> T;
    fn encode_hex_upper<T: std::iter::FromIterator<char>>(&self) -> T;
}
impl<D: AsRef<[u8]>> ToHex for D {
    fn encode_hex<T: std::iter::FromIterator<char>>(&self) -> T {
        enc(self.as_ref(), b'a').into_iter().map(|c| c as char).collect()
    }
    fn encode_hex_upper<T: std::iter::FromIterator<char>>(&self) -> T {
        enc(self.as_ref(), b'A').into_iter().map(|c| c as char).collect()
    }
}
pub trait FromHex: Sized {
    type Error;
    fn from_hex<T: AsRef<[u8]>>(hex: T) -> Result<Self, Self::Error>;
}
impl FromHex for Vec<u8> {
    type Error = FromHexError;
    fn from_hex<T: AsRef<[u8]>>(hex: T) -> Result<Self, FromHexError> {
        let s = hex.as_ref();
        if s.len() % 2 != 0 {
            return Err(FromHexError::OddLength);
        }
        let mut v = vec![0; s.len() / 2];
        dec(s, &mut v)?;
        Ok(v)
    }
}
impl<const N: usize> FromHex for [u8; N] {
    type Error = FromHexError;
    fn from_hex<T: AsRef<[u8]>>(hex: T) -> Result<Self, FromHexError> {
        let mut out = [0; N];
        decode_to_slice(hex, &mut out)?;
        Ok(out)
    }
}
pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
    unsafe { String::from_utf8_unchecked(enc(data.as_ref(), b'a')) }
}
pub fn encode_upper<T: AsRef<[u8]>>(data: T) -> String {
    unsafe { String::from_utf8_unchecked(enc(data.as_ref(), b'A')) }
}
pub fn decode<T: AsRef<[u8]>>(data: T) -> Result<Vec<u8>, FromHexError> {
    FromHex::from_hex(data)
}
pub fn decode_to_slice<T: AsRef<[u8]>>(data: T, out: &mut [u8]) -> Result<(), FromHexError> {
    let s = data.as_ref();
    if s.len() % 2 != 0 {
        return Err(FromHexError::OddLength);
    }
    if s.len() / 2 != out.len() {
        return Err(FromHexError::InvalidStringLength);
    }
    dec(s, out)
}
pub fn encode_to_slice<T: AsRef<[u8]>>(input: T, output: &mut [u8]) -> Result<(), FromHexError> {
    let s = input.as_ref();
    if s.len() * 2 != output.len() {
        return Err(FromHexError::InvalidStringLength);
    }
    output.copy_from_slice(&enc(s, b'a'));
    Ok(())
}
