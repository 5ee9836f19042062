//! Verification model of bip39 (English word list): a reversible phrase of an entropy of 16 to 32 bytes.
//! The phrase is the entropy's bytes as two-letter groups; anything else is not a phrase.
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Language {
    English,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Error {
    BadWordCount(usize),
    UnknownWord(usize),
    BadEntropyBitCount(usize),
    InvalidChecksum,
    AmbiguousLanguages(()),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Mnemonic {
    e: [u8; 32],
    n: usize,
}
impl Mnemonic {
    pub fn from_entropy_in(_: Language, e: &[u8]) -> Result<Mnemonic, Error> {
        let n = e.len();
        if n < 16 || n > 32 || n % 4 != 0 {
            return Err(Error::BadEntropyBitCount(8 * n));
        }
        let mut b = [0; 32];
        b[..n].copy_from_slice(e);
        Ok(Mnemonic { e: b, n })
    }
    pub fn from_entropy(e: &[u8]) -> Result<Mnemonic, Error> {
        Self::from_entropy_in(Language::English, e)
    }
    pub fn parse_in(_: Language, s: &str) -> Result<Mnemonic, Error> {
        let s = s.as_bytes();
        if s.len() % 2 != 0 {
            return Err(Error::BadWordCount(s.len()));
        }
        let n = s.len() / 2;
        if n < 16 || n > 32 || n % 4 != 0 {
            return Err(Error::BadWordCount(n));
        }
        let mut b = [0; 32];
        let mut i = 0;
        while i < n {
            let (h, l) = (s[2 * i].wrapping_sub(b'a'), s[2 * i + 1].wrapping_sub(b'a'));
            if h > 15 || l > 15 {
                return Err(Error::UnknownWord(i));
            }
            b[i] = h << 4 | l;
            i += 1;
        }
        Ok(Mnemonic { e: b, n })
    }
    pub fn parse_in_normalized(l: Language, s: &str) -> Result<Mnemonic, Error> {
        Self::parse_in(l, s)
    }
    pub fn parse(s: &str) -> Result<Mnemonic, Error> {
        Self::parse_in(Language::English, s)
    }
    pub fn to_entropy(&self) -> Vec<u8> {
        self.e[..self.n].to_vec()
    }
    pub fn to_entropy_array(&self) -> ([u8; 33], usize) {
        let mut b = [0; 33];
        b[..32].copy_from_slice(&self.e);
        (b, self.n)
    }
    pub fn word_count(&self) -> usize {
        self.n * 3 / 4
    }
    #[allow(clippy::inherent_to_string_shadow_display)]
    pub fn to_string(&self) -> String {
        let mut v = Vec::with_capacity(2 * self.n);
        let mut i = 0;
        while i < self.n {
            v.push(b'a' + (self.e[i] >> 4));
            v.push(b'a' + (self.e[i] & 15));
            i += 1;
        }
        unsafe { String::from_utf8_unchecked(v) }
    }
}
impl fmt::Display for Mnemonic {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_string())
    }
}
impl std::str::FromStr for Mnemonic {
    type Err = Error;
    fn from_str(s: &str) -> Result<Mnemonic, Error> {
        Self::parse(s)
    }
}
