//! Reference model of the data types: generators of symbolic values and reference encoders, written from
//! the protocol's field order and independent of the implementation's encoders.
use crate::sym::*;
use sia::consensus::*;
use sia::encoding::*;
use sia::signing::{PublicKey, Signature};
use sia::types::*;
use std::io::{self, Read, Write};
use std::mem::ManuallyDrop;
use time::{Duration, OffsetDateTime};

// ---- sinks ----------------------------------------------------------------------------------------

/// Where reference encodings go. `num`/`tag` carry structure (lengths, counts, discriminants).
pub trait Sink {
    fn put(&mut self, b: &[u8]);
    fn num(&mut self, v: usize) {
        self.put(&(v as u64).to_le_bytes())
    }
    fn tag(&mut self, v: u8) {
        self.put(&[v])
    }
}
impl<const N: usize> Sink for Out<N> {
    fn put(&mut self, b: &[u8]) {
        Out::put(self, b);
    }
}

impl Sink for Msg {
    fn put(&mut self, b: &[u8]) {
        Msg::put(self, b);
    }
}

const MARKS: usize = 40;
/// An encoded message together with the structural numbers it contains, so that a reader hands them out as
/// the constants they are (a speed-up for the symbolic executor; the bytes are the same).
pub struct Tape<const N: usize> {
    pub o: Out<N>,
    at: [usize; MARKS],
    val: [u64; MARKS],
    wid: [u8; MARKS],
    m: usize,
}
impl<const N: usize> Tape<N> {
    pub fn new() -> Self {
        Tape { o: Out::new(), at: [0; MARKS], val: [0; MARKS], wid: [0; MARKS], m: 0 }
    }
    fn mark(&mut self, v: u64, w: u8) {
        assert!(self.m < MARKS, "model limit: too many structural marks");
        self.at[self.m] = self.o.n;
        self.val[self.m] = v;
        self.wid[self.m] = w;
        self.m += 1;
    }
    pub fn rd(&self) -> TapeReader<'_, N> {
        // (one byte more than the encoding: reading past it does not go unnoticed)
        assert!(self.o.n < N, "model limit: harness buffer too small");
        TapeReader { t: self, p: 0, k: 0, end: self.o.n + 1 }
    }
    /// a reader of the first `n` bytes only
    pub fn cut(&self, n: usize) -> TapeReader<'_, N> {
        TapeReader { t: self, p: 0, k: 0, end: n }
    }
}
impl<const N: usize> Sink for Tape<N> {
    fn put(&mut self, b: &[u8]) {
        self.o.put(b);
    }
    fn num(&mut self, v: usize) {
        self.mark(v as u64, 8);
        self.o.put(&(v as u64).to_le_bytes());
    }
    fn tag(&mut self, v: u8) {
        self.mark(v as u64, 1);
        self.o.put(&[v]);
    }
}
pub struct TapeReader<'a, const N: usize> {
    t: &'a Tape<N>,
    pub p: usize,
    k: usize,
    end: usize,
}
impl<const N: usize> TapeReader<'_, N> {
    /// exactly the encoding has been read
    pub fn done(&self) -> bool {
        self.p == self.t.o.n
    }
    fn get(&mut self, b: &mut [u8]) {
        while self.k < self.t.m && self.t.at[self.k] < self.p {
            self.k += 1;
        }
        if self.k < self.t.m && self.t.at[self.k] == self.p && self.t.wid[self.k] as usize == b.len() {
            let v = self.t.val[self.k].to_le_bytes();
            b.copy_from_slice(&v[..b.len()]);
        } else {
            copy_bytes(b, 0, &self.t.o.b, self.p, b.len());
        }
        self.p += b.len();
    }
}
impl<const N: usize> Read for TapeReader<'_, N> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = if b.len() < self.end - self.p { b.len() } else { self.end - self.p };
        self.get(&mut b[..k]);
        Ok(k)
    }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> {
        if b.len() > self.end - self.p {
            self.p = self.end;
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        self.get(b);
        Ok(())
    }
}

// ---- generators -----------------------------------------------------------------------------------

/// Shape of a generated value: list lengths and variants are concrete, taken from `shape` in order
/// (then 0); everything else is symbolic. Currencies are symbolic unless `cur` is set, in which case they
/// are distinct constants of different encoded lengths.
pub struct C {
    shape: &'static [u8],
    i: usize,
    cur: bool,
    ind: bool,
    nc: usize,
}
pub const CURS: [u128; 8] =
    [0x51, 0, 0xffff, 0x0102030405060708090a0b0c0d0e0f10, 0x100, 0x8000000000, 0xabcdef0123456789, 0x77];
impl C {
    pub fn new(shape: &'static [u8]) -> C {
        C { shape, i: 0, cur: false, ind: false, nc: 0 }
    }
    pub fn v1(shape: &'static [u8]) -> C {
        C { shape, i: 0, cur: true, ind: false, nc: 0 }
    }
    /// as `v1`, with constant list indices too (decoding them is fallible, so that a list of symbolic ones makes
    /// the rest of a decode conditional)
    pub fn v1i(shape: &'static [u8]) -> C {
        C { shape, i: 0, cur: true, ind: true, nc: 0 }
    }
    pub fn len(&mut self) -> usize {
        let v = if self.i < self.shape.len() { self.shape[self.i] as usize } else { 0 };
        self.i += 1;
        v
    }
}
pub trait G: Sized {
    fn g(c: &mut C) -> Self;
}
/// v2 wire form
pub trait E2 {
    fn e2<S: Sink>(&self, o: &mut S);
}
/// v1 wire form
pub trait E1 {
    fn e1<S: Sink>(&self, o: &mut S);
}

impl G for u64 {
    fn g(_: &mut C) -> Self {
        u64_()
    }
}
impl G for usize {
    fn g(c: &mut C) -> Self {
        if c.ind {
            c.nc += 1;
            [7, 0x0102030405060708, usize::MAX, 0x8000][c.nc % 4]
        } else {
            usize_()
        }
    }
}
impl G for u8 {
    fn g(_: &mut C) -> Self {
        u8_()
    }
}
impl G for bool {
    fn g(_: &mut C) -> Self {
        bool_()
    }
}
macro_rules! small { ($($t:ty, $f:ident;)*) => { $(
    impl G for $t { fn g(_: &mut C) -> Self { $f() } }
    impl E1 for $t { fn e1<S: Sink>(&self, o: &mut S) { o.put(&(*self as i64).to_le_bytes()) } }
    impl E2 for $t { fn e2<S: Sink>(&self, o: &mut S) { o.put(&(*self as i64).to_le_bytes()) } }
)* } }
small!(u16, u16_; u32, u32_; i16, i16_; i32, i32_; i64, i64_;);
impl E2 for usize {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(&(*self as u64).to_le_bytes())
    }
}
impl E2 for bool {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(&[if *self { 1 } else { 0 }])
    }
}
impl<const N: usize> G for [u8; N] {
    fn g(_: &mut C) -> Self {
        bytes()
    }
}
impl<const N: usize> E1 for [u8; N] {
    fn e1<S: Sink>(&self, o: &mut S) {
        o.put(self)
    }
}
impl<const N: usize> E2 for [u8; N] {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(self)
    }
}
impl<const N: usize> Q for [u8; N] {
    fn q(&self, w: &Self) -> bool {
        let (mut i, mut eq) = (0, true);
        while i < N {
            eq &= self[i] == w[i];
            i += 1;
        }
        eq
    }
}
impl<T: E1> E1 for Option<T> {
    fn e1<S: Sink>(&self, o: &mut S) {
        match self {
            None => o.tag(0),
            Some(v) => {
                o.tag(1);
                v.e1(o)
            }
        }
    }
}
impl E1 for String {
    fn e1<S: Sink>(&self, o: &mut S) {
        self.e2(o)
    }
}
impl<T: G> G for Vec<T> {
    fn g(c: &mut C) -> Self {
        let n = c.len();
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            v.push(T::g(c));
            i += 1;
        }
        v
    }
}
impl<T: G> G for Option<T> {
    fn g(c: &mut C) -> Self {
        if c.len() == 1 {
            Some(T::g(c))
        } else {
            None
        }
    }
}
impl G for String {
    fn g(c: &mut C) -> Self {
        let v = Vec::<u8>::g(c);
        let mut i = 0;
        while i < v.len() {
            assume(v[i] < 128);
            i += 1;
        }
        unsafe { String::from_utf8_unchecked(v) }
    }
}
impl G for Currency {
    fn g(c: &mut C) -> Self {
        if c.cur {
            let v = CURS[c.nc % 8];
            c.nc += 1;
            Currency::new(v)
        } else {
            Currency::new(u128_())
        }
    }
}
macro_rules! plain { ($($t:ty, $n:literal);*) => { $( impl G for $t { fn g(_: &mut C) -> Self { <$t>::from(bytes::<$n>()) } } )* } }
plain!(Hash256, 32; SiacoinOutputID, 32; SiafundOutputID, 32; AttestationID, 32; BlockID, 32; TransactionID, 32;
       FileContractID, 32; Address, 32; Leaf, 64; Signature, 64);
impl G for PublicKey {
    fn g(_: &mut C) -> Self {
        PublicKey::new(bytes())
    }
}
impl G for Specifier {
    fn g(_: &mut C) -> Self {
        Specifier::new(bytes())
    }
}
impl G for Work {
    fn g(_: &mut C) -> Self {
        Work([u64_(), u64_(), u64_(), u64_()])
    }
}

macro_rules! raw_enc { ($($t:ty, $n:literal);*) => { $(
    impl E2 for $t { fn e2<S: Sink>(&self, o: &mut S) { o.put(unsafe { &*(self as *const $t as *const [u8; $n]) }) } }
    impl E1 for $t { fn e1<S: Sink>(&self, o: &mut S) { self.e2(o) } }
)* } }
raw_enc!(Leaf, 64);
macro_rules! ref_enc { ($($t:ty, $v:ident => $e:expr);*) => { $(
    impl E2 for $t { fn e2<S: Sink>(&self, o: &mut S) { let $v = self; o.put($e) } }
    impl E1 for $t { fn e1<S: Sink>(&self, o: &mut S) { self.e2(o) } }
)* } }
ref_enc!(Hash256, x => AsRef::<[u8]>::as_ref(x); SiacoinOutputID, x => AsRef::<[u8]>::as_ref(x); SiafundOutputID, x => AsRef::<[u8]>::as_ref(x);
    AttestationID, x => AsRef::<[u8]>::as_ref(x); BlockID, x => AsRef::<[u8]>::as_ref(x); TransactionID, x => AsRef::<[u8]>::as_ref(x);
    FileContractID, x => AsRef::<[u8]>::as_ref(x); Address, x => AsRef::<[u8]>::as_ref(x); PublicKey, x => AsRef::<[u8]>::as_ref(x);
    Signature, x => x.data(); Specifier, x => x.as_bytes());
impl E2 for u64 {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(&self.to_le_bytes())
    }
}
impl E1 for u64 {
    fn e1<S: Sink>(&self, o: &mut S) {
        o.put(&self.to_le_bytes())
    }
}
impl E1 for usize {
    fn e1<S: Sink>(&self, o: &mut S) {
        o.put(&(*self as u64).to_le_bytes())
    }
}
impl E1 for bool {
    fn e1<S: Sink>(&self, o: &mut S) {
        o.put(&[if *self { 1 } else { 0 }])
    }
}
impl E2 for u8 {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(&[*self])
    }
}
impl E1 for u8 {
    fn e1<S: Sink>(&self, o: &mut S) {
        o.put(&[*self])
    }
}
impl<T: E2> E2 for Vec<T> {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.num(self.len());
        let mut i = 0;
        while i < self.len() {
            self[i].e2(o);
            i += 1;
        }
    }
}
impl<T: E1> E1 for Vec<T> {
    fn e1<S: Sink>(&self, o: &mut S) {
        o.num(self.len());
        let mut i = 0;
        while i < self.len() {
            self[i].e1(o);
            i += 1;
        }
    }
}
impl<T: E2> E2 for Option<T> {
    fn e2<S: Sink>(&self, o: &mut S) {
        match self {
            None => o.tag(0),
            Some(v) => {
                o.tag(1);
                v.e2(o)
            }
        }
    }
}
impl E2 for String {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.num(self.len());
        o.put(self.as_bytes())
    }
}
impl E2 for Currency {
    fn e2<S: Sink>(&self, o: &mut S) {
        let v: u128 = **self;
        o.put(&v.to_le_bytes())
    }
}
impl E1 for Currency {
    fn e1<S: Sink>(&self, o: &mut S) {
        let v: u128 = **self;
        let n = 16 - (v.leading_zeros() / 8) as usize;
        o.num(n);
        o.put(&v.to_be_bytes()[16 - n..])
    }
}
impl E2 for Work {
    fn e2<S: Sink>(&self, o: &mut S) {
        let mut i = 4;
        while i > 0 {
            i -= 1;
            o.put(&self.0[i].to_be_bytes())
        }
    }
}
impl E1 for Work {
    fn e1<S: Sink>(&self, o: &mut S) {
        self.e2(o)
    }
}
impl E2 for OffsetDateTime {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(&self.unix_timestamp().to_le_bytes())
    }
}
impl E2 for Duration {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.put(&(self.whole_nanoseconds() as u64).to_le_bytes())
    }
}
/// any representable time (whole seconds)
pub const TIME_MIN: i64 = -377705116800;
pub const TIME_MAX: i64 = 253402300799;
impl G for OffsetDateTime {
    fn g(_: &mut C) -> Self {
        let t = i64_();
        assume(t >= TIME_MIN && t <= TIME_MAX);
        OffsetDateTime::from_unix_timestamp(t).unwrap()
    }
}
impl G for Duration {
    fn g(_: &mut C) -> Self {
        let t = i64_();
        assume(t >= 0);
        Duration::nanoseconds(t)
    }
}

macro_rules! gen_struct { ($($t:path { $($f:ident)* })*) => { $(
    impl G for $t { fn g(c: &mut C) -> Self { $( let $f = G::g(c); )* $t { $($f),* } } }
)* } }
macro_rules! enc2 { ($($t:path { $($f:ident)* })*) => { $(
    impl E2 for $t { fn e2<S: Sink>(&self, o: &mut S) { $( self.$f.e2(o); )* } }
)* } }
macro_rules! enc1 { ($($t:path { $($f:ident)* })*) => { $(
    impl E1 for $t { fn e1<S: Sink>(&self, o: &mut S) { $( self.$f.e1(o); )* } }
)* } }

/// (both values of the flag are covered by shapes: a symbolic one makes the rest of a decode conditional)
impl G for v1::CoveredFields {
    fn g(c: &mut C) -> Self {
        v1::CoveredFields {
            whole_transaction: c.len() == 1,
            siacoin_inputs: G::g(c),
            siacoin_outputs: G::g(c),
            file_contracts: G::g(c),
            file_contract_revisions: G::g(c),
            storage_proofs: G::g(c),
            siafund_inputs: G::g(c),
            siafund_outputs: G::g(c),
            miner_fees: G::g(c),
            arbitrary_data: G::g(c),
            signatures: G::g(c),
        }
    }
}
impl G for SiafundOutput {
    fn g(c: &mut C) -> Self {
        SiafundOutput { value: if c.cur { c.nc += 1; [0x2710, 0, 0xff][c.nc % 3] } else { u64_() }, address: G::g(c) }
    }
}
gen_struct! {
    SiacoinOutput { value address }
    StateElement { leaf_index merkle_proof }
    ChainIndex { height id }
    v1::UnlockKey { algorithm key }
    v1::UnlockConditions { timelock public_keys signatures_required }
    v1::SiacoinInput { parent_id unlock_conditions }
    v1::SiafundInput { parent_id unlock_conditions claim_address }
    v1::FileContract { file_size file_merkle_root window_start window_end payout valid_proof_outputs missed_proof_outputs unlock_hash revision_number }
    v1::FileContractRevision { parent_id unlock_conditions revision_number file_size file_merkle_root window_start window_end valid_proof_outputs missed_proof_outputs unlock_hash }
    v1::StorageProof { parent_id leaf proof }
    v1::TransactionSignature { parent_id public_key_index timelock covered_fields signature }
    v1::Transaction { siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures }
    v2::Attestation { public_key key value signature }
    v2::FileContract { capacity filesize file_merkle_root proof_height expiration_height renter_output host_output missed_host_value total_collateral renter_public_key host_public_key revision_number renter_signature host_signature }
    v2::SiacoinElement { state_element id siacoin_output maturity_height }
    v2::SiafundElement { state_element id siafund_output claim_start }
    v2::FileContractElement { state_element id v2_file_contract }
    v2::ChainIndexElement { state_element id chain_index }
    v2::SiacoinInput { parent satisfied_policy }
    v2::SiafundInput { parent claim_address satisfied_policy }
    v2::FileContractRevision { parent revision }
    v2::FileContractRenewal { final_revision new_contract renter_rollover host_rollover renter_signature host_signature }
    v2::StorageProof { proof_index leaf proof }
    v2::FileContractResolution { parent resolution }
    v2::SatisfiedPolicy { policy signatures preimages }
    Block { parent_id nonce timestamp miner_payouts transactions }
}
enc2! {
    SiacoinOutput { value address }
    SiafundOutput { value address }
    StateElement { leaf_index merkle_proof }
    ChainIndex { height id }
    v1::UnlockKey { algorithm key }
    v1::UnlockConditions { timelock public_keys signatures_required }
    v2::Attestation { public_key key value signature }
    v2::FileContract { capacity filesize file_merkle_root proof_height expiration_height renter_output host_output missed_host_value total_collateral renter_public_key host_public_key revision_number renter_signature host_signature }
    v2::SiacoinElement { state_element id siacoin_output maturity_height }
    v2::SiafundElement { state_element id siafund_output claim_start }
    v2::FileContractElement { state_element id v2_file_contract }
    v2::ChainIndexElement { state_element id chain_index }
    v2::SiacoinInput { parent satisfied_policy }
    v2::SiafundInput { parent claim_address satisfied_policy }
    v2::FileContractRevision { parent revision }
    v2::FileContractRenewal { final_revision new_contract renter_rollover host_rollover renter_signature host_signature }
    v2::StorageProof { proof_index leaf proof }
    v2::SatisfiedPolicy { policy signatures preimages }
}
enc1! {
    SiacoinOutput { value address }
    v1::UnlockKey { algorithm key }
    v1::UnlockConditions { timelock public_keys signatures_required }
    v1::SiacoinInput { parent_id unlock_conditions }
    v1::SiafundInput { parent_id unlock_conditions claim_address }
    v1::FileContract { file_size file_merkle_root window_start window_end payout valid_proof_outputs missed_proof_outputs unlock_hash revision_number }
    v1::FileContractRevision { parent_id unlock_conditions revision_number file_size file_merkle_root window_start window_end valid_proof_outputs missed_proof_outputs unlock_hash }
    v1::StorageProof { parent_id leaf proof }
    v1::CoveredFields { whole_transaction siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures }
    v1::TransactionSignature { parent_id public_key_index timelock covered_fields signature }
    v1::Transaction { siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures }
}
impl E1 for SiafundOutput {
    fn e1<S: Sink>(&self, o: &mut S) {
        Currency::new(self.value as u128).e1(o);
        self.address.e1(o);
        o.num(0); // claim start
    }
}
impl E1 for Block {
    fn e1<S: Sink>(&self, o: &mut S) {
        self.parent_id.e1(o);
        self.nonce.e1(o);
        self.timestamp.e2(o);
        self.miner_payouts.e1(o);
        self.transactions.e1(o);
    }
}
impl E2 for v2::FileContractResolution {
    fn e2<S: Sink>(&self, o: &mut S) {
        self.parent.e2(o);
        match &self.resolution {
            v2::ContractResolution::Renewal(r) => {
                o.tag(0);
                r.e2(o)
            }
            v2::ContractResolution::StorageProof(r) => {
                o.tag(1);
                r.e2(o)
            }
            v2::ContractResolution::Expiration() => o.tag(2),
        }
    }
}
impl G for v2::ContractResolution {
    fn g(c: &mut C) -> Self {
        match c.len() {
            0 => v2::ContractResolution::Renewal(G::g(c)),
            1 => v2::ContractResolution::StorageProof(G::g(c)),
            _ => v2::ContractResolution::Expiration(),
        }
    }
}
/// the last number of the shape is the fee: 0 none, 1 a constant, 2 any
impl G for v2::Transaction {
    fn g(c: &mut C) -> Self {
        v2::Transaction {
            siacoin_inputs: G::g(c),
            siacoin_outputs: G::g(c),
            siafund_inputs: G::g(c),
            siafund_outputs: G::g(c),
            file_contracts: G::g(c),
            file_contract_revisions: G::g(c),
            file_contract_resolutions: G::g(c),
            attestations: G::g(c),
            arbitrary_data: G::g(c),
            new_foundation_address: G::g(c),
            miner_fee: match c.len() {
                0 => Currency::new(0),
                1 => Currency::new(0x0123456789abcdef0123456789abcdef),
                _ => Currency::new(u128_()),
            },
        }
    }
}
impl G for State {
    fn g(c: &mut C) -> Self {
        let height = match c.len() {
            0 => u64::MAX,
            n => n as u64 - 1,
        };
        let index = ChainIndex { height, id: G::g(c) };
        let nt = c.len();
        let mut prev_timestamps = [OffsetDateTime::UNIX_EPOCH; 11];
        let mut i = 0;
        while i < nt {
            // (all values: the last one here, and the timestamp's own harness)
            prev_timestamps[i] = if i + 1 == nt {
                G::g(c)
            } else {
                OffsetDateTime::from_unix_timestamp(1433600000 + 0x1234567 * i as i64).unwrap()
            };
            i += 1;
        }
        State {
            index,
            prev_timestamps,
            depth: G::g(c),
            child_target: G::g(c),
            siafund_pool: G::g(c),
            oak_time: G::g(c),
            oak_target: G::g(c),
            foundation_primary_address: G::g(c),
            foundation_failsafe_address: G::g(c),
            total_work: G::g(c),
            difficulty: G::g(c),
            oak_work: G::g(c),
            elements: G::g(c),
            attestations: u64_(),
        }
    }
}
pub const LEAVES: [u64; 4] = [0, 1, 0x8000000000000004, 0b1011];
impl G for ElementAccumulator {
    fn g(c: &mut C) -> Self {
        let num_leaves = LEAVES[c.len()];
        let mut trees = [Hash256::default(); 64];
        let mut i = 0;
        while i < 64 {
            if num_leaves >> i & 1 == 1 {
                trees[i] = G::g(c);
            }
            i += 1;
        }
        ElementAccumulator { num_leaves, trees }
    }
}
impl E2 for ElementAccumulator {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.num(self.num_leaves as usize);
        let mut i = 0;
        while i < 64 {
            if self.num_leaves >> i & 1 == 1 {
                self.trees[i].e2(o);
            }
            i += 1;
        }
    }
}
impl E2 for State {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.num(self.index.height as usize);
        self.index.id.e2(o);
        // height + 1 wraps at the genesis parent
        let h = if self.index.height == u64::MAX { 0 } else { self.index.height + 1 };
        let n = if h < 11 { h } else { 11 };
        let mut i = 0;
        while i < n {
            self.prev_timestamps[i as usize].e2(o);
            i += 1;
        }
        self.depth.e2(o);
        self.child_target.e2(o);
        self.siafund_pool.e2(o);
        self.oak_time.e2(o);
        self.oak_target.e2(o);
        self.foundation_primary_address.e2(o);
        self.foundation_failsafe_address.e2(o);
        self.total_work.e2(o);
        self.difficulty.e2(o);
        self.oak_work.e2(o);
        self.elements.e2(o);
        self.attestations.e2(o);
    }
}
/// shape: kind (1 above, 2 after, 3 key, 4 hash, 5 threshold, 6 opaque, 7 unlock conditions), then the parts
impl G for v2::SpendPolicy {
    #[allow(deprecated)]
    fn g(c: &mut C) -> Self {
        match c.len() {
            2 => v2::SpendPolicy::After(G::g(c)),
            3 => v2::SpendPolicy::PublicKey(G::g(c)),
            4 => v2::SpendPolicy::Hash(G::g(c)),
            5 => v2::SpendPolicy::Threshold(u8_(), G::g(c)),
            6 => v2::SpendPolicy::Opaque(G::g(c)),
            7 => v2::SpendPolicy::UnlockConditions(G::g(c)),
            _ => v2::SpendPolicy::Above(G::g(c)),
        }
    }
}
#[allow(deprecated)]
fn policy_body<S: Sink>(p: &v2::SpendPolicy, o: &mut S) {
    match p {
        v2::SpendPolicy::Above(h) => {
            o.tag(1);
            h.e2(o)
        }
        v2::SpendPolicy::After(t) => {
            o.tag(2);
            t.e2(o)
        }
        v2::SpendPolicy::PublicKey(k) => {
            o.tag(3);
            k.e2(o)
        }
        v2::SpendPolicy::Hash(h) => {
            o.tag(4);
            h.e2(o)
        }
        v2::SpendPolicy::Threshold(n, of) => {
            o.tag(5);
            n.e2(o);
            o.tag(of.len() as u8);
            let mut i = 0;
            while i < of.len() {
                policy_body(&of[i], o);
                i += 1;
            }
        }
        v2::SpendPolicy::Opaque(a) => {
            o.tag(6);
            a.e2(o)
        }
        v2::SpendPolicy::UnlockConditions(uc) => {
            o.tag(7);
            uc.e2(o)
        }
    }
}
impl E2 for v2::SpendPolicy {
    fn e2<S: Sink>(&self, o: &mut S) {
        o.tag(1);
        policy_body(self, o)
    }
}
impl E2 for v2::Transaction {
    fn e2<S: Sink>(&self, o: &mut S) {
        let has = [
            self.siacoin_inputs.len() > 0,
            self.siacoin_outputs.len() > 0,
            self.siafund_inputs.len() > 0,
            self.siafund_outputs.len() > 0,
            self.file_contracts.len() > 0,
            self.file_contract_revisions.len() > 0,
            self.file_contract_resolutions.len() > 0,
            self.attestations.len() > 0,
            self.arbitrary_data.len() > 0,
            self.new_foundation_address.is_some(),
            *self.miner_fee != 0,
        ];
        o.tag(2);
        let (mut f, mut i) = (0usize, 0);
        while i < 11 {
            if has[i] {
                f |= 1 << i;
            }
            i += 1;
        }
        o.num(f);
        if has[0] {
            self.siacoin_inputs.e2(o)
        }
        if has[1] {
            self.siacoin_outputs.e2(o)
        }
        if has[2] {
            self.siafund_inputs.e2(o)
        }
        if has[3] {
            self.siafund_outputs.e2(o)
        }
        if has[4] {
            self.file_contracts.e2(o)
        }
        if has[5] {
            self.file_contract_revisions.e2(o)
        }
        if has[6] {
            self.file_contract_resolutions.e2(o)
        }
        if has[7] {
            self.attestations.e2(o)
        }
        if has[8] {
            self.arbitrary_data.e2(o)
        }
        if let Some(a) = &self.new_foundation_address {
            a.e2(o)
        }
        if has[10] {
            self.miner_fee.e2(o)
        }
    }
}

// ---- comparison -----------------------------------------------------------------------------------

/// Equality, driven by the structure of `self` (which the symbolic executor knows), field by field.
pub trait Q {
    fn q(&self, w: &Self) -> bool;
}
macro_rules! prim_q { ($($t:ty),*) => { $( impl Q for $t { fn q(&self, w: &Self) -> bool { *self == *w } } )* } }
prim_q!(u8, u64, u128, usize, bool, i64, u16, u32, i16, i32);
macro_rules! bytes_q { ($($t:ty, $n:literal);*) => { $( impl Q for $t {
    fn q(&self, w: &Self) -> bool { unsafe { eqb::<$n>(self as *const $t as *const u8, w as *const $t as *const u8) } }
} )* } }
bytes_q!(Hash256, 32; SiacoinOutputID, 32; SiafundOutputID, 32; AttestationID, 32; BlockID, 32; TransactionID, 32;
       FileContractID, 32; Address, 32; Leaf, 64; Signature, 64; PublicKey, 32; Specifier, 16; Currency, 16; Work, 32);
/// equality of N = 16, 32 or 64 bytes without a loop
unsafe fn eqb<const N: usize>(a: *const u8, b: *const u8) -> bool {
    if N == 16 {
        let (a, b) = (&*(a as *const U), &*(b as *const U));
        a.0 == b.0
    } else if N == 32 {
        let (a, b) = (&*(a as *const [U; 2]), &*(b as *const [U; 2]));
        a[0].0 == b[0].0 && a[1].0 == b[1].0
    } else {
        let (a, b) = (&*(a as *const [U; 4]), &*(b as *const [U; 4]));
        a[0].0 == b[0].0 && a[1].0 == b[1].0 && a[2].0 == b[2].0 && a[3].0 == b[3].0
    }
}
impl<T: Q> Q for Vec<T> {
    fn q(&self, w: &Self) -> bool {
        let n = self.len();
        if w.len() != n {
            return false;
        }
        let (mut i, mut eq) = (0, true);
        while i < n {
            eq &= self[i].q(&w[i]);
            i += 1;
        }
        eq
    }
}
impl Q for String {
    fn q(&self, w: &Self) -> bool {
        let (a, b) = (self.as_bytes(), w.as_bytes());
        if b.len() != a.len() {
            return false;
        }
        let (mut i, mut eq) = (0, true);
        while i < a.len() {
            eq &= a[i] == b[i];
            i += 1;
        }
        eq
    }
}
impl<T: Q> Q for Option<T> {
    fn q(&self, w: &Self) -> bool {
        match self {
            None => w.is_none(),
            Some(a) => match w {
                None => false,
                Some(b) => a.q(b),
            },
        }
    }
}
impl Q for OffsetDateTime {
    fn q(&self, w: &Self) -> bool {
        *self == *w
    }
}
impl Q for Duration {
    fn q(&self, w: &Self) -> bool {
        *self == *w
    }
}
impl Q for v2::ContractResolution {
    fn q(&self, w: &Self) -> bool {
        use v2::ContractResolution::*;
        match self {
            Renewal(a) => if let Renewal(b) = w { a.q(b) } else { false },
            StorageProof(a) => if let StorageProof(b) = w { a.q(b) } else { false },
            Expiration() => if let Expiration() = w { true } else { false },
        }
    }
}
impl Q for v2::SpendPolicy {
    #[allow(deprecated)]
    fn q(&self, w: &Self) -> bool {
        use v2::SpendPolicy::*;
        match self {
            Above(a) => if let Above(b) = w { a.q(b) } else { false },
            After(a) => if let After(b) = w { a.q(b) } else { false },
            PublicKey(a) => if let PublicKey(b) = w { a.q(b) } else { false },
            Hash(a) => if let Hash(b) = w { a.q(b) } else { false },
            Threshold(m, a) => if let Threshold(n, b) = w { m.q(n) & a.q(b) } else { false },
            Opaque(a) => if let Opaque(b) = w { a.q(b) } else { false },
            UnlockConditions(a) => if let UnlockConditions(b) = w { a.q(b) } else { false },
        }
    }
}
macro_rules! cmp_struct { ($($t:path { $($f:ident)* })*) => { $(
    impl Q for $t { fn q(&self, w: &Self) -> bool { let mut eq = true; $( eq &= self.$f.q(&w.$f); )* eq } }
)* } }
impl Q for ElementAccumulator {
    fn q(&self, w: &Self) -> bool {
        let (mut i, mut eq) = (0, self.num_leaves == w.num_leaves);
        while i < 64 {
            eq &= self.trees[i].q(&w.trees[i]);
            i += 1;
        }
        eq
    }
}
impl Q for State {
    fn q(&self, w: &Self) -> bool {
        let (mut i, mut eq) = (0, self.index.q(&w.index));
        while i < 11 {
            eq &= self.prev_timestamps[i].q(&w.prev_timestamps[i]);
            i += 1;
        }
        eq & self.depth.q(&w.depth)
            & self.child_target.q(&w.child_target)
            & self.siafund_pool.q(&w.siafund_pool)
            & self.oak_time.q(&w.oak_time)
            & self.oak_target.q(&w.oak_target)
            & self.foundation_primary_address.q(&w.foundation_primary_address)
            & self.foundation_failsafe_address.q(&w.foundation_failsafe_address)
            & self.total_work.q(&w.total_work)
            & self.difficulty.q(&w.difficulty)
            & self.oak_work.q(&w.oak_work)
            & self.elements.q(&w.elements)
            & self.attestations.q(&w.attestations)
    }
}
cmp_struct! {
    SiacoinOutput { value address }
    SiafundOutput { value address }
    StateElement { leaf_index merkle_proof }
    ChainIndex { height id }
    v1::UnlockKey { algorithm key }
    v1::UnlockConditions { timelock public_keys signatures_required }
    v1::SiacoinInput { parent_id unlock_conditions }
    v1::SiafundInput { parent_id unlock_conditions claim_address }
    v1::FileContract { file_size file_merkle_root window_start window_end payout valid_proof_outputs missed_proof_outputs unlock_hash revision_number }
    v1::FileContractRevision { parent_id unlock_conditions revision_number file_size file_merkle_root window_start window_end valid_proof_outputs missed_proof_outputs unlock_hash }
    v1::StorageProof { parent_id leaf proof }
    v1::CoveredFields { whole_transaction siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures }
    v1::TransactionSignature { parent_id public_key_index timelock covered_fields signature }
    v1::Transaction { siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures }
    v2::Attestation { public_key key value signature }
    v2::FileContract { capacity filesize file_merkle_root proof_height expiration_height renter_output host_output missed_host_value total_collateral renter_public_key host_public_key revision_number renter_signature host_signature }
    v2::SiacoinElement { state_element id siacoin_output maturity_height }
    v2::SiafundElement { state_element id siafund_output claim_start }
    v2::FileContractElement { state_element id v2_file_contract }
    v2::ChainIndexElement { state_element id chain_index }
    v2::SiacoinInput { parent satisfied_policy }
    v2::SiafundInput { parent claim_address satisfied_policy }
    v2::FileContractRevision { parent revision }
    v2::FileContractRenewal { final_revision new_contract renter_rollover host_rollover renter_signature host_signature }
    v2::StorageProof { proof_index leaf proof }
    v2::FileContractResolution { parent resolution }
    v2::SatisfiedPolicy { policy signatures preimages }
    v2::Transaction { siacoin_inputs siacoin_outputs siafund_inputs siafund_outputs file_contracts file_contract_revisions file_contract_resolutions attestations arbitrary_data new_foundation_address miner_fee }
    Block { parent_id nonce timestamp miner_payouts transactions }
}

// ---- checks ---------------------------------------------------------------------------------------

impl<const N: usize> Out<N> {
    pub fn same(&self, o: &Out<N>) -> bool {
        if self.n != o.n {
            return false;
        }
        // both buffers are zero past n; N is a multiple of 16
        let (a, b) = unsafe {
            (
                std::slice::from_raw_parts(self.b.as_ptr() as *const U, N / 16),
                std::slice::from_raw_parts(o.b.as_ptr() as *const U, N / 16),
            )
        };
        let (mut eq, mut i) = (true, 0);
        while 16 * i < self.n {
            let (x, y) = (a[i], b[i]);
            eq &= x.0 == y.0;
            i += 1;
        }
        eq
    }
}
#[derive(Clone, Copy)]
#[repr(packed)]
struct U(u128);

/// the implementation writes exactly the reference encoding
pub fn layout2<T: SiaEncodable + E2, const N: usize>(v: T) {
    let v = ManuallyDrop::new(v);
    let (mut a, mut b) = (Out::<N>::new(), Out::<N>::new());
    v.e2(&mut b);
    let r = v.encode(&mut a);
    assert!(r.is_ok());
    assert!(a.same(&b));
}
pub fn layout1<T: V1SiaEncodable + E1, const N: usize>(v: T) {
    let v = ManuallyDrop::new(v);
    let (mut a, mut b) = (Out::<N>::new(), Out::<N>::new());
    v.e1(&mut b);
    let r = v.encode_v1(&mut a);
    assert!(r.is_ok());
    assert!(a.same(&b));
}
/// A reader of the bytes the encoder wrote. For the symbolic executor these are the reference encoding, which
/// knows its structure; should they differ, that is a candidate counterexample, and the native replay decides
/// with the bytes really written.
#[cfg(kani)]
fn decode_from<'a, const N: usize>(t: &'a Tape<N>, enc: &Out<N>) -> TapeReader<'a, N> {
    assert!(enc.same(&t.o), "encoding differs from the layout it is decoded in");
    t.rd()
}
#[cfg(not(kani))]
fn decode_from<'a, const N: usize>(_: &Tape<N>, enc: &Out<N>) -> TapeReader<'a, N> {
    let mut t = Box::new(Tape::<N>::new());
    t.o.put(enc.s());
    Box::leak(t).rd()
}
/// decoding the encoding consumes all of it and gives the value back
pub fn round2<T: SiaEncodable + SiaDecodable + E2 + Q, const N: usize>(v: T) {
    let v = ManuallyDrop::new(v);
    let mut t = Tape::<N>::new();
    v.e2(&mut t);
    let mut enc = Out::<N>::new();
    assert!(v.encode(&mut enc).is_ok());
    let mut r = decode_from(&t, &enc);
    let res = ManuallyDrop::new(T::decode(&mut r));
    match &*res {
        Ok(w) => {
            assert!(r.done());
            assert!(v.q(w));
        }
        Err(_) => assert!(false, "decoding an encoded value failed"),
    }
}
pub fn round1<T: V1SiaEncodable + V1SiaDecodable + E1 + Q, const N: usize>(v: T) {
    let v = ManuallyDrop::new(v);
    let mut t = Tape::<N>::new();
    v.e1(&mut t);
    let mut enc = Out::<N>::new();
    assert!(v.encode_v1(&mut enc).is_ok());
    let mut r = decode_from(&t, &enc);
    let res = ManuallyDrop::new(T::decode_v1(&mut r));
    match &*res {
        Ok(w) => {
            assert!(r.done());
            assert!(v.q(w));
        }
        Err(_) => assert!(false, "decoding an encoded value failed"),
    }
}

/// a bitwise copy (values are never dropped in the harnesses)
pub fn dup<T>(v: &T) -> ManuallyDrop<T> {
    unsafe { ManuallyDrop::new(std::ptr::read(v)) }
}
/// as `round2`, for a value whose encoding is already on the tape
pub fn round2_tape<T: SiaEncodable + SiaDecodable, const N: usize>(v: &T, t: &Tape<N>, eq: impl FnOnce(&T) -> bool) {
    let mut enc = Out::<N>::new();
    assert!(v.encode(&mut enc).is_ok());
    let mut r = decode_from(t, &enc);
    let res = ManuallyDrop::new(T::decode(&mut r));
    match &*res {
        Ok(w) => {
            assert!(r.done());
            assert!(eq(w));
        }
        Err(_) => assert!(false, "decoding an encoded value failed"),
    }
}

// ---- chain state ----------------------------------------------------------------------------------

pub fn network(asic: u64, foundation: u64, allow: u64) -> Network {
    let t = OffsetDateTime::UNIX_EPOCH;
    let a = || Address::new([0; 32]);
    Network {
        name: String::new(),
        initial_coinbase: Currency::new(0),
        minimum_coinbase: Currency::new(0),
        initial_target: BlockID::new([0; 32]),
        block_interval: Duration::nanoseconds(600_000_000_000),
        maturity_delay: 0,
        hardfork_dev_addr: HardforkDevAddr { height: 0, old_address: a(), new_address: a() },
        hardfork_tax: HardforkTax { height: 0 },
        hardfork_storage_proof: HardforkStorageProof { height: 0 },
        hardfork_oak: HardforkOak { height: 0, fix_height: 0, genesis_timestamp: t },
        hardfork_asic: HardforkASIC { height: asic, oak_time: Duration::nanoseconds(0), oak_target: BlockID::new([0; 32]) },
        hardfork_foundation: HardforkFoundation { height: foundation, primary_address: a(), failsafe_address: a() },
        hardfork_v2: HardforkV2 { allow_height: allow, require_height: 0 },
    }
}
pub fn state(height: u64) -> State {
    State {
        index: ChainIndex { height, id: BlockID::new([0; 32]) },
        prev_timestamps: [OffsetDateTime::UNIX_EPOCH; 11],
        depth: BlockID::new([0; 32]),
        child_target: BlockID::new([0; 32]),
        siafund_pool: Currency::new(0),
        oak_time: Duration::nanoseconds(0),
        oak_target: BlockID::new([0; 32]),
        foundation_primary_address: Address::new([0; 32]),
        foundation_failsafe_address: Address::new([0; 32]),
        total_work: Work([0; 4]),
        difficulty: Work([0; 4]),
        oak_work: Work([0; 4]),
        elements: ElementAccumulator { num_leaves: 0, trees: [Hash256::default(); 64] },
        attestations: 0,
    }
}
/// A chain in one of the four eras of replay protection, and that era's prefix (C14 decides which heights are
/// in which era; here the heights are constants so that the prefix has a constant length).
pub fn era(k: u8) -> (ManuallyDrop<ChainState>, &'static [u8]) {
    let (h, p): (u64, &'static [u8]) = match k {
        0 => (9, &[]),
        1 => (10, &[0]),
        2 => (25, &[1]),
        _ => (30, &[2]),
    };
    (ManuallyDrop::new(ChainState { network: network(10, 20, 30), state: state(h) }), p)
}
/// a legacy transaction without its signatures
pub fn no_sigs<S: Sink>(t: &v1::Transaction, o: &mut S) {
    t.siacoin_inputs.e1(o);
    t.siacoin_outputs.e1(o);
    t.file_contracts.e1(o);
    t.file_contract_revisions.e1(o);
    t.storage_proofs.e1(o);
    t.siafund_inputs.e1(o);
    t.siafund_outputs.e1(o);
    t.miner_fees.e1(o);
    t.arbitrary_data.e1(o)
}
// v2 "semantics": signatures zeroed, elements reduced to their IDs
pub fn fc_sem<S: Sink>(f: &v2::FileContract, o: &mut S) {
    f.capacity.e2(o);
    f.filesize.e2(o);
    f.file_merkle_root.e2(o);
    f.proof_height.e2(o);
    f.expiration_height.e2(o);
    f.renter_output.e2(o);
    f.host_output.e2(o);
    f.missed_host_value.e2(o);
    f.total_collateral.e2(o);
    f.renter_public_key.e2(o);
    f.host_public_key.e2(o);
    f.revision_number.e2(o);
    o.put(&[0; 128])
}
pub fn renewal_sem<S: Sink>(r: &v2::FileContractRenewal, o: &mut S) {
    fc_sem(&r.final_revision, o);
    fc_sem(&r.new_contract, o);
    r.renter_rollover.e2(o);
    r.host_rollover.e2(o);
    o.put(&[0; 128])
}
pub fn tx_sem<S: Sink>(t: &v2::Transaction, o: &mut S) {
    let mut i = 0;
    o.num(t.siacoin_inputs.len());
    while i < t.siacoin_inputs.len() {
        t.siacoin_inputs[i].parent.id.e2(o);
        i += 1;
    }
    t.siacoin_outputs.e2(o);
    o.num(t.siafund_inputs.len());
    i = 0;
    while i < t.siafund_inputs.len() {
        t.siafund_inputs[i].parent.id.e2(o);
        i += 1;
    }
    t.siafund_outputs.e2(o);
    o.num(t.file_contracts.len());
    i = 0;
    while i < t.file_contracts.len() {
        fc_sem(&t.file_contracts[i], o);
        i += 1;
    }
    o.num(t.file_contract_revisions.len());
    i = 0;
    while i < t.file_contract_revisions.len() {
        t.file_contract_revisions[i].parent.id.e2(o);
        fc_sem(&t.file_contract_revisions[i].revision, o);
        i += 1;
    }
    o.num(t.file_contract_resolutions.len());
    i = 0;
    while i < t.file_contract_resolutions.len() {
        let r = &t.file_contract_resolutions[i];
        r.parent.id.e2(o);
        match &r.resolution {
            v2::ContractResolution::Renewal(r) => renewal_sem(r, o),
            v2::ContractResolution::StorageProof(p) => {
                p.proof_index.state_element.leaf_index.e2(o);
                o.num(0);
                p.proof_index.id.e2(o);
                p.proof_index.chain_index.e2(o);
                p.leaf.e2(o);
                p.proof.e2(o);
            }
            v2::ContractResolution::Expiration() => {}
        }
        i += 1;
    }
    t.attestations.e2(o);
    t.arbitrary_data.e2(o);
    t.new_foundation_address.e2(o);
    t.miner_fee.e2(o)
}

// ---- addresses ------------------------------------------------------------------------------------

// the Merkle tree of l[a..b]: split at the largest power of two below the number of leaves
pub fn merkle_root(l: &[[u8; 32]], a: usize, b: usize) -> [u8; 32] {
    if b - a == 1 {
        return l[a];
    }
    let mut k = 1;
    while 2 * k < b - a {
        k *= 2;
    }
    let (x, y) = (merkle_root(l, a, a + k), merkle_root(l, a + k, b));
    let mut o = Msg::new();
    o.u8(1).put(&x).put(&y);
    o.h32()
}
/// the address of unlock conditions, by the protocol
pub fn uc_address(uc: &v1::UnlockConditions) -> [u8; 32] {
    let mut leaves = [[0u8; 32]; 12];
    let n = uc.public_keys.len();
    let mut o = Msg::new();
    o.u8(0).u64(uc.timelock);
    leaves[0] = o.h32();
    let mut i = 0;
    while i < n {
        let mut o = Msg::new();
        let k = &uc.public_keys[i];
        o.u8(0);
        k.algorithm.e2(&mut o);
        o.u64(k.key.len() as u64).put(&k.key);
        leaves[i + 1] = o.h32();
        i += 1;
    }
    let mut o = Msg::new();
    o.u8(0).u64(uc.signatures_required);
    leaves[n + 1] = o.h32();
    merkle_root(&leaves, 0, n + 2)
}
pub fn is_addr(a: &Address, w: &[u8; 32]) {
    let b: &[u8] = a.as_ref();
    assert!(b.len() == 32 && eq32(unsafe { &*(b.as_ptr() as *const [u8; 32]) }, w));
}
