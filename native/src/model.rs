//! Executable specification: an independent encoder/decoder of the data-encoding layout
//! (`renc`, `rdec`) for every codec type of the library, used as the oracle.
use crate::util::Rng;
use num_bigint::{BigInt, BigUint, Sign};
use std::fmt::Debug;
use tedium::conv::len::Estimable;
use tedium::dynamic::LenPref;
use tedium::*;

pub struct Cur<'a> { pub d: &'a [u8], pub pos: usize, pub lim: usize, /** result unspecified for this input */ pub dc: bool }
impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8]) -> Self { Cur { d, pos: 0, lim: d.len(), dc: false } }
    pub fn rem(&self) -> usize { self.lim - self.pos }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.rem() { return None }
        let r = &self.d[self.pos..self.pos + n]; self.pos += n; Some(r)
    }
    pub fn be(&mut self, n: usize) -> Option<u64> { Some(self.take(n)?.iter().fold(0u64, |a, b| (a << 8) | *b as u64)) }
    pub fn window<R>(&mut self, n: usize, f: impl FnOnce(&mut Self) -> Option<R>) -> Option<R> {
        if n > self.rem() { return None }
        let old = self.lim; self.lim = self.pos + n;
        let r = f(self)?;
        if self.pos != self.lim { return None }
        self.lim = old; Some(r)
    }
}

pub trait M: Sized + Encode + Decode + Estimable + Debug {
    /// what must follow the encoding in its context for the decoder to stop at its end: None = anything, Some(n) = exactly n bytes.
    const TAIL: Option<usize>;
    fn gen(r: &mut Rng, sz: usize) -> Self;
    fn renc(&self, o: &mut Vec<u8>);
    fn rdec(c: &mut Cur) -> Option<Self>;
    fn eqv(&self, o: &Self) -> bool;
    /// a value is encodable (no limit of an enclosing prefix is exceeded)
    fn encodable(&self) -> bool { true }
    /// decode-time behaviour on malformed tags etc. is fully specified by rdec
    fn tag_width() -> Option<(usize, Vec<u64>)> { None }
}
pub fn renc_of<T: M>(v: &T) -> Vec<u8> { let mut o = vec![]; v.renc(&mut o); o }

fn be(v: u64, n: usize, o: &mut Vec<u8>) { for i in (0..n).rev() { o.push((v >> (8 * i)) as u8) } }

macro_rules! m_int { ($($t:ty, $u:ty, $n:expr);+) => { $(
    impl M for $t { const TAIL: Option<usize> = None;
        fn gen(r: &mut Rng, _: usize) -> Self { match r.below(5) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => r.below(200) as $t, 3 => (r.next() >> r.below(64)) as $t, _ => r.next() as $t } }
        fn renc(&self, o: &mut Vec<u8>) { be(*self as $u as u64, $n, o) }
        fn rdec(c: &mut Cur) -> Option<Self> { Some(c.be($n)? as $u as $t) }
        fn eqv(&self, o: &Self) -> bool { self == o } } )+ } }
m_int!(u8, u8, 1; i8, u8, 1; u16, u16, 2; i16, u16, 2; u32, u32, 4; i32, u32, 4; u64, u64, 8; i64, u64, 8);
impl M for () { const TAIL: Option<usize> = None; fn gen(_: &mut Rng, _: usize) {} fn renc(&self, _: &mut Vec<u8>) {} fn rdec(_: &mut Cur) -> Option<()> { Some(()) } fn eqv(&self, _: &()) -> bool { true } }
impl M for bool { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, _: usize) -> Self { r.chance(1, 2) }
    fn renc(&self, o: &mut Vec<u8>) { o.push(if *self { 0xff } else { 0 }) }
    fn rdec(c: &mut Cur) -> Option<Self> { match c.be(1)? { 0xff => Some(true), 0 => Some(false), _ => None } }
    fn eqv(&self, o: &Self) -> bool { self == o } }
impl M for f64 { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, _: usize) -> Self { match r.below(8) { 0 => f64::NAN, 1 => -0.0, 2 => f64::INFINITY, 3 => f64::NEG_INFINITY, 4 => f64::MIN_POSITIVE / 4.0, 5 => r.below(100) as f64, _ => f64::from_bits(r.next()) } }
    fn renc(&self, o: &mut Vec<u8>) { be(self.to_bits(), 8, o) }
    fn rdec(c: &mut Cur) -> Option<Self> { Some(f64::from_bits(c.be(8)?)) }
    fn eqv(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }

fn ranged(r: &mut Rng, lo: i64, hi: i64) -> i64 { match r.below(5) { 0 => lo, 1 => hi, 2 => (lo + r.below(3) as i64).min(hi), 3 => (hi - r.below(3) as i64).max(lo), _ => lo + (r.next() % ((hi - lo) as u64 + 1)) as i64 } }
macro_rules! m_ranged { ($($b:ty, $u:ty, $n:expr);+) => { $(
    impl<const MIN: i32, const MAX: i32> M for RangedInt<$b, MIN, MAX> { const TAIL: Option<usize> = None;
        fn gen(r: &mut Rng, _: usize) -> Self { let off = if MIN > 0 { MIN as i64 } else { 0 }; let x = ranged(r, MIN as i64, MAX as i64); Self::from_underlying((x - off) as $b) }
        fn renc(&self, o: &mut Vec<u8>) { be(unsafe { self.to_underlying_unchecked() } as $u as u64, $n, o) }
        fn rdec(c: &mut Cur) -> Option<Self> { let raw = c.be($n)? as $u as $b; let off = if MIN > 0 { MIN as i64 } else { 0 }; let v = raw as i64 + off;
            if (raw as i64) < 0 && MIN > 0 { return None }
            if v >= MIN as i64 && v <= MAX as i64 { Some(unsafe { Self::from_underlying_unchecked(raw) }) } else { None } }
        fn eqv(&self, o: &Self) -> bool { self == o } } )+ } }
m_ranged!(u8, u8, 1; i8, u8, 1; u16, u16, 2; i16, u16, 2; u32, u32, 4; i32, u32, 4);

impl<const A: u64, const B: u64> M for RangedFloat<A, B> { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, _: usize) -> Self { let (a, b) = (f64::from_bits(A), f64::from_bits(B)); let x = match r.below(3) { 0 => a, 1 => b, _ => { let t = (r.next() >> 11) as f64 / (1u64 << 53) as f64; let v = a + (b - a) * t; if v >= a && v <= b { v } else { a } } }; unsafe { Self::from_f64_unchecked(x) } }
    fn renc(&self, o: &mut Vec<u8>) { be(self.as_f64().to_bits(), 8, o) }
    fn rdec(c: &mut Cur) -> Option<Self> { let x = f64::from_bits(c.be(8)?); if x >= f64::from_bits(A) && x <= f64::from_bits(B) { Some(unsafe { Self::from_f64_unchecked(x) }) } else { None } }
    fn eqv(&self, o: &Self) -> bool { self.as_f64().to_bits() == o.as_f64().to_bits() } }

impl<const K: usize> M for FixedBytes<K> { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, _: usize) -> Self { let mut a = [0u8; K]; for x in a.iter_mut() { *x = r.byte() } FixedBytes::from_array(a) }
    fn renc(&self, o: &mut Vec<u8>) { o.extend_from_slice(self.bytes()) }
    fn rdec(c: &mut Cur) -> Option<Self> { let s = c.take(K)?; let mut a = [0u8; K]; a.copy_from_slice(s); Some(FixedBytes::from_array(a)) }
    fn eqv(&self, o: &Self) -> bool { self.bytes() == o.bytes() } }
impl<const K: usize> M for FixedString<K> { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, _: usize) -> Self { let mut a = [0u8; K]; for x in a.iter_mut() { *x = 32 + r.below(90) as u8 } FixedString::try_from_array(&a).unwrap() }
    fn renc(&self, o: &mut Vec<u8>) { o.extend_from_slice(unsafe { self.as_str_unchecked() }.as_bytes()) }
    fn rdec(c: &mut Cur) -> Option<Self> { let s = c.take(K)?; let mut a = [0u8; K]; a.copy_from_slice(s); if std::str::from_utf8(s).is_err() { c.dc = true } Some(FixedString::from(a)) }
    fn eqv(&self, o: &Self) -> bool { self == o } }
/// byte-string lengths with an emphasis on prefix boundaries
pub fn len_gen(r: &mut Rng, sz: usize) -> usize { if sz >= 4 && r.chance(1, 40) { [127, 128, 254, 255, 256, 257, 300][r.below(7)] } else { r.small(sz * 3 + 2) } }
impl M for Vec<u8> { const TAIL: Option<usize> = Some(0);
    fn gen(r: &mut Rng, sz: usize) -> Self { let n = len_gen(r, sz); r.bytes(n) }
    fn renc(&self, o: &mut Vec<u8>) { o.extend_from_slice(self) }
    fn rdec(c: &mut Cur) -> Option<Self> { let n = c.rem(); Some(c.take(n)?.to_vec()) }
    fn eqv(&self, o: &Self) -> bool { self == o } }
impl M for Bytes { const TAIL: Option<usize> = Some(0);
    fn gen(r: &mut Rng, sz: usize) -> Self { Bytes::from_vec(<Vec<u8> as M>::gen(r, sz)) }
    fn renc(&self, o: &mut Vec<u8>) { o.extend_from_slice(<Bytes as AsRef<[u8]>>::as_ref(self)) }
    fn rdec(c: &mut Cur) -> Option<Self> { <Vec<u8> as M>::rdec(c).map(Bytes::from_vec) }
    fn eqv(&self, o: &Self) -> bool { <Bytes as AsRef<[u8]>>::as_ref(self) == <Bytes as AsRef<[u8]>>::as_ref(o) } }
impl M for String { const TAIL: Option<usize> = Some(0);
    fn gen(r: &mut Rng, sz: usize) -> Self { let n = len_gen(r, sz); let mut s = String::new(); while s.len() < n { s.push(match r.below(5) { 0 => 'é', 1 => '語', 2 => '\u{1F600}', 3 => '\0', _ => (b'a' + r.below(26) as u8) as char }) } s }
    fn renc(&self, o: &mut Vec<u8>) { o.extend_from_slice(self.as_bytes()) }
    fn rdec(c: &mut Cur) -> Option<Self> { let n = c.rem(); let b = c.take(n)?.to_vec(); match String::from_utf8(b) { Ok(s) => Some(s), Err(_) => { c.dc = true; Some(String::new()) } } }
    fn eqv(&self, o: &Self) -> bool { self == o } }
impl<T: M> M for Option<T> { const TAIL: Option<usize> = T::TAIL;
    fn gen(r: &mut Rng, sz: usize) -> Self { if r.chance(1, 3) && T::TAIL != Some(0) { None } else if r.chance(1, 4) { None } else { Some(T::gen(r, sz)) } }
    fn renc(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(0xff); x.renc(o) } } }
    fn rdec(c: &mut Cur) -> Option<Self> { match c.be(1)? { 0 => Some(None), 0xff => Some(Some(T::rdec(c)?)), _ => None } }
    fn eqv(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.eqv(b), _ => false } }
    fn encodable(&self) -> bool { self.as_ref().map_or(true, |x| x.encodable()) } }
/// Only for payloads of at least one byte.
impl<T: M> M for Nullable<T> { const TAIL: Option<usize> = Some(0);
    fn gen(r: &mut Rng, sz: usize) -> Self { if r.chance(1, 3) { None.into() } else { loop { let x = T::gen(r, sz); if !renc_of(&x).is_empty() { return Some(x).into() } } } }
    fn renc(&self, o: &mut Vec<u8>) { if let Some(x) = self.as_inner() { x.renc(o) } }
    fn rdec(c: &mut Cur) -> Option<Self> { if c.rem() == 0 { Some(None.into()) } else { Some(Some(T::rdec(c)?).into()) } }
    fn eqv(&self, o: &Self) -> bool { match (self.as_inner(), o.as_inner()) { (None, None) => true, (Some(a), Some(b)) => a.eqv(b), _ => false } }
    fn encodable(&self) -> bool { self.as_inner().as_ref().map_or(true, |x| x.encodable()) } }
impl<T: M, const K: usize> M for Padded<T, K> { const TAIL: Option<usize> = match T::TAIL { None => None, Some(k) => if k >= K { Some(k - K) } else { panic!() } };
    fn gen(r: &mut Rng, sz: usize) -> Self { Padded::new(T::gen(r, sz)) }
    fn renc(&self, o: &mut Vec<u8>) { self.as_inner().renc(o); o.extend(std::iter::repeat(0).take(K)) }
    fn rdec(c: &mut Cur) -> Option<Self> { let x = T::rdec(c)?; if c.take(K)?.iter().any(|b| *b != 0) { c.dc = true } Some(Padded::new(x)) }
    fn eqv(&self, o: &Self) -> bool { self.as_inner().eqv(o.as_inner()) }
    fn encodable(&self) -> bool { self.as_inner().encodable() } }
pub trait Pref: LenPref + Debug { const W: usize; const MX: u64; }
impl Pref for u8 { const W: usize = 1; const MX: u64 = 255; }
impl Pref for u16 { const W: usize = 2; const MX: u64 = 65535; }
impl Pref for u30 { const W: usize = 4; const MX: u64 = 0x3fff_ffff; }
impl<S: Pref, T: M> M for Dynamic<S, T> { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, sz: usize) -> Self { Dynamic::new(T::gen(r, sz)) }
    fn renc(&self, o: &mut Vec<u8>) { let p = renc_of::<T>(self.as_ref()); be(p.len() as u64, S::W, o); o.extend(p) }
    fn rdec(c: &mut Cur) -> Option<Self> { let n = c.be(S::W)?; if n > S::MX { return None } Some(Dynamic::new(c.window(n as usize, T::rdec)?)) }
    fn eqv(&self, o: &Self) -> bool { <Self as AsRef<T>>::as_ref(self).eqv(o.as_ref()) }
    fn encodable(&self) -> bool { let t: &T = self.as_ref(); t.encodable() && renc_of::<T>(t).len() as u64 <= S::MX } }
#[derive(Debug)] pub struct VP<T, const K: usize>(pub VPadded<T, K>);
impl<T: M + Clone + PartialEq, const K: usize> M for VPadded<T, K> { const TAIL: Option<usize> = Some(K);
    fn gen(r: &mut Rng, sz: usize) -> Self { VPadded::new(T::gen(r, sz)) }
    fn renc(&self, o: &mut Vec<u8>) { self.clone().into_inner().renc(o) }
    fn rdec(c: &mut Cur) -> Option<Self> { let n = c.rem().checked_sub(K)?; Some(VPadded::new(c.window(n, T::rdec)?)) }
    fn eqv(&self, o: &Self) -> bool { self.clone().into_inner().eqv(&o.clone().into_inner()) }
    fn encodable(&self) -> bool { self.clone().into_inner().encodable() } }
pub fn list_len(r: &mut Rng, sz: usize) -> usize { r.small(sz.max(1)) }
impl<T: M> M for Sequence<T> { const TAIL: Option<usize> = Some(0);
    fn gen(r: &mut Rng, sz: usize) -> Self { let n = list_len(r, sz); (0..n).map(|_| T::gen(r, sz / 2)).collect() }
    fn renc(&self, o: &mut Vec<u8>) { for x in self.as_slice() { x.renc(o) } }
    fn rdec(c: &mut Cur) -> Option<Self> { let mut v = vec![]; while c.rem() > 0 { v.push(T::rdec(c)?) } Some(Sequence::from_vec(v)) }
    fn eqv(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.eqv(b)) }
    fn encodable(&self) -> bool { self.iter().all(|x| x.encodable()) } }
impl<T: M, const K: usize> M for FixSeq<T, K> { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, sz: usize) -> Self { let v: Vec<T> = (0..K).map(|_| T::gen(r, sz / 2)).collect(); FixSeq::try_from(v).unwrap() }
    fn renc(&self, o: &mut Vec<u8>) { for x in self.iter() { x.renc(o) } }
    fn rdec(c: &mut Cur) -> Option<Self> { let mut v = vec![]; for _ in 0..K { v.push(T::rdec(c)?) } Some(FixSeq::try_from(v).ok().unwrap()) }
    fn eqv(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.eqv(b)) }
    fn encodable(&self) -> bool { self.iter().all(|x| x.encodable()) } }
impl<T: M, const K: usize> M for LimSeq<T, K> { const TAIL: Option<usize> = Some(0);
    fn gen(r: &mut Rng, sz: usize) -> Self { let n = if r.chance(1, 4) { K } else { r.below(K + 1) }; let v: Vec<T> = (0..n).map(|_| T::gen(r, sz / 2)).collect(); LimSeq::try_from(v).ok().unwrap() }
    fn renc(&self, o: &mut Vec<u8>) { for x in self.iter() { x.renc(o) } }
    fn rdec(c: &mut Cur) -> Option<Self> { let mut v = vec![]; while c.rem() > 0 { v.push(T::rdec(c)?); if v.len() > K { return None } } Some(LimSeq::try_from(v).ok().unwrap()) }
    fn eqv(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.eqv(b)) }
    fn encodable(&self) -> bool { self.iter().all(|x| x.encodable()) } }
impl<T: M> M for AutoBox<T> { const TAIL: Option<usize> = T::TAIL;
    fn gen(r: &mut Rng, sz: usize) -> Self { AutoBox::new(T::gen(r, sz)) }
    fn renc(&self, o: &mut Vec<u8>) { self.as_inner().renc(o) }
    fn rdec(c: &mut Cur) -> Option<Self> { Some(AutoBox::new(T::rdec(c)?)) }
    fn eqv(&self, o: &Self) -> bool { self.as_inner().eqv(o.as_inner()) }
    fn encodable(&self) -> bool { self.as_inner().encodable() } }

pub fn big(r: &mut Rng, sz: usize) -> BigUint {
    match r.below(6) {
        0 => BigUint::from(r.below(300) as u32),
        1 => { let k = r.below(70 + sz * 20); (BigUint::from(1u8) << k) - BigUint::from(r.below(2) as u32) }
        2 => BigUint::from(r.next() >> r.below(64)),
        3 => { let k = 7 * r.below(12) + 6 * r.below(2); (BigUint::from(1u8) << k) + BigUint::from(r.below(3) as u32) }
        _ => { let n = 1 + r.below(3 + sz * 3); BigUint::from_bytes_le(&(0..n).map(|_| r.next() as u8).collect::<Vec<_>>()) }
    }
}
/// 7-bit digits, least significant first (independent of `to_radix_le`)
fn low_digit(n: &BigUint, shift: usize, bits: u32) -> u8 { let x: BigUint = (n >> shift) & BigUint::from((1u32 << bits) - 1); x.to_u32_digits().first().copied().unwrap_or(0) as u8 }
impl M for N { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, sz: usize) -> Self { N(big(r, sz)) }
    fn renc(&self, o: &mut Vec<u8>) { let n = &self.0; let mut sh = 0; loop { let more = (n >> (sh + 7usize)) != BigUint::from(0u8); o.push(low_digit(n, sh, 7) | if more { 0x80 } else { 0 }); if !more { break } sh += 7 } }
    fn rdec(c: &mut Cur) -> Option<Self> { let mut n = BigUint::from(0u8); let mut sh = 0usize; loop { let b = c.be(1)? as u8; n += BigUint::from(b & 0x7f) << sh; sh += 7; if b & 0x80 == 0 { if b == 0 && sh > 7 { c.dc = true } return Some(N(n)) } } }
    fn eqv(&self, o: &Self) -> bool { self.0 == o.0 } }
impl M for Z { const TAIL: Option<usize> = None;
    fn gen(r: &mut Rng, sz: usize) -> Self { let b = big(r, sz); Z(BigInt::from_biguint(if r.chance(1, 2) { Sign::Minus } else { Sign::Plus }, b)) }
    fn renc(&self, o: &mut Vec<u8>) { let n = self.0.magnitude(); let neg = self.0.sign() == Sign::Minus; let more = (n >> 6usize) != BigUint::from(0u8);
        o.push(low_digit(n, 0, 6) | if neg { 0x40 } else { 0 } | if more { 0x80 } else { 0 }); let mut sh = 6; let mut m = more;
        while m { m = (n >> (sh + 7usize)) != BigUint::from(0u8); o.push(low_digit(n, sh, 7) | if m { 0x80 } else { 0 }); sh += 7 } }
    fn rdec(c: &mut Cur) -> Option<Self> { let b = c.be(1)? as u8; let neg = b & 0x40 != 0; let mut n = BigUint::from(b & 0x3f); let mut sh = 6usize; let mut last = b;
        while last & 0x80 != 0 { last = c.be(1)? as u8; n += BigUint::from(last & 0x7f) << sh; sh += 7; if last == 0 { c.dc = true } }
        if neg && n == BigUint::from(0u8) { c.dc = true }
        Some(Z(BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, n))) }
    fn eqv(&self, o: &Self) -> bool { self.0 == o.0 } }

// ---- derived records, enumerations and unions (the real proc macros / macro_rules) ----
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R1 { pub a: u8, pub b: u16, pub c: i32 }
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R2(pub bool, pub Option<i64>, pub Dynamic<u8, Bytes>);
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R3(pub u16);
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R4 { pub z: Z, pub n: N, pub s: Dynamic<u30, String>, pub tail: Bytes }
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R5 { pub body: VPadded<Bytes, 3>, pub crc: u16, pub fin: u8 }
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R6 { pub only: Dynamic<u16, Sequence<R1>> }
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R7(pub FixSeq<u16, 2>, pub FixSeq<Dynamic<u8, Bytes>, 2>, pub Padded<u8, 3>, pub i31, pub u30);
#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)] pub struct R8 { pub x: u8, pub y: FixedBytes<3>, pub z: i64 }
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R9;
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)] pub struct R10 { pub a: R3, pub b: AutoBox<R1>, pub c: Option<()>, pub d: Nullable<u16> }
macro_rules! m_rec { ($t:ident, $tail:expr, [$($f:tt : $ft:ty),*]) => {
    impl M for $t { const TAIL: Option<usize> = $tail;
        fn gen(r: &mut Rng, sz: usize) -> Self { let _ = (&r, sz); $t { $($f: <$ft as M>::gen(r, sz)),* } }
        fn renc(&self, o: &mut Vec<u8>) { let _ = &o; $( self.$f.renc(o); )* }
        fn rdec(c: &mut Cur) -> Option<Self> { let _ = &c; Some($t { $($f: <$ft as M>::rdec(c)?),* }) }
        fn eqv(&self, o: &Self) -> bool { let _ = o; true $( && self.$f.eqv(&o.$f) )* }
        fn encodable(&self) -> bool { true $( && self.$f.encodable() )* } } } }
m_rec!(R1, None, [a: u8, b: u16, c: i32]);
m_rec!(R2, None, [0: bool, 1: Option<i64>, 2: Dynamic<u8, Bytes>]);
m_rec!(R3, None, [0: u16]);
m_rec!(R4, Some(0), [z: Z, n: N, s: Dynamic<u30, String>, tail: Bytes]);
m_rec!(R5, Some(0), [body: VPadded<Bytes, 3>, crc: u16, fin: u8]);
m_rec!(R6, None, [only: Dynamic<u16, Sequence<R1>>]);
m_rec!(R7, None, [0: FixSeq<u16, 2>, 1: FixSeq<Dynamic<u8, Bytes>, 2>, 2: Padded<u8, 3>, 3: i31, 4: u30]);
m_rec!(R8, None, [x: u8, y: FixedBytes<3>, z: i64]);
m_rec!(R9, None, []);
m_rec!(R10, Some(0), [a: R3, b: AutoBox<R1>, c: Option<()>, d: Nullable<u16>]);

cstyle!(E8, u8, { A = 0, B = 1, C = 7, D = 255 });
cstyle!(E16, u16, { P = 1, Q = 255, R = 256, S = 65535 });
cstyle!(E32, u32, { X = 0, Y = 65536, W = 4294967295 });
cstyle!(Only, u8, { Unit = 42 });
macro_rules! m_enum { ($t:ident, $b:ty, $w:expr, [$($v:ident = $d:expr),*]) => {
    impl M for $t { const TAIL: Option<usize> = None;
        fn gen(r: &mut Rng, _: usize) -> Self { let l = [$($t::$v),*]; l[r.below(l.len())] }
        fn renc(&self, o: &mut Vec<u8>) { let d: u64 = match self { $($t::$v => $d),* }; be(d, $w, o) }
        fn rdec(c: &mut Cur) -> Option<Self> { match c.be($w)? { $($d => Some($t::$v),)* _ => None } }
        fn eqv(&self, o: &Self) -> bool { self == o }
        fn tag_width() -> Option<(usize, Vec<u64>)> { Some(($w, vec![$($d),*])) } }
    impl EnumLike for $t { type B = $b;
        fn decl() -> Vec<(u64, &'static str)> { vec![$(($d, stringify!($v))),*] }
        fn tagval(&self) -> u64 { self.get_tagval() as u64 } fn idx(&self) -> usize { let ds: Vec<u64> = vec![$($d),*]; let d: u64 = match self { $($t::$v => $d),* }; ds.iter().position(|x| *x == d).unwrap() }
        fn tags() -> Vec<u64> { $t::iter_tags().map(|x| x as u64).collect() } fn valid(x: u64) -> bool { $t::is_valid_tag(x as $b) } fn nm(x: u64) -> Option<&'static str> { $t::get_name(x as $b) }
        fn tryf(x: u64) -> Option<Result<u64, ()>> { Some(<$t>::try_from(x as $b).map(|v| v.get_tagval() as u64).map_err(|_| ())) } } } }
pub trait EnumLike: M { type B; fn decl() -> Vec<(u64, &'static str)>; fn tagval(&self) -> u64; fn idx(&self) -> usize; fn tags() -> Vec<u64>; fn valid(x: u64) -> bool; fn nm(x: u64) -> Option<&'static str>; fn tryf(x: u64) -> Option<Result<u64, ()>>; }
m_enum!(E8, u8, 1, [A = 0, B = 1, C = 7, D = 255]);
m_enum!(E16, u16, 2, [P = 1, Q = 255, R = 256, S = 65535]);
m_enum!(E32, u32, 4, [X = 0, Y = 65536, W = 4294967295]);
m_enum!(Only, u8, 1, [Unit = 42]);

data!(U8, u8, u8_payload, { 0 => Nil, 1 => Byte(pub u8), 7 => Rec { pub a: u16, pub b: super::Dynamic<u8, super::Bytes> }, 8 => Pair(pub i64, pub std::option::Option<u16>), 255 => Rest(pub super::Bytes) });
data!(U16, u16, u16_payload, { 1 => Lo(pub u16), 256 => Hi(pub u8), 65535 => Empty, });
data!(U32, u32, u32_payload, { 0 => Zero, 16777216 => Big(pub super::Z) });
data!(Tree, u8, tree_payload, { 0 => Leaf(pub u8), 1 => Node(pub super::AutoBox<super::Tree>, pub super::AutoBox<super::Tree>) });

macro_rules! m_uni { ($t:ident, $p:ident, $b:ty, $w:expr, $tail:expr, [$($d:expr => $v:ident [$($f:tt : $ft:ty),*]),*]) => {
    $( impl M for $p::$v { const TAIL: Option<usize> = None;
        fn gen(r: &mut Rng, sz: usize) -> Self { let _ = (&r, sz); $p::$v { $($f: <$ft as M>::gen(r, sz)),* } }
        fn renc(&self, o: &mut Vec<u8>) { let _ = &o; $( self.$f.renc(o); )* }
        fn rdec(c: &mut Cur) -> Option<Self> { let _ = &c; Some($p::$v { $($f: <$ft as M>::rdec(c)?),* }) }
        fn eqv(&self, o: &Self) -> bool { let _ = o; true $( && self.$f.eqv(&o.$f) )* }
        fn encodable(&self) -> bool { true $( && self.$f.encodable() )* } } )*
    impl M for $t { const TAIL: Option<usize> = $tail;
        fn gen(r: &mut Rng, sz: usize) -> Self { let n = [$($d as u64),*].len(); let k = if sz == 0 { 0 } else { r.below(n) }; let mut i = 0; $( if i == k { return $t::$v(<$p::$v as M>::gen(r, sz / 2)) } i += 1; )* let _ = i; unreachable!() }
        fn renc(&self, o: &mut Vec<u8>) { match self { $($t::$v(x) => { be($d, $w, o); x.renc(o) })* } }
        fn rdec(c: &mut Cur) -> Option<Self> { match c.be($w)? { $($d => Some($t::$v(<$p::$v as M>::rdec(c)?)),)* _ => None } }
        fn eqv(&self, o: &Self) -> bool { match (self, o) { $(($t::$v(a), $t::$v(b)) => a.eqv(b),)* #[allow(unreachable_patterns)] _ => false } }
        fn encodable(&self) -> bool { match self { $($t::$v(a) => a.encodable(),)* } }
        fn tag_width() -> Option<(usize, Vec<u64>)> { Some(($w, vec![$($d),*])) } }
    impl EnumLike for $t { type B = $b;
        fn decl() -> Vec<(u64, &'static str)> { vec![$(($d, stringify!($v))),*] }
        fn tagval(&self) -> u64 { self.get_tagval() as u64 } fn idx(&self) -> usize { let ds: Vec<u64> = vec![$($d),*]; let d: u64 = match self { $($t::$v(_) => $d),* }; ds.iter().position(|x| *x == d).unwrap() }
        fn tags() -> Vec<u64> { $t::iter_tags().map(|x| x as u64).collect() } fn valid(x: u64) -> bool { $t::is_valid_tag(x as $b) } fn nm(x: u64) -> Option<&'static str> { $t::get_name(x as $b) }
        fn tryf(_: u64) -> Option<Result<u64, ()>> { None } } } }
m_uni!(U8, u8_payload, u8, 1, Some(0), [0 => Nil [], 1 => Byte[0: u8], 7 => Rec[a: u16, b: Dynamic<u8, Bytes>], 8 => Pair[0: i64, 1: Option<u16>], 255 => Rest[0: Bytes]]);
m_uni!(U16, u16_payload, u16, 2, None, [1 => Lo[0: u16], 256 => Hi[0: u8], 65535 => Empty[]]);
m_uni!(U32, u32_payload, u32, 4, None, [0 => Zero [], 16777216 => Big[0: Z]]);
m_uni!(Tree, tree_payload, u8, 1, None, [0 => Leaf[0: u8], 1 => Node[0: AutoBox<Tree>, 1: AutoBox<Tree>]]);
