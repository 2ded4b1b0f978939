//! Per-type checks of the encoders and decoders against the executable specification.
use crate::model::*;
use crate::util::*;
use crate::{check, g};
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::*;

pub struct Cfg { pub seed: u64, pub iters: usize, pub thorough: bool }

const UNIT_MIN: u64 = 0; // 0.0
const UNIT_MAX: u64 = 0x3ff0000000000000; // 1.0
const NEG_MIN: u64 = 0xc024000000000000; // -10.0

/// Applies `$f::<T>(cfg, name)` to every codec type instance.
macro_rules! for_types { ($f:ident, $cfg:expr; $($t:ty),* $(,)?) => {{ $( set_test(concat!(stringify!($f), "<", stringify!($t), ">")); $f::<$t>($cfg, stringify!($t)); )* }} }
macro_rules! all_types { ($f:ident, $cfg:expr) => {
    for_types!($f, $cfg; (), bool, u8, i8, u16, i16, u32, i32, u64, i64, f64, u30, i31,
        RangedInt<u8, 0, 9>, RangedInt<u8, 10, 200>, RangedInt<i8, -5, 100>, RangedInt<u16, 1, 1000>, RangedInt<i16, -300, 300>, RangedInt<u32, 500, 1000000>, RangedInt<i32, -70000, 70000>, RangedInt<u8, 100, 300>,
        RangedFloat<UNIT_MIN, UNIT_MAX>, RangedFloat<NEG_MIN, UNIT_MAX>,
        FixedBytes<0>, FixedBytes<1>, FixedBytes<20>, FixedBytes<33>, FixedString<5>,
        Vec<u8>, Bytes, String, Option<u8>, Option<Bytes>, Option<Option<u16>>, Option<()>,
        Nullable<u8>, Nullable<i64>, Nullable<Bytes>, Nullable<Dynamic<u8, Bytes>>,
        Padded<u8, 0>, Padded<u16, 3>, Padded<bool, 1>, Padded<FixedBytes<2>, 5>,
        Dynamic<u8, Bytes>, Dynamic<u16, Bytes>, Dynamic<u30, Bytes>, Dynamic<u8, u8>, Dynamic<u16, u32>, Dynamic<u30, i64>, Dynamic<u8, ()>, Dynamic<u30, String>, Dynamic<u8, Dynamic<u16, Bytes>>, Dynamic<u30, Option<u16>>,
        Dynamic<u8, Sequence<u8>>, Dynamic<u16, Sequence<Dynamic<u8, Bytes>>>, Dynamic<u30, Sequence<u16>>, Dynamic<u30, Nullable<u16>>, Dynamic<u16, VPadded<Bytes, 0>>, Dynamic<u8, N>, Dynamic<u8, LimSeq<u16, 3>>,
        VPadded<Bytes, 0>, VPadded<Bytes, 4>, VPadded<u16, 2>, VPadded<Sequence<u8>, 3>, VPadded<Option<u8>, 1>,
        Sequence<u8>, Sequence<u16>, Sequence<bool>, Sequence<Option<u8>>, Sequence<Dynamic<u8, Bytes>>, Sequence<N>, Sequence<R1>,
        FixSeq<u8, 0>, FixSeq<u8, 1>, FixSeq<u16, 3>, FixSeq<Dynamic<u8, Bytes>, 2>, FixSeq<(), 2>, FixSeq<Option<u8>, 3>, FixSeq<FixSeq<u8, 2>, 2>,
        LimSeq<u8, 0>, LimSeq<u8, 1>, LimSeq<u16, 3>, LimSeq<Dynamic<u8, Bytes>, 2>, LimSeq<Option<u8>, 4>, LimSeq<FixSeq<u8, 2>, 2>,
        AutoBox<u8>, AutoBox<Dynamic<u30, Bytes>>, AutoBox<Bytes>, AutoBox<AutoBox<u16>>,
        N, Z, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, E8, E16, E32, Only, U8, U16, U32, Tree, Dynamic<u16, U8>, Dynamic<u30, Sequence<E16>>, Dynamic<u8, R5>, Dynamic<u8, R10>, FixSeq<E8, 2>, Option<U16>) } }

fn rng(cfg: &Cfg, name: &str, salt: u64) -> Rng { Rng::new(name.bytes().fold(cfg.seed.wrapping_mul(1000003) ^ salt, |a, b| a.wrapping_mul(31).wrapping_add(b as u64))) }
fn szs(i: usize) -> usize { [0, 1, 2, 3, 4, 6, 8, 12][i % 8] }
/// a value together with its reference encoding, within every enclosing limit
fn value<T: M>(r: &mut Rng, i: usize) -> (T, Vec<u8>) { loop { let v = T::gen(r, szs(i)); if v.encodable() { let e = renc_of(&v); return (v, e) } } }
fn tail<T: M>(r: &mut Rng) -> Vec<u8> { match T::TAIL { None => { let n = r.below(6); r.bytes(n) } Some(k) => r.bytes(k) } }
fn bp(b: &[u8]) -> ByteParser { ByteParser::from_buffer(VecBuffer::from(b)) }

// C01 -------------------------------------------------------------------------------------
pub fn rt<T: M>(cfg: &Cfg, name: &'static str) {
    let mut r = rng(cfg, name, 1);
    for i in 0..cfg.iters {
        let (v, e) = value::<T>(&mut r, i);
        set_case(name, &e);
        let mut b = g!(v.to_bytes(), "encoding {:?}", v);
        let n = b.len();
        let t = tail::<T>(&mut r); b.extend_from_slice(&t);
        // directly at the root
        let mut p = bp(&b);
        let w = g!(T::parse(&mut p), "decoding {}", hexs(&b));
        match w { Err(x) => fail(format!("decode of encoded {:?} (bytes {}, {} trailing) failed: {}", v, hexs(&b[..n]), t.len(), x)),
            Ok(w) => { check!(v.eqv(&w), "decode(encode(v)) != v: v={:?} got {:?} bytes {}", v, w, hexs(&b[..n]));
                check!(p.remainder() == t.len(), "decode of {:?} consumed {} of {} encoded bytes", v, b.len() as i64 - p.remainder() as i64, n) } }
        // inside a context window, at a non-zero offset, with more input after the window
        let pre = r.below(4); let mut c = r.bytes(pre); c.extend_from_slice(&b); let post = r.below(4); c.extend(r.bytes(post));
        let mut p = bp(&c); let _ = p.consume(pre); p.set_fit(b.len()).unwrap();
        match g!(T::parse(&mut p), "decoding {} in a window", hexs(&b)) { Err(x) => fail(format!("decode in a window of {:?} failed: {}", v, x)),
            Ok(w) => { check!(v.eqv(&w), "in window: decode(encode(v)) != v: {:?} vs {:?}", v, w); check!(p.remainder() == t.len(), "in window: wrong number of bytes consumed for {:?}", v) } }
        // the one-call interface
        match g!(T::try_decode::<_, ByteParser>(b.clone()), "try_decode {}", hexs(&b)) { Ok(w) => check!(v.eqv(&w) , "try_decode(encode(v)) != v: {:?} vs {:?}", v, w), Err(x) => fail(format!("try_decode of encoded {:?} failed: {:?}", v, x)) }
        count(name, &b, n > 0);
    }
}
// C02 -------------------------------------------------------------------------------------
pub fn layout<T: M>(cfg: &Cfg, name: &'static str) {
    let mut r = rng(cfg, name, 2);
    for i in 0..cfg.iters {
        let (v, e) = value::<T>(&mut r, i);
        set_case(name, &e);
        let mut b = Vec::new(); g!({ v.write_to(&mut b); }, "encoding {:?}", v);
        check!(b == e, "layout of {:?}: library wrote {}, data-encoding layout is {}", v, hexs(&b), hexs(&e));
        let t = tail::<T>(&mut r); let mut d = e.clone(); d.extend_from_slice(&t);
        match g!(T::parse(&mut bp(&d)), "decoding {}", hexs(&d)) { Ok(w) => check!(w.eqv(&v), "layout {} denotes {:?} but decodes as {:?}", hexs(&e), v, w), Err(x) => fail(format!("layout {} of {:?} rejected: {}", hexs(&d), v, x)) }
        count(name, &e, !e.is_empty());
    }
}
pub fn layout_bytes() {
    set_test("presence_and_boolean_bytes");
    for x in 0..=255u8 { for y in 0..=255u8 {
        set_case("bool/option", &[x, y]);
        let b = g!(bool::parse(&mut bp(&[x])), "bool");
        check!(match b { Ok(v) => x == if v { 0xff } else { 0 }, Err(_) => x != 0 && x != 0xff }, "boolean byte {:02x} decoded as {:?}", x, b.ok());
        let o = g!(<Option<u8>>::parse(&mut bp(&[x, y])), "option");
        let want = match x { 0 => Some(None), 0xff => Some(Some(y)), _ => None };
        check!(o.as_ref().ok().copied() == want, "option bytes {:02x}{:02x} decoded as {:?}", x, y, o.ok());
        let w = u16::from_be_bytes([x, y]); check!(u16::parse(&mut bp(&[x, y])).ok() == Some(w) && w.to_bytes() == [x, y], "u16 {:02x}{:02x}", x, y);
        check!(i16::parse(&mut bp(&[x, y])).ok() == Some(w as i16) && (w as i16).to_bytes() == [x, y], "i16 {:02x}{:02x}", x, y);
        check!(i8::parse(&mut bp(&[x])).ok() == Some(x as i8), "i8 {:02x}", x);
        let mut p = bp(&[x, y, x, y, y, x, y, x]); check!(p.take_u64().ok() == Some(u64::from_be_bytes([x, y, x, y, y, x, y, x])), "take_u64");
        let mut p = bp(&[x, y, x, y, y, x, y, x]); check!(p.take_i64().ok() == Some(i64::from_be_bytes([x, y, x, y, y, x, y, x])), "take_i64");
        let mut p = bp(&[x, y, x, y, y, x, y, x]); check!(p.take_f64().ok().map(|f| f.to_bits()) == Some(u64::from_be_bytes([x, y, x, y, y, x, y, x])), "take_f64");
        let mut p = bp(&[x, y, y, x, y, x, x, y]); check!(p.take_u32().ok() == Some(u32::from_be_bytes([x, y, y, x])) && p.take_i32().ok() == Some(i32::from_be_bytes([y, x, x, y])), "take_u32/i32");
        let mut p = bp(&[x, y, y, x, y, x, x]); check!(p.take_u16().ok() == Some(w) && p.take_i16().ok() == Some(i16::from_be_bytes([y, x])) && p.take_u8().ok() == Some(y) && p.take_i8().ok() == Some(x as i8) && p.take_bool().ok() == (match x { 0 => Some(false), 255 => Some(true), _ => None }), "take_u16/i16/u8/i8/bool");
        count("two bytes", &[x, y], true);
    } }
}
pub fn big_values(prop: &str) {
    set_test("large_payloads");
    for n in [253usize, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 70000, 1 << 20] {
        let body: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        set_case("large Dynamic<Bytes>", &(n as u64).to_be_bytes());
        macro_rules! one { ($s:ty) => { if n as u64 <= <$s as Pref>::MX {
            let v: Dynamic<$s, Bytes> = Dynamic::new(Bytes::from_vec(body.clone())); let e = renc_of(&v);
            let b = g!(v.to_bytes(), "encoding {} bytes with {}", n, stringify!($s));
            match prop { "C01" => { let mut d = b.clone(); d.push(9); let mut p = bp(&d); match g!(<Dynamic<$s, Bytes>>::parse(&mut p), "decoding") { Ok(w) => check!(w.eqv(&v) && p.remainder() == 1, "round trip of {}-byte payload with {} prefix", n, stringify!($s)), Err(x) => fail(format!("{}", x)) } }
                "C02" => check!(b == e, "layout of {}-byte payload with {} prefix", n, stringify!($s)),
                "C03" => { let m = v.write_to(&mut std::io::sink()); check!(m == b.len() && v.enc_len() == m && v.estimate() == m && b.len() == n + <$s as Pref>::W, "lengths of a {}-byte payload: {} {} {}", n, m, v.enc_len(), v.estimate()) }
                _ => {
                    let m: MemoBuilder = v.encode(); let s: StrictBuilder = v.encode(); let h: HexString = v.encode();
                    check!(m.into_vec() == b && s.into_vec() == b && h.into_inner() == b, "destinations differ for {} bytes", n) } }
            let s: Dynamic<$s, Sequence<u8>> = Dynamic::new(body.iter().copied().collect()); let b2 = g!(s.to_bytes(), "encoding list of {}", n);
            check!(b2 == e, "list of {} bytes vs byte string of {}", n, n);
            count(concat!("large ", stringify!($s)), &(n as u64).to_be_bytes(), true);
        } } }
        one!(u8); one!(u16); one!(u30);
    }
}
// C03 -------------------------------------------------------------------------------------
pub fn lens<T: M>(cfg: &Cfg, name: &'static str) {
    let mut r = rng(cfg, name, 3);
    for i in 0..cfg.iters {
        let (v, e) = value::<T>(&mut r, i);
        set_case(name, &e);
        let pn = r.below(5); let prior = r.bytes(pn);
        let mut buf = prior.clone(); let n = g!(v.write_to(&mut buf), "write_to {:?}", v);
        check!(buf.len() == prior.len() + n, "write_to of {:?} returned {} but appended {} bytes", v, n, buf.len() as i64 - prior.len() as i64);
        check!(buf[..pn] == prior[..], "write_to disturbed existing bytes for {:?}", v);
        let mut sb = StrictBuilder::from(prior.clone()); check!(v.write_to(&mut sb) == n && sb.len() == pn + n, "StrictBuilder count for {:?}", v);
        let mut mb = MemoBuilder::from(prior.clone()); check!(v.write_to(&mut mb) == n && mb.len() == pn + n, "MemoBuilder count for {:?}", v);
        let mut hs = HexString::from_vec(prior.clone()); check!(v.write_to(&mut hs) == n && hs.len() == pn + n, "HexString count for {:?}", v);
        let c = v.write_to(&mut std::io::sink()); check!(c == n, "counting sink says {} for {:?}, real {}", c, v, n);
        check!(v.enc_len() == n, "enc_len {} but {} bytes written for {:?}", v.enc_len(), n, v);
        let est = g!(v.estimate(), "estimate"); check!(est == n, "estimate {} but {} bytes written for {:?}", est, n, v);
        if let Some(k) = T::KNOWN { check!(k == n, "statically known length {} but {} bytes written for {:?}", k, n, v); let u = v.unknown(); check!(u == n, "value-based estimate {} but {} bytes written for {:?}", u, n, v) }
        check!(v.to_bytes_full().len() == n, "to_bytes_full length");
        count(name, &e, !e.is_empty());
    }
}
pub fn lens_fixed() {
    set_test("fixed_lengths");
    fn f<T: FixedLength + M>(nm: &'static str) { let mut r = Rng::new(5); for i in 0..50 { let v = T::gen(&mut r, i % 5); let n = v.to_bytes().len(); set_case(nm, &[]); check!(T::LEN == n, "fixed length of {} is {} but {} bytes written", nm, T::LEN, n); check!(T::KNOWN == Some(n), "KNOWN of {}", nm); check!(<T as ScalarLength>::n_elems(&v) * <T as ScalarLength>::PER_ELEM == n, "scalar length of {}", nm); count(nm, &[i as u8], true) } }
    macro_rules! fl { ($($t:ty),*) => { $( f::<$t>(stringify!($t)); )* } }
    fl!((), bool, u8, i8, u16, i16, u32, i32, u64, i64, f64, u30, i31, FixedBytes<7>, FixedString<9>, RangedInt<u8, 3, 9>, RangedFloat<UNIT_MIN, UNIT_MAX>, E8, E16, E32, R8, R9);
    check!(<[u16; 5] as FixedLength>::LEN == 10 && <[[u8; 3]; 4] as FixedLength>::LEN == 12, "array fixed length");
    for n in [0usize, 1, 7, 300] { let v: Vec<u16> = vec![3; n]; check!(v.estimate() == 2 * n && v.as_slice().estimate() == 2 * n, "Vec<u16> estimate"); let s: String = "é".repeat(n); check!(s.estimate() == 2 * n && s.as_str().estimate() == 2 * n, "str estimate"); count("vec", &[n as u8], true) }
}
// arbitrary bytes ---------------------------------------------------------------------------
/// byte strings near the type's language: encodings, truncations, mutations, noise
fn near<T: M>(r: &mut Rng, i: usize) -> Vec<u8> {
    let (_, mut e) = value::<T>(r, i);
    if let Some(k) = T::TAIL { e.extend(r.bytes(k)) }
    match r.below(8) { 0 => { let k = r.below(e.len() + 1); e.truncate(k) } 1 => { let n = 1 + r.below(4); e.extend(r.bytes(n)) }
        2 | 3 => { if !e.is_empty() { let k = r.below(e.len()); e[k] = r.byte() } } 4 => { if !e.is_empty() { let k = r.below(e.len()); e.remove(k); } } 5 => { let k = r.below(e.len() + 1); e.insert(k, r.byte()) }
        6 => { let n = r.below(12); e = r.bytes(n) } _ => {} }
    e
}
fn each_input<T: M>(cfg: &Cfg, name: &'static str, salt: u64, mut f: impl FnMut(&[u8], &mut Rng)) {
    let mut r = rng(cfg, name, salt);
    f(&[], &mut r);
    for a in 0..=255u8 { set_case(name, &[a]); f(&[a], &mut r); }
    let interesting: Vec<u8> = if cfg.thorough { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff] };
    for &a in &interesting { for &b in &interesting { set_case(name, &[a, b]); f(&[a, b], &mut r) } }
    let few = [0u8, 1, 2, 0x40, 0x80, 0xff];
    for &a in &few { for &b in &few { for &c in &few { set_case(name, &[a, b, c]); f(&[a, b, c], &mut r); for &d in &[0u8, 1, 0xff] { let x = [a, b, c, d]; set_case(name, &x); f(&x, &mut r) } } } }
    for i in 0..cfg.iters { let b = near::<T>(&mut r, i); set_case(name, &b); f(&b, &mut r) }
}
// C04
pub fn total<T: M>(cfg: &Cfg, name: &'static str) {
    each_input::<T>(cfg, name, 4, |b, r| {
        g!({ let _ = T::try_decode::<_, ByteParser>(b.to_vec()); }, "decoding {} as {}", hexs(b), name);
        g!({ let _ = T::parse(&mut SliceParser::from_buffer(SliceBuffer::new(b))); }, "decoding {} as {} (borrowing parser)", hexs(b), name);
        g!({ let _ = T::parse(&mut MemoParser::from_buffer(VecBuffer::from(b))); }, "decoding {} as {} (recording parser)", hexs(b), name);
        // inside windows
        let k = r.below(b.len() + 1); let mut p = bp(b);
        g!({ let _ = p.set_fit(k); let _ = T::parse(&mut p); let _ = T::parse(&mut p); let _ = p.enforce_target(); let _ = p.cleanup(); }, "decoding {} as {} in a {}-byte window", hexs(b), name, k);
        count(name, b, true);
    });
}
pub fn total_inputs() {
    set_test("decode_from_every_source");
    let mut r = Rng::new(77);
    for n in 0..60usize { let b = r.bytes(n % 12); set_case("source", &b);
        g!({ let _ = u16::try_decode::<_, ByteParser>(b.as_slice()); let _ = <Dynamic<u30, Bytes>>::try_decode::<_, ByteParser>(HexString::from_vec(b.clone())); let _ = <Option<u8>>::try_decode::<_, MemoParser>(b.clone()); let _ = <u32>::try_decode::<_, ByteParser>([1u8, 2, 3]); let _ = R2::try_decode::<_, SliceParser>(b.as_slice()); let _ = <()>::try_decode::<_, ByteParser>(b.clone()); }, "sources");
        count("source", &b, true) }
}
// C06
pub fn agree<T: M>(cfg: &Cfg, name: &'static str) {
    each_input::<T>(cfg, name, 6, |b, r| {
        let win = if r.chance(1, 2) { Some(r.below(b.len() + 1)) } else { None };
        fn run<P: Parser, T: M>(mut p: P, win: Option<usize>) -> (Result<(), ()>, Option<T>, usize, Vec<Vec<u8>>) {
            if let Some(w) = win { p.set_fit(w).unwrap() }
            let v = T::parse(&mut p); let rem = p.remainder();
            let left = crate::parsers::leftovers(p);
            (v.as_ref().map(|_| ()).map_err(|_| ()), v.ok(), rem, left)
        }
        let x = g!(run::<_, T>(bp(b), win), "byte parser");
        let y = g!(run::<_, T>(MemoParser::from_buffer(VecBuffer::from(b)), win), "memo parser");
        let z = g!(run::<_, T>(SliceParser::from_buffer(SliceBuffer::new(b)), win), "slice parser");
        for (o, nm) in [(&y, "recording"), (&z, "borrowing")] {
            let same = x.0 == o.0 && x.2 == o.2 && x.3 == o.3 && match (&x.1, &o.1) { (Some(a), Some(c)) => a.eqv(c), (None, None) => true, _ => false };
            check!(same, "decoding {} as {} (window {:?}): owning parser gives {:?} rem {} left {:?}, {} parser gives {:?} rem {} left {:?}", hexs(b), name, win, x.1, x.2, x.3, nm, o.1, o.2, o.3);
        }
        count(name, b, true);
    });
}
// C11
pub fn confined<T: M>(cfg: &Cfg, name: &'static str) {
    each_input::<T>(cfg, name, 11, |b, r| {
        let k = r.below(5); let mut d = b.to_vec(); let off = r.below(3); d.extend(r.bytes(k)); let mut full = r.bytes(off); full.extend_from_slice(&d);
        let windowed = r.chance(1, 2);
        let lim = if windowed { b.len() } else { d.len() };
        let mut c = Cur::new(&d); c.lim = lim; let want = T::rdec(&mut c);
        if c.dc { return }
        let mut p = bp(&full); let _ = p.consume(off); if windowed { p.set_fit(lim).unwrap() }
        let got = g!(T::parse(&mut p), "decoding {}", hexs(&d));
        match (want, got) {
            (Some(w), Ok(v)) => { check!(v.eqv(&w), "decoding {} as {}: got {:?}, specified {:?}", hexs(&d[..lim]), name, v, w); check!(p.remainder() == c.rem(), "decoding {} as {} left {} bytes instead of {}", hexs(&d[..lim]), name, p.remainder(), c.rem()) }
            (None, Err(_)) => {}
            (Some(w), Err(x)) => fail(format!("decoding {} as {} failed ({}) but it denotes {:?}", hexs(&d[..lim]), name, x, w)),
            (None, Ok(v)) => fail(format!("decoding {} as {} gave {:?} but it must be an error", hexs(&d[..lim]), name, v)),
        }
        count(name, b, true);
    });
}
/// every type, for C02's converse direction on arbitrary bytes (used in the thorough tier)
pub fn run_rt(c: &Cfg) { all_types!(rt, c) }
pub fn run_layout(c: &Cfg) { all_types!(layout, c) }
pub fn run_lens(c: &Cfg) { all_types!(lens, c) }
pub fn run_total(c: &Cfg) { all_types!(total, c) }
pub fn run_agree(c: &Cfg) { all_types!(agree, c) }
pub fn hostile<T: M>(cfg: &Cfg, name: &'static str) {
    // whatever happens (even a panic), no unchecked access may leave its bounds: the standard library's
    // checks on unchecked operations are compiled in and reported by the panic hook
    each_input::<T>(cfg, name, 7, |b, r| {
        let k = r.below(b.len() + 1);
        let mut padded = vec![0xEEu8; 8]; padded.extend_from_slice(b); padded.extend([0xEEu8; 8]);
        let _ = guard(|| { let mut p = SliceParser::from_buffer(SliceBuffer::new(&padded[8..8 + b.len()])); let _ = p.set_fit(k); if let Ok(v) = T::parse(&mut p) { let _ = v.estimate(); let _ = v.to_bytes(); } let _ = p.cleanup(); });
        let _ = guard(|| { let mut p = bp(b); let _ = p.set_fit(k); if let Ok(v) = T::parse(&mut p) { let _ = v.estimate(); let _ = v.to_bytes(); } let _ = p.cleanup(); });
        count(name, b, true);
    });
}
pub fn run_hostile(c: &Cfg) { all_types!(hostile, c) }
pub fn run_dest(c: &Cfg) { all_types!(dest, c) }
pub fn run_confined(c: &Cfg) {
    for_types!(confined, c; Dynamic<u8, Bytes>, Dynamic<u16, Bytes>, Dynamic<u30, Bytes>, Dynamic<u8, u8>, Dynamic<u8, u16>, Dynamic<u16, u32>, Dynamic<u30, i64>, Dynamic<u30, u8>, Dynamic<u8, ()>, Dynamic<u30, ()>, Dynamic<u8, Dynamic<u16, Bytes>>, Dynamic<u8, Dynamic<u8, Dynamic<u8, u8>>>, Dynamic<u30, Option<u16>>,
        Dynamic<u8, Sequence<u8>>, Dynamic<u16, Sequence<Dynamic<u8, Bytes>>>, Dynamic<u8, Sequence<Dynamic<u8, u8>>>, Dynamic<u30, Nullable<u16>>, Dynamic<u8, Nullable<u16>>, Dynamic<u16, VPadded<Bytes, 0>>, Dynamic<u8, LimSeq<u16, 3>>, Dynamic<u8, FixSeq<u8, 2>>,
        VPadded<Bytes, 0>, VPadded<Bytes, 1>, VPadded<Bytes, 4>, VPadded<u16, 2>, VPadded<u8, 1>, VPadded<Sequence<u8>, 3>, VPadded<Option<u8>, 1>, VPadded<VPadded<Bytes, 1>, 1>, Dynamic<u8, R5>, Dynamic<u8, R10>, R2, R5, R6,
        Padded<u8, 0>, Padded<u8, 1>, Padded<u16, 3>, Padded<bool, 1>, Padded<Padded<u8, 1>, 2>, FixSeq<Dynamic<u8, Bytes>, 2>, Sequence<Dynamic<u8, Bytes>>, Sequence<Dynamic<u16, u8>>, Nullable<u8>, Nullable<Dynamic<u8, Bytes>>, Option<Dynamic<u8, Bytes>>)
}
pub fn over_long() {
    set_test("encoding_refuses_over_long_payloads");
    for n in [0usize, 1, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537, 131072] {
        set_case("payload length", &(n as u64).to_be_bytes());
        let b = Bytes::from_vec(vec![7; n]);
        macro_rules! one { ($s:ty) => { let d: Dynamic<$s, Bytes> = Dynamic::new(b.clone()); let fits = n as u64 <= <$s as Pref>::MX;
            let r = guard(|| d.to_bytes());
            match (&r, fits) { (Ok(v), true) => check!(*v == renc_of(&d), "wrong encoding of {} bytes", n), (Ok(_), false) => fail(format!("a {}-byte payload was encoded with a {} prefix", n, stringify!($s))), (Err(m), true) => fail(format!("a {}-byte payload was refused for a {} prefix: {}", n, stringify!($s), m)), (Err(_), false) => {} }
            let lp = guard(|| d.length_prefix().map(|x| { let u: usize = x.into(); u }).map_err(|_| ()));
            match lp { Ok(Ok(x)) => check!(fits && x == n, "length_prefix {} for {}", x, n), Ok(Err(())) => check!(!fits, "length_prefix refused {}", n), Err(m) => fail(format!("length_prefix panicked: {}", m)) }
            count(stringify!($s), &(n as u64).to_be_bytes(), true); } }
        one!(u8); one!(u16); one!(u30);
    }
    check!(<u8 as tedium::dynamic::LenPref>::max_len() == 255 && <u16 as tedium::dynamic::LenPref>::max_len() == 65535 && <u30 as tedium::dynamic::LenPref>::max_len() == 0x3fff_ffff, "max_len");
}
// C14 -------------------------------------------------------------------------------------
pub fn dest<T: M>(cfg: &Cfg, name: &'static str) {
    let mut r = rng(cfg, name, 14);
    for i in 0..cfg.iters {
        let (v, e) = value::<T>(&mut r, i);
        set_case(name, &e);
        let b: Vec<u8> = g!(v.encode(), "encode {:?}", v);
        let sb: StrictBuilder = v.encode(); let mb: MemoBuilder = v.encode(); let hs: HexString = v.encode();
        check!(sb.clone().into_vec() == b, "StrictBuilder got {} instead of {} for {:?}", hexs(&sb.into_vec()), hexs(&b), v);
        check!(mb.clone().into_vec() == b, "MemoBuilder got {} instead of {} for {:?}", hexs(&mb.into_vec()), hexs(&b), v);
        check!(hs.as_bytes() == &b[..], "HexString got {} instead of {} for {:?}", hexs(hs.as_bytes()), hexs(&b), v);
        check!(v.to_bytes() == b && v.to_bytes_full() == b, "to_bytes/to_bytes_full differ from encode for {:?}", v);
        check!(v.write_to(&mut std::io::sink()) == b.len(), "counting sink for {:?}", v);
        let pn = r.below(5); let prior = r.bytes(pn); let mut want = prior.clone(); want.extend_from_slice(&b);
        let mut x = prior.clone(); v.write_to_vec(&mut x); check!(x == want, "write_to_vec onto {} gave {} for {:?}", hexs(&prior), hexs(&x), v);
        let mut x = prior.clone(); v.write_to(&mut x); check!(x == want, "write_to Vec onto existing data for {:?}", v);
        let mut x = StrictBuilder::from(prior.clone()); v.write_to(&mut x); check!(x.into_vec() == want, "write_to StrictBuilder onto existing data for {:?}", v);
        let mut x = MemoBuilder::from(prior.clone()); v.write_to(&mut x); check!(x.into_vec() == want, "write_to MemoBuilder onto existing data for {:?}", v);
        let mut x = HexString::from_vec(prior.clone()); v.write_to(&mut x); check!(x.into_inner() == want, "write_to HexString onto existing data for {:?}", v);
        let sb: StrictBuilder = v.encode();
        check!(sb.len() == b.len() && sb.is_empty() == b.is_empty() && mb.len() == b.len() && mb.is_empty() == b.is_empty(), "builder len for {:?}", v);
        check!(sb.clone().into_hex() == hexs(&b) && mb.clone().into_hex() == hexs(&b) && hs.to_hex() == hexs(&b), "hex view for {:?}: {} {} {}", v, sb.into_hex(), mb.into_hex(), hs.to_hex());
        check!(sb.clone().into_bin().ok() == String::from_utf8(b.clone()).ok() && mb.clone().into_bin().ok() == String::from_utf8(b.clone()).ok(), "text view for {:?}", v);
        let fin: Vec<u8> = mb.clone().finalize().into(); check!(fin == b, "finalized MemoBuilder for {:?}", v);
        let d: String = format!("{}", mb).chars().filter(|c| c.is_ascii_hexdigit()).collect(); check!(d == hexs(&b), "displayed MemoBuilder {} for {:?}", mb, v);
        count(name, &e, !e.is_empty());
    }
}
pub fn dest_ops() {
    set_test("destination_primitives");
    let mut r = Rng::new(14);
    fn ops<U: Target>(r: &mut Rng, fin: impl Fn(U) -> Vec<u8>, nm: &str) {
        let mut t = U::create(); let mut want = vec![];
        for _ in 0..12 { match r.below(7) {
            0 => { let b = r.byte(); check!(t.push_one(b) == 1, "{} push_one count", nm); want.push(b) }
            1 => { let a = [r.byte(), r.byte(), r.byte()]; check!(t.push_many(a) == 3, "{} push_many count", nm); want.extend(a) }
            2 => { check!(t.push_many([]) == 0, "{} push_many [] count", nm) }
            3 => { let n = r.below(300); let b = r.bytes(n); check!(t.push_all(&b) == n, "{} push_all count", nm); want.extend(b) }
            4 => t.anticipate(r.below(1000)), 5 => t.resolve(), _ => check!(t.resolve_zero() == 0, "{} resolve_zero", nm) } }
        let got = fin(t); check!(got == want, "{}: wrote {} but holds {}", nm, hexs(&want), hexs(&got));
        count(if nm.len() > 5 { "dest ops a" } else { "dest ops b" }, &want, true);
    }
    for i in 0..400u32 { set_case("ops", &i.to_be_bytes()); ops::<Vec<u8>>(&mut r, |x| x, "Vec"); ops::<StrictBuilder>(&mut r, |x| x.into_vec(), "StrictBuilder"); ops::<MemoBuilder>(&mut r, |x| x.into_vec(), "MemoBuilder"); ops::<HexString>(&mut r, |x| x.into_inner(), "HexString");
        let n = r.below(20); let b = r.bytes(n);
        check!(StrictBuilder::from(b.as_slice()).into_vec() == b && MemoBuilder::from(b.as_slice()).into_vec() == b && StrictBuilder::promote(b.clone().into()).into_vec() == b && MemoBuilder::promote(b.clone()).into_vec() == b, "builder from bytes");
        let w = r.byte(); check!(StrictBuilder::word(w).into_vec() == [w] && MemoBuilder::word(w).into_vec() == [w] && StrictBuilder::words([w, 1]).into_vec() == [w, 1] && MemoBuilder::words([w, 1]).into_vec() == [w, 1] && StrictBuilder::empty().is_empty() && MemoBuilder::empty().into_vec().is_empty(), "word/words/empty");
        use std::io::Write; let mut s = StrictBuilder::from(vec![1]); let mut m = MemoBuilder::from(vec![1]); let mut h = HexString::from_vec(vec![1]); let mut want = vec![1]; want.extend_from_slice(&b);
        let _ = s.write_all(&b); let _ = m.write_all(&b); let _ = h.write_all(&b); let _ = m.flush(); let _ = s.flush(); let _ = h.flush(); check!(s.into_vec() == want && m.into_vec() == want && h.into_inner() == want, "io::Write appends");
    }
}
