//! Range-limited integers (C08) and floats (C09).
use crate::codecs::Cfg;
use crate::util::*;
use crate::{check, g};
use std::convert::TryFrom;
use tedium::parse::buffer::VecBuffer;
use tedium::*;

fn be(v: i64, n: usize) -> Vec<u8> { (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect() }
/// interesting 64-bit integers around `lo`, `hi`
fn around(lo: i128, hi: i128, r: &mut Rng, k: usize) -> Vec<i128> {
    let mut v = vec![];
    for c in [lo, hi, 0, hi - lo, lo - hi, -hi, -lo, 127, 128, 255, 256, 32767, 32768, 65535, 65536, i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0x3fff_ffff, -0x4000_0000, lo + (1 << 8), lo + (1 << 16), lo + (1 << 32), hi + (1 << 8), hi + (1 << 16), hi + (1 << 32), lo - (1 << 32), hi - (1 << 32)] { for d in -3..=3i128 { v.push(c + d) } }
    for _ in 0..k { v.push(lo + (r.next() as i128).rem_euclid(hi - lo + 1)); v.push((r.next() as i64 >> r.below(64)) as i128); v.push((r.next() >> r.below(64)) as i128) }
    v
}
macro_rules! ri { ($r:expr, $k:expr, $b:ty, $n:expr, $min:expr, $max:expr, [$($d:ty),*]) => {{
    type T = RangedInt<$b, { $min }, { $max }>;
    let nm = concat!("RangedInt<", stringify!($b), ", ", stringify!($min), ", ", stringify!($max), ">"); set_test(nm);
    let (lo, hi): (i64, i64) = ($min, $max); let off: i64 = if lo > 0 { lo } else { 0 };
    let num = |x: &T| -> i64 { x.to_i32() as i64 };
    // every observation of a value built for the number v
    let obs = |x: T, v: i64, how: &str| {
        check!(g!(num(&x), "{} to_i32 of {}", nm, v) == v, "{}: {}({}) reads back as {}", nm, how, v, num(&x));
        check!(g!(x.to_underlying(), "{} to_underlying of {}", nm, v) as i64 == v - off, "{}: {}({}) stores {}", nm, how, v, x.to_underlying());
        $( match g!(<$d>::try_from(x), "{} converting {} to {}", nm, v, stringify!($d)) { Ok(y) => if <$d>::try_from(v).is_ok() { check!(y as i128 == v as i128, "{}: {}({}) converts to {} {}", nm, how, v, y, stringify!($d)) },
            Err(_) => check!(<$d>::try_from(v).is_err(), "{}: {}({}) cannot be converted to {}", nm, how, v, stringify!($d)) } )*
        let e = g!(x.to_bytes(), "{} encoding {}", nm, v); check!(e == be(v - off, $n), "{}: {}({}) encodes as {}", nm, how, v, hexs(&e));
        match T::parse(&mut ByteParser::from_buffer(VecBuffer::from(e.clone()))) { Ok(y) => check!(num(&y) == v && y == x, "{}: {} decodes as {}", nm, hexs(&e), num(&y)), Err(q) => fail(format!("{}: encoding {} of {} rejected: {}", nm, hexs(&e), v, q)) }
    };
    // raw stored numbers: exhaustive for narrow backers
    let raws: Vec<i128> = if $n <= 2 { (<$b>::MIN as i128..=<$b>::MAX as i128).collect() } else { let mut a = around((lo - off) as i128, (hi - off) as i128, $r, $k); a.retain(|x| <$b>::try_from(*x).is_ok()); a };
    for raw in raws {
        let raw = raw as $b; set_case(nm, &be(raw as i64, $n)); let ok = raw as i64 >= lo - off && raw as i64 <= hi - off;
        match g!(T::try_from_underlying(raw), "{} try_from_underlying({})", nm, raw) { Ok(x) => { check!(ok, "{}: stored number {} accepted", nm, raw); obs(x, raw as i64 + off, "try_from_underlying") } Err(_) => check!(!ok, "{}: stored number {} rejected", nm, raw) }
        match guard(|| T::from_underlying(raw)) { Ok(x) => check!(ok && num(&x) == raw as i64 + off, "{}: from_underlying({}) accepted as {}", nm, raw, num(&x)), Err(_) => check!(!ok, "{}: from_underlying({}) panicked", nm, raw) }
        let e = be(raw as i64, $n);
        match g!(T::parse(&mut ByteParser::from_buffer(VecBuffer::from(e.clone()))), "{} decoding {}", nm, hexs(&e)) { Ok(x) => check!(ok && num(&x) == raw as i64 + off, "{}: bytes {} decoded as {}", nm, hexs(&e), num(&x)), Err(_) => check!(!ok, "{}: bytes {} rejected", nm, hexs(&e)) }
        count(nm, &e, true);
    }
    let mut nums = around(lo as i128, hi as i128, $r, $k); if $n <= 2 { nums.extend(-70000..70000i128) }
    for v in nums {
        set_case(nm, &(v as i64).to_be_bytes()); let ok = v >= lo as i128 && v <= hi as i128;
        if let Ok(x) = i32::try_from(v) {
            match g!(T::try_from_i32(x), "{} try_from_i32({})", nm, x) { Ok(y) => { check!(ok, "{}: try_from_i32({}) accepted", nm, x); obs(y, x as i64, "try_from_i32") } Err(_) => check!(!ok, "{}: try_from_i32({}) rejected", nm, x) }
            match guard(|| T::from_i32(x)) { Ok(y) => check!(ok && num(&y) == x as i64, "{}: from_i32({}) accepted as {}", nm, x, num(&y)), Err(_) => check!(!ok, "{}: from_i32({}) panicked", nm, x) }
        }
        macro_rules! from { ($s:ty) => { if let Ok(x) = <$s>::try_from(v) { match g!(T::try_from(x), "{} try_from({}{})", nm, x, stringify!($s)) { Ok(y) => { check!(ok, "{}: try_from({}{}) accepted", nm, x, stringify!($s)); obs(y, v as i64, concat!("try_from ", stringify!($s))) } Err(_) => check!(!ok, "{}: try_from({}{}) rejected", nm, x, stringify!($s)) } } } }
        from!(u8); from!(i8); from!(u16); from!(i16); from!(u32); from!(i32); from!(u64); from!(i64); from!(usize); from!(isize);
        count(nm, &v.to_be_bytes(), true);
    }
    check!(num(&T::min_val()) == lo && num(&T::max_val()) == hi, "{}: min_val {} max_val {}", nm, num(&T::min_val()), num(&T::max_val()));
    check!(num(&T::default()) == 0.max(lo).min(hi), "{}: default {}", nm, num(&T::default()));
}} }
macro_rules! du8 { ($($a:tt)*) => { ri!($($a)*, [u8, u16, i16, u32, i32, u64, i64, usize, isize, i8]) } }
macro_rules! di8 { ($($a:tt)*) => { ri!($($a)*, [i8, i16, i32, i64, isize, u8, u16, u32, u64, usize]) } }
macro_rules! du16 { ($($a:tt)*) => { ri!($($a)*, [u32, i32, u64, i64, usize, isize, i8, u8, i16]) } }
macro_rules! di16 { ($($a:tt)*) => { ri!($($a)*, [i16, i32, i64, isize, i8, u8, u16, u32, u64, usize]) } }
macro_rules! du32 { ($($a:tt)*) => { ri!($($a)*, [u32, i32, u64, i64, usize, isize, i8, u8, i16, u16]) } }
macro_rules! di32 { ($($a:tt)*) => { ri!($($a)*, [i32, i64, isize, i8, u8, i16, u16, u32, u64, usize]) } }
pub fn ints(cfg: &Cfg) {
    let mut rr = Rng::new(cfg.seed ^ 8); let r = &mut rr; let k = cfg.iters * 4;
    du8!(r, k, u8, 1, 0, 255); du8!(r, k, u8, 1, 0, 9); du8!(r, k, u8, 1, 3, 9); du8!(r, k, u8, 1, 10, 200); du8!(r, k, u8, 1, 100, 355); du8!(r, k, u8, 1, 1, 1); du8!(r, k, u8, 1, 0, 0); du8!(r, k, u8, 1, 100000, 100100);
    di8!(r, k, i8, 1, -128, 127); di8!(r, k, i8, 1, -5, 100); di8!(r, k, i8, 1, -100, -3); di8!(r, k, i8, 1, 0, 127); di8!(r, k, i8, 1, 5, 132); di8!(r, k, i8, 1, -1, 0);
    du16!(r, k, u16, 2, 0, 65535); du16!(r, k, u16, 2, 1, 1000); du16!(r, k, u16, 2, 300, 65835); du16!(r, k, u16, 2, 0, 256);
    di16!(r, k, i16, 2, -300, 300); di16!(r, k, i16, 2, -32768, 32767); di16!(r, k, i16, 2, 7, 32774); di16!(r, k, i16, 2, -40, -20);
    du32!(r, k, u32, 4, 0, 0x3fff_ffff); du32!(r, k, u32, 4, 500, 1000000); du32!(r, k, u32, 4, 1, 0x3fff_ffff); du32!(r, k, u32, 4, 0, 65536); du32!(r, k, u32, 4, 0x3fff_fffe, 0x3fff_ffff);
    di32!(r, k, i32, 4, -0x4000_0000, 0x3fff_ffff); di32!(r, k, i32, 4, -70000, 70000); di32!(r, k, i32, 4, 12, 0x3fff_ffff); di32!(r, k, i32, 4, -0x4000_0000, -0x3fff_ffff);
}
fn specials() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::EPSILON, f64::MAX, f64::MIN, 5.0, 100.0, -10.0, 0.5, f64::from_bits(1), f64::from_bits(0x8000000000000001), f64::from_bits(0x7ff0000000000001), f64::from_bits(0x7ff8dead00000000), 0.1f32 as f64, 1e-300, 1e300];
    let c = v.clone(); for x in c { for d in [1u64, 2] { v.push(f64::from_bits(x.to_bits().wrapping_add(d))); v.push(f64::from_bits(x.to_bits().wrapping_sub(d))) } } v
}
fn rf<const A: u64, const B: u64>(cfg: &Cfg, nm: &'static str) {
    set_test(nm);
    type F<const A: u64, const B: u64> = RangedFloat<A, B>;
    let (a, b) = (f64::from_bits(A), f64::from_bits(B));
    let mut r = Rng::new(cfg.seed ^ 9 ^ A ^ B);
    let mut xs = specials(); for e in [a, b] { for d in 0..3u64 { xs.push(f64::from_bits(e.to_bits().wrapping_add(d))); xs.push(f64::from_bits(e.to_bits().wrapping_sub(d))) } }
    for _ in 0..cfg.iters * 40 { xs.push(f64::from_bits(r.next())); let t = (r.next() >> 11) as f64 / (1u64 << 53) as f64; xs.push(a + (b - a) * t); xs.push((r.next() as i64 as f64) / 1e17) }
    for x in xs {
        set_case(nm, &x.to_bits().to_be_bytes());
        let ok = x >= a && x <= b; // false for NaN
        let t = |o: Option<f64>, how: &str| match o { Some(y) => check!(ok && y.to_bits() == x.to_bits(), "{}: {}({:?} = {:016x}) gave {:?} = {:016x}", nm, how, x, x.to_bits(), y, y.to_bits()), None => check!(!ok, "{}: {}({:?}) rejected", nm, how, x) };
        t(g!(F::<A, B>::try_from_f64(x), "try_from_f64").ok().map(|v| *v.as_f64()), "try_from_f64");
        t(g!(F::<A, B>::try_from(x), "try_from").ok().map(|v| v.into()), "try_from");
        t(g!(F::<A, B>::prevalidate_f64(x), "prevalidate").ok(), "prevalidate_f64");
        t(guard(|| F::<A, B>::from_f64(x)).ok().map(|v| *v.as_f64()), "from_f64");
        let e = x.to_bits().to_be_bytes().to_vec();
        let dec = g!(F::<A, B>::parse(&mut ByteParser::from_buffer(VecBuffer::from(e.clone()))), "decoding"); 
        if let Ok(v) = &dec { check!(v.to_bytes() == e, "{}: {:?} encodes as {}", nm, x, hexs(&v.to_bytes())); check!(v.get_validated().ok().map(|y| y.to_bits()) == Some(x.to_bits()), "{}: get_validated({:?})", nm, x) }
        t(dec.ok().map(|v| v.into()), "decode");
        let p = f64::parse(&mut ByteParser::from_buffer(VecBuffer::from(e.clone()))); check!(p.map(|y| y.to_bits()).ok() == Some(x.to_bits()) && x.to_bytes() == e, "plain float {:016x}", x.to_bits());
        let y = x as f32; let oky = y as f64 >= a && y as f64 <= b;
        match g!(F::<A, B>::try_from(y), "try_from f32") { Ok(v) => check!(oky && *v.as_f64() == y as f64 && v.as_f64().to_bits() == (y as f64).to_bits(), "{}: try_from({:?}f32) gave {:?}", nm, y, v), Err(_) => check!(!oky, "{}: try_from({:?}f32) rejected", nm, y) }
        check!(g!(F::<A, B>::prevalidate_f32(y), "prevalidate_f32").is_ok() == oky, "{}: prevalidate_f32({:?})", nm, y);
        count(nm, &e, true);
    }
    if a <= b { check!(F::<A, B>::MIN.as_f64().to_bits() == A && F::<A, B>::MAX.as_f64().to_bits() == B, "{}: MIN/MAX", nm); let d = *F::<A, B>::default().as_f64(); check!(d >= a && d <= b, "{}: default {}", nm, d) }
}
pub fn floats(cfg: &Cfg) {
    rf::<0, 0x3ff0000000000000>(cfg, "RangedFloat[0,1]"); rf::<0xc024000000000000, 0x3ff0000000000000>(cfg, "RangedFloat[-10,1]"); rf::<0x4014000000000000, 0x4059000000000000>(cfg, "RangedFloat[5,100]");
    rf::<0xfff0000000000000, 0x7ff0000000000000>(cfg, "RangedFloat[-inf,inf]"); rf::<0xc059000000000000, 0xc014000000000000>(cfg, "RangedFloat[-100,-5]"); rf::<0x3ff0000000000000, 0x3ff0000000000000>(cfg, "RangedFloat[1,1]");
    rf::<0x8000000000000000, 0>(cfg, "RangedFloat[-0,0]"); rf::<0x3ff0000000000000, 0>(cfg, "RangedFloat[1,0]"); rf::<0x7ff8000000000000, 0x3ff0000000000000>(cfg, "RangedFloat[NaN,1]"); rf::<0, 0x7ff8000000000000>(cfg, "RangedFloat[0,NaN]");
    rf::<0xffefffffffffffff, 0x7fefffffffffffff>(cfg, "RangedFloat[MIN,MAX]"); rf::<0x3fb999999999999a, 0x3fe0000000000000>(cfg, "RangedFloat[0.1,0.5]"); rf::<1, 0x000fffffffffffff>(cfg, "RangedFloat[subnormal]");
}
