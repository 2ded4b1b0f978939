//! Bounded lists (C10), hex text (C12), Zarith (C13), segmented buffers (C15), tags (C16).
use crate::codecs::Cfg;
use crate::model::*;
use crate::util::*;
use crate::{check, g};
use num_bigint::{BigInt, BigUint, Sign};
use std::convert::TryFrom;
use std::fmt::Debug;
use tedium::parse::buffer::VecBuffer;
use tedium::parse::cleanup::LeftoverState;
use tedium::*;

fn bp(b: &[u8]) -> ByteParser { ByteParser::from_buffer(VecBuffer::from(b)) }
// C10 -------------------------------------------------------------------------------------
macro_rules! seqs { ($r:expr, $it:expr, $ty:ident, $t:ty, $n:expr, $fix:expr, $mk:expr) => {{
    type S = $ty<$t, $n>; const N: usize = $n; let fix: bool = $fix;
    let nm = concat!(stringify!($ty), "<", stringify!($t), ", ", stringify!($n), ">"); set_test(nm);
    let mk = $mk; let seen = |s: &S| -> Vec<$t> { s.iter().cloned().collect() };
    let enc = |v: &[$t]| -> Vec<u8> { let mut o = vec![]; for x in v { x.renc(&mut o) } o };
    let inv = |s: &S, want: &[$t], how: &str| {
        check!(s.len() <= N, "{}: {} holds {} elements", nm, how, s.len());
        check!(seen(s) == want, "{}: {} holds {:?} instead of {:?}", nm, how, seen(s), want);
        check!(s.clone().into_iter().collect::<Vec<_>>() == want && (&*s).into_iter().cloned().collect::<Vec<_>>() == want && Vec::<$t>::from(s.clone()) == want, "{}: {}: conversion back differs from {:?}", nm, how, want);
    };
    let ch = |r: Result<S, String>, v: &[$t], ok: bool, how: &str| match r { Ok(s) => { check!(ok, "{}: {} accepted {} elements: holds {:?}", nm, how, v.len(), seen(&s)); inv(&s, v, how) } Err(m) => check!(!ok, "{}: {} refused {} elements: {}", nm, how, v.len(), m) };
    inv(&S::new(), &[], "new"); inv(&S::default(), &[], "default");
    for len in 0..=2 * N + 2 { for rep in 0..3u64 {
        let v: Vec<$t> = (0..len).map(|i| mk(i as u64 * 7 + rep)).collect(); set_case(nm, &[len as u8, rep as u8]);
        ch(g!(S::try_from(v.clone()), "{} try_from Vec of {}", nm, len).map_err(|e| format!("{}", e)), &v, if fix { len <= N } else { len <= N }, "try_from(Vec)");
        ch(g!(S::try_from(v.as_slice()), "{} try_from slice of {}", nm, len).map_err(|e| format!("{}", e)), &v, if fix { len == N } else { len <= N }, "try_from(&[T])");
        ch(guard(|| v.iter().cloned().collect::<S>()), &v, len <= N, "from_iter");
        ch(guard(|| v.iter().cloned().filter(|_| true).collect::<S>()), &v, len <= N, "from_iter (unknown length)");
        for start in 0..=N.min(len) { // extend from any fill level
            let base: S = v[..start].iter().cloned().collect();
            let mut s = base.clone(); ch(guard(|| { s.extend(v[start..].iter().cloned()); s.clone() }), &v, len <= N, "extend");
            let mut s = base.clone(); ch(guard(|| { s.extend(v[start..].iter().cloned().filter(|_| true)); s.clone() }), &v, len <= N, "extend (unknown length)");
            // a refused extension never lets the list pass its limit and keeps what was there
            let mut s = base.clone(); let _ = guard(|| s.extend(v[start..].iter().cloned())); check!(s.len() <= N && seen(&s)[..start] == v[..start], "{}: after extend holds {:?}", nm, seen(&s));
            let mid = (start + len) / 2; if mid <= N { let mut s = base.clone(); ch(guard(|| { s.extend(v[start..mid].iter().cloned()); s.extend(v[mid..].iter().cloned()); s.clone() }), &v, len <= N, "extend twice"); }
        }
        // decoding and encoding
        let b = enc(&v);
        match g!(S::parse(&mut bp(&b)), "{} decoding {}", nm, hexs(&b)) {
            Ok(s) => { let k = if fix { N } else { len }; check!(if fix { len >= N } else { len <= N } || b.is_empty(), "{}: decoding {} elements accepted", nm, len); if !b.is_empty() { inv(&s, &v[..k], "decode") } }
            Err(e) => check!(!(if fix { len >= N } else { len <= N }), "{}: decoding {} elements refused: {}", nm, len, e) }
        if len <= N { let s: S = v.iter().cloned().collect(); match guard(|| s.to_bytes()) { Ok(e) => { check!(!fix || len == N, "{}: encoded with {} elements", nm, len); check!(e == b, "{}: {:?} encoded as {}", nm, v, hexs(&e)) } Err(m) => check!(fix && len != N, "{}: encoding {} elements failed: {}", nm, len, m) } }
        count(nm, &[len as u8, rep as u8], true);
    } }
    for i in 0..$it { let n = $r.below(6 * (N + 1)); let b = $r.bytes(n); set_case(nm, &b);
        let mut p = bp(&b);
        if let Ok(s) = g!(S::parse(&mut p), "{} decoding {}", nm, hexs(&b)) { check!(if fix { s.len() == N } else { s.len() <= N }, "{}: decoding {} gave {} elements", nm, hexs(&b), s.len()); let used = b.len() - p.remainder(); let e = enc(&seen(&s)); check!(e == b[..used], "{}: decoding {} gave {:?}", nm, hexs(&b), seen(&s)); }
        count(nm, &[i as u8], false) }
    }} }
pub fn seqs(cfg: &Cfg) {
    let mut rr = Rng::new(cfg.seed ^ 10); let r = &mut rr; let it = cfg.iters;
    let b = |x: u64| x as u8; let w = |x: u64| (x as u16).wrapping_mul(257) ^ 3; let o = |x: u64| if x % 3 == 0 { None } else { Some(x as u8) }; let d = |x: u64| -> Dynamic<u8, Bytes> { Dynamic::new(Bytes::from_vec(vec![x as u8; (x % 4) as usize])) };
    seqs!(r, it, FixSeq, u8, 0, true, b); seqs!(r, it, FixSeq, u8, 1, true, b); seqs!(r, it, FixSeq, u16, 3, true, w); seqs!(r, it, FixSeq, Option<u8>, 4, true, o); seqs!(r, it, FixSeq, Dynamic<u8, Bytes>, 3, true, d); seqs!(r, it, FixSeq, u8, 9, true, b);
    seqs!(r, it, LimSeq, u8, 0, false, b); seqs!(r, it, LimSeq, u8, 1, false, b); seqs!(r, it, LimSeq, u16, 3, false, w); seqs!(r, it, LimSeq, Option<u8>, 4, false, o); seqs!(r, it, LimSeq, Dynamic<u8, Bytes>, 3, false, d); seqs!(r, it, LimSeq, u8, 9, false, b);
    set_test("LimSeq_constructors");
    for len in 0..9usize { let v: Vec<u8> = (0..len as u8).collect(); set_case("LimSeq<u8,4>", &v); match guard(|| LimSeq::<u8, 4>::from_vec(v.clone())) { Ok(s) => check!(len <= 4 && s.clone().into_vec() == v && &*s == &v[..], "from_vec of {}", len), Err(_) => check!(len > 4, "from_vec refused {}", len) }
        match guard(|| { let s: Sequence<u8> = v.iter().copied().collect(); let mut t = Sequence::from_vec(v.clone()); t.extend(v.iter().copied()); (s.into_inner(), Vec::from(t)) }) { Ok((a, b)) => check!(a == v && b == [v.clone(), v.clone()].concat(), "Sequence keeps elements"), Err(m) => fail(m) } count("LimSeq", &v, true) }
    let z: FixSeq<(), 3> = vec![(), (), ()].into_iter().collect(); check!(z.len() == 3 && z.to_bytes().is_empty() && FixSeq::<(), 3>::parse(&mut bp(&[])).map(|x| x.len()).ok() == Some(3), "zero-width elements");
}
// C12 -------------------------------------------------------------------------------------
fn hexval(c: u8) -> Option<u8> { (c as char).to_digit(16).filter(|_| c < 128).map(|x| x as u8) }
fn hexspec(s: &str) -> Option<Vec<u8>> { let b = s.as_bytes(); if b.len() % 2 != 0 { return None } b.chunks(2).map(|c| Some(hexval(c[0])? * 16 + hexval(c[1])?)).collect() }
pub fn hex(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 12);
    set_test("hex_rendering");
    let render = |b: &[u8]| {
        set_case("bytes", b); let want = hexs(b); let h = HexString::from_vec(b.to_vec());
        check!(g!(h.to_hex(), "to_hex") == want && h.to_string() == want && format!("{:?}", h).contains(&want), "to_hex of {} gave {} / {}", want, h.to_hex(), h);
        check!(StrictBuilder::from(b).into_hex() == want && MemoBuilder::from(b).into_hex() == want, "builder hex of {}", want);
        check!(HexString::from_hex(&want).ok() == Some(h.clone()) && HexString::from_hex(want.to_uppercase()).ok() == Some(h.clone()), "hex of {} does not parse back", want);
        check!(h == want.as_str() && h == want && h.eq_hex(&want.to_uppercase()) && want.as_str() == h, "{} not equal to its own hex", want);
        count("bytes", b, !b.is_empty());
    };
    render(&[]); for a in 0..=255u8 { render(&[a]); render(&[0, a]); render(&[a, 0xf0, a]) }
    for _ in 0..cfg.iters * 10 { let n = r.below(40); let b = r.bytes(n); render(&b) }
    // fixed byte strings render the same way
    for _ in 0..50 { let b = r.bytes(4); let mut a = [0u8; 4]; a.copy_from_slice(&b); let f = FixedBytes::from_array(a); check!(format!("{:x}", f).trim_start_matches("0x") == hexs(&b) , "FixedBytes {:x}", f); count("fixed", &b, true) }
    set_test("hex_parsing");
    let parse = |s: &str| {
        set_case("text", s.as_bytes()); let want = hexspec(s);
        let one = |r: Option<Vec<u8>>, how: &str| check!(r == want, "{}({:?}) gave {:?}, specified {:?}", how, s, r, want);
        one(g!(HexString::from_hex(s), "from_hex({:?})", s).ok().map(|h| h.into_inner()), "from_hex");
        one(g!(HexString::try_from(s), "try_from({:?})", s).ok().map(|h| h.into_inner()), "try_from &str");
        one(g!(HexString::try_from(s.to_string()), "try_from String").ok().map(|h| h.into_inner()), "try_from String");
        one(g!(s.parse::<HexString>(), "from_str").ok().map(|h| h.into_inner()), "from_str");
        one(HexString::try_from(std::rc::Rc::<str>::from(s)).ok().map(|h| h.into_inner()), "try_from Rc"); one(HexString::try_from(std::sync::Arc::<str>::from(s)).ok().map(|h| h.into_inner()), "try_from Arc"); one(HexString::try_from(Box::<str>::from(s)).ok().map(|h| h.into_inner()), "try_from Box"); one(HexString::try_from(std::borrow::Cow::from(s)).ok().map(|h| h.into_inner()), "try_from Cow");
        one(guard(|| hex!(s).into_inner()).ok(), "hex!");
        for b in [want.clone().unwrap_or_default(), vec![0; s.len() / 2], { let mut w = want.clone().unwrap_or_default(); if let Some(x) = w.last_mut() { *x ^= 1 } w }, { let mut w = want.clone().unwrap_or_default(); w.push(0); w }] {
            let h = HexString::from_vec(b.clone()); let eq = want.as_ref() == Some(&b);
            check!(g!(h.eq_hex(s), "eq_hex {:?}", s) == eq && (h == s) == eq && (s == h) == eq && (h == s.to_string()) == eq && (s.to_string() == h) == eq && (h == std::borrow::Cow::from(s)) == eq, "{} == {:?} must be {}", hexs(&b), s, eq);
        }
        count("text", s.as_bytes(), true);
    };
    for a in 0..128u8 { parse(&(a as char).to_string()); for b in 0..128u8 { let s: String = [a as char, b as char].iter().collect(); parse(&s) } }
    let al: Vec<char> = "0019afAFgG+- xX_é語\u{1F600}".chars().collect();
    for a in &al { for b in &al { for c in &al { parse(&[*a, *b, *c].iter().collect::<String>()); for d in &al { if cfg.thorough || (*d as u32 * 7 + *a as u32) % 3 == 0 { parse(&[*a, *b, *c, *d].iter().collect::<String>()) } } } } }
    for _ in 0..cfg.iters * 20 { let n = r.below(30); let mut s: Vec<char> = (0..n).map(|_| "0123456789abcdefABCDEF".chars().nth(r.below(22)).unwrap()).collect(); if r.chance(1, 3) && n > 0 { let k = r.below(n); s[k] = *[al[r.below(al.len())], '/', ':', '@', 'G', '`', 'g', '\0'].get(r.below(8)).unwrap() } parse(&s.iter().collect::<String>()) }
}
// C13 -------------------------------------------------------------------------------------
pub fn zarith(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 13);
    let val = |n: BigUint| {
        set_test("naturals"); let v = N(n.clone()); let mut want = vec![]; v.renc(&mut want); set_case("N", &want);
        let e = g!(v.to_bytes(), "encoding {}", v); check!(e == want, "{} encodes as {}, Zarith layout is {}", v, hexs(&e), hexs(&want));
        let mut t = e.clone(); t.push(0x85); let mut p = bp(&t);
        match g!(N::parse(&mut p), "decoding {}", hexs(&t)) { Ok(w) => check!(w == v && p.remainder() == 1, "{} decodes as {} leaving {}", hexs(&e), w, p.remainder()), Err(x) => fail(format!("{} rejected: {}", hexs(&e), x)) }
        check!(u64::try_from(v.clone()).ok() == u64::try_from(n.clone()).ok() && u8::try_from(v.clone()).ok() == u8::try_from(n.clone()).ok() && u16::try_from(v.clone()).ok() == u16::try_from(n.clone()).ok() && u32::try_from(v.clone()).ok() == u32::try_from(n.clone()).ok() && BigUint::from(v.clone()) == n && v.clone().into_inner() == n && *v.as_inner() == n && N::new(n.clone()) == v, "conversions of {}", n);
        count("N", &want, true);
        for s in [Sign::Plus, Sign::Minus] {
            set_test("integers"); let i = BigInt::from_biguint(s, n.clone()); let v = Z(i.clone()); let mut want = vec![]; v.renc(&mut want); set_case("Z", &want);
            let e = g!(v.to_bytes(), "encoding {}", v); check!(e == want, "{} encodes as {}, Zarith layout is {}", v, hexs(&e), hexs(&want));
            let mut t = e.clone(); t.push(0xc5); let mut p = bp(&t);
            match g!(Z::parse(&mut p), "decoding {}", hexs(&t)) { Ok(w) => check!(w == v && p.remainder() == 1, "{} decodes as {} leaving {}", hexs(&e), w, p.remainder()), Err(x) => fail(format!("{} rejected: {}", hexs(&e), x)) }
            macro_rules! c { ($($t:ty),*) => { $( check!(<$t>::try_from(v.clone()).ok() == <$t>::try_from(i.clone()).ok(), "converting {} to {}", i, stringify!($t)); )* } } c!(i8, i16, i32, i64, u8, u16, u32, u64);
            check!(BigInt::from(v.clone()) == i && Z::new(i.clone()) == v && v.clone().into_inner() == i, "conversions of {}", i);
            count("Z", &want, true);
        }
    };
    for k in 0..20000u32 { val(BigUint::from(k)) }
    for k in 0..420usize { let p = BigUint::from(1u8) << k; for d in 0..3u32 { val(&p + BigUint::from(d)); if p > BigUint::from(d) { val(&p - BigUint::from(d)) } } }
    for i in 0..cfg.iters * 20 { val(big(&mut r, i % 40)) }
    let bytes = |b: &[u8]| {
        set_case("bytes", b); set_test("natural_bytes");
        let mut c = Cur::new(b); let want = N::rdec(&mut c); let mut p = bp(b); let got = g!(N::parse(&mut p), "decoding {}", hexs(b));
        if !c.dc { match (&want, &got) { (Some(w), Ok(v)) => check!(w == v && p.remainder() == c.rem(), "{} decodes as {} leaving {}, specified {} leaving {}", hexs(b), v, p.remainder(), w, c.rem()), (None, Err(_)) => {} (w, v) => fail(format!("decoding {} gave {:?}, specified {:?}", hexs(b), v.as_ref().ok(), w)) } }
        set_test("integer_bytes");
        let mut c = Cur::new(b); let want = Z::rdec(&mut c); let mut p = bp(b); let got = g!(Z::parse(&mut p), "decoding {}", hexs(b));
        if !c.dc { match (&want, &got) { (Some(w), Ok(v)) => check!(w == v && p.remainder() == c.rem(), "{} decodes as {} leaving {}, specified {} leaving {}", hexs(b), v, p.remainder(), w, c.rem()), (None, Err(_)) => {} (w, v) => fail(format!("decoding {} gave {:?}, specified {:?}", hexs(b), v.as_ref().ok(), w)) } }
        count("zbytes", b, true);
    };
    bytes(&[]); for a in 0..=255u8 { bytes(&[a]); for b in 0..=255u8 { bytes(&[a, b]); if cfg.thorough || b % 16 == 1 { for c in [0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc1, 0xff] { bytes(&[a, b, c]) } } } }
    for _ in 0..cfg.iters * 20 { let n = 1 + r.below(24); let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8 | 0x80).collect(); if r.chance(3, 4) { let k = r.below(n); b[k] &= 0x7f } bytes(&b) }
}
// C15 -------------------------------------------------------------------------------------
#[derive(Clone, Debug, Default, PartialEq)]
struct Seg { stable: Vec<Vec<u8>>, active: Option<Vec<u8>> }
impl Seg {
    fn add(&mut self, b: &[u8]) { self.active.get_or_insert(vec![]).extend_from_slice(b) }
    fn split(&mut self) { if let Some(a) = self.active.take() { self.stable.push(a) } }
    fn force(&mut self) { let a = self.active.take().unwrap_or_default(); self.stable.push(a) }
    fn all(&self) -> Vec<Vec<u8>> { self.stable.iter().chain(self.active.iter()).cloned().collect() }
}
#[derive(Clone, Debug)] enum SOp { Push(u8), Ext(Vec<u8>), Slice(Vec<u8>), App(Vec<u8>), Split, Force, Cleave, Cat(Vec<SOp>), Many(Vec<Vec<u8>>) }
pub fn splitvec(cfg: &Cfg) {
    set_test("segmented_buffer_histories");
    // a fresh, empty segmented buffer (the type is only reachable through the leftover report)
    let fresh = || { let mut l = LeftoverState::new(); l.escape_context(); l };
    macro_rules! with { ($l:expr, $s:ident, $e:expr) => { match $l { LeftoverState::Windowed($s) => $e, _ => fail("escape_context does not give a windowed report".into()) } } }
    let mut base = fresh();
    with!(&mut base, s, { *s = Default::default(); });
    fn run(ops: &[SOp], base: &LeftoverState) -> (LeftoverState, Seg) {
        let mut l = base.clone(); let mut m = Seg::default();
        for o in ops { if let LeftoverState::Windowed(s) = &mut l { match o {
            SOp::Push(b) => { s.push_current(*b); m.add(&[*b]) } SOp::Ext(b) => { s.extend_current(b.iter().copied()); m.add(b) } SOp::Slice(b) => { s.extend_current_from_slice(b); m.add(b) }
            SOp::App(b) => { let mut c = b.clone(); s.append_current(&mut c); check!(c.is_empty(), "append_current left bytes in its source"); m.add(b) }
            SOp::Split => { s.split(); m.split() } SOp::Force => { s.split_force(); m.force() } SOp::Cleave => { s.cleave(); m.split(); m.force() }
            SOp::Many(bs) => { s.extend(bs.iter().map(|b| b.iter().copied())); for b in bs { m.split(); m.add(b) } m.split() }
            SOp::Cat(inner) => { let (mut ol, om) = run(inner, base); if let LeftoverState::Windowed(o) = &mut ol { s.concat(o); check!(o.len() == 0 && o.is_empty() && o.spans().count() == 0, "concat left something in its source: {}", o) } m.split(); m.stable.extend(om.stable); m.active = om.active }
        } } }
        (l, m)
    }
    let base2 = base.clone();
    let mut r = Rng::new(cfg.seed ^ 15);
    let mut one = |ops: &[SOp]| {
        let k = format!("{:?}", ops).into_bytes(); set_case("ops", &k);
        let (l, m) = g!(run(ops, &base2), "{:?}", ops);
        with!(&l, s, {
            let want = m.all(); let bytes: Vec<u8> = want.concat();
            let f: Vec<Vec<u8>> = g!(s.spans().map(|x| x.to_vec()).collect(), "spans {:?}", ops); check!(f == want, "{:?}: segments {:?}, specified {:?}", ops, f, want);
            let mut bk: Vec<Vec<u8>> = g!(s.spans().rev().map(|x| x.to_vec()).collect(), "spans from the back {:?}", ops); bk.reverse(); check!(bk == want, "{:?}: segments from the back {:?}, specified {:?}", ops, bk, want);
            // both ends, alternating in a pseudo-random pattern
            let mut it = s.spans(); let (mut a, mut b) = (vec![], vec![]); let mut pat = r.next();
            g!(loop { let x = if pat & 1 == 0 { it.next().map(|x| a.push(x.to_vec())) } else { it.next_back().map(|x| b.push(x.to_vec())) }; pat = pat.rotate_right(1); if x.is_none() { break } }, "spans from both ends {:?}", ops);
            b.reverse(); a.extend(b); check!(a == want, "{:?}: segments from both ends {:?}, specified {:?}", ops, a, want);
            check!(s.len() == bytes.len() && s.is_balanced() && s.is_empty() == (bytes.is_empty() && want.is_empty()), "{:?}: len {} balanced {} empty {}", ops, s.len(), s.is_balanced(), s.is_empty());
            check!(s.is_contiguous() == (want.len() <= 1), "{:?}: is_contiguous {} with segments {:?}", ops, s.is_contiguous(), want);
            let (b2, lens) = s.clone().into_parts(); check!(b2 == bytes && lens == want.iter().map(|x| x.len()).collect::<Vec<_>>(), "{:?}: into_parts {} {:?}", ops, hexs(&b2), lens);
            check!(s.clone().into_inner() == bytes && s.as_ref() == &bytes && Vec::from(s.clone()) == bytes, "{:?}: bytes {}", ops, hexs(s.as_ref()));
            let shown = format!("{}", s); let exp = format!("[|{}]", want.iter().map(|x| format!("{}|", hexs(x))).collect::<String>()); check!(shown == exp, "{:?}: displayed {} instead of {}", ops, shown, exp);
            let c = s.clone(); check!(&c == s, "{:?}: clone differs", ops);
        });
        count("ops", &k, true);
    };
    let alpha = vec![SOp::Push(1), SOp::Slice(vec![]), SOp::App(vec![2, 3]), SOp::Split, SOp::Force, SOp::Cleave, SOp::Cat(vec![]), SOp::Cat(vec![SOp::Push(9), SOp::Split, SOp::Push(8)]), SOp::Cat(vec![SOp::Push(7), SOp::Split]), SOp::Many(vec![vec![4], vec![5, 6]])];
    let depth = if cfg.thorough { 5 } else { 4 }; let n = alpha.len();
    for len in 0..=depth { for mut c in 0..n.pow(len as u32) { let mut ops = vec![]; for _ in 0..len { ops.push(alpha[c % n].clone()); c /= n } one(&ops) } }
    fn rop(r: &mut Rng, depth: usize) -> SOp { let n = r.below(5); match r.below(10) { 0 => SOp::Push(r.byte()), 1 => SOp::Ext(r.bytes(n)), 2 => SOp::Slice(r.bytes(n)), 3 => SOp::App(r.bytes(n)), 4 | 5 => SOp::Split, 6 => SOp::Force, 7 => SOp::Cleave, 8 if depth > 0 => { let k = r.below(6); SOp::Cat((0..k).map(|_| rop(r, depth - 1)).collect()) } _ => { let k = r.below(4); SOp::Many((0..k).map(|_| { let n = r.below(4); r.bytes(n) }).collect()) } } }
    let mut r2 = Rng::new(cfg.seed ^ 155);
    for _ in 0..cfg.iters * 30 { let k = r2.below(20); let ops: Vec<SOp> = (0..k).map(|_| rop(&mut r2, 2)).collect(); one(&ops) }
    // the recording builder is built on it
    set_test("recording_builder_segments");
    for _ in 0..cfg.iters * 4 { let k = r2.below(12); let mut m = MemoBuilder::new(); let mut all = vec![]; let mut hist = vec![];
        for _ in 0..k { let n = r2.below(5); let b = r2.bytes(n); match r2.below(4) { 0 => { m.push_one(n as u8); all.push(n as u8); hist.push(vec![n as u8]) } 1 => { m.push_all(&b); all.extend_from_slice(&b); hist.push(b) } 2 => m.resolve(), _ => { m.push_many([1, 2]); all.extend([1, 2]); hist.push(vec![1, 2]) } } }
        set_case("builder", &all);
        check!(m.len() == all.len() && m.clone().into_vec() == all, "MemoBuilder after {:?} holds {}", hist, hexs(&m.into_vec()));
        let d: String = format!("{}", m).chars().filter(|c| c.is_ascii_hexdigit()).collect(); check!(d == hexs(&all), "displayed {} for {:?}", m, hist); count("builder", &all, true) }
}
// C16 -------------------------------------------------------------------------------------
fn tagged<T: EnumLike>(cfg: &Cfg, nm: &'static str) {
    set_test(nm);
    let mut r = Rng::new(cfg.seed ^ 16 ^ nm.len() as u64); let (w, _) = T::tag_width().unwrap(); let decl = T::decl();
    let names: Vec<(u64, &str)> = decl.clone();
    check!(g!(T::tags(), "iter_tags") == decl.iter().map(|x| x.0).collect::<Vec<_>>(), "iter_tags gives {:?}, declared {:?}", T::tags(), decl);
    let mut tags: Vec<u64> = if w <= 2 { (0..1u64 << (8 * w)).collect() } else { let mut v: Vec<u64> = (0..300).collect(); for (t, _) in &decl { for d in 0..3 { v.push(t.wrapping_add(d) & 0xffff_ffff); v.push(t.wrapping_sub(d) & 0xffff_ffff); v.push(t.swap_bytes() >> 32); v.push(t ^ (1 << 31)); v.push(t ^ (1 << 16)) } } for _ in 0..cfg.iters * 20 { v.push(r.next() & 0xffff_ffff) } v };
    tags.sort(); tags.dedup();
    for t in tags {
        let b: Vec<u8> = (0..w).rev().map(|i| (t >> (8 * i)) as u8).collect(); set_case("tag", &b);
        let want = names.iter().find(|x| x.0 == t);
        check!(T::valid(t) == want.is_some(), "is_valid_tag({}) is {}", t, T::valid(t));
        check!(T::nm(t) == want.map(|x| x.1), "get_name({}) is {:?}", t, T::nm(t));
        if let Some(x) = T::tryf(t) { check!(x.ok() == want.map(|x| x.0), "try_from({}) is {:?}", t, x) }
        // the tag followed by several payloads
        for k in 0..4 {
            let mut d = b.clone(); if k > 0 { if want.is_some() && r.chance(1, 2) { loop { let v = T::gen(&mut r, k); if v.encodable() && renc_of(&v)[..w] == b[..] { d = renc_of(&v); break } } } else { let n = r.below(12); d.extend(r.bytes(n)) } }
            let mut c = Cur::new(&d); let spec = T::rdec(&mut c); if c.dc { continue }
            let mut p = bp(&d); let got = g!(T::parse(&mut p), "decoding {}", hexs(&d));
            match (&got, &spec) {
                (Ok(v), Some(s)) => { check!(v.eqv(s) && p.remainder() == c.rem(), "decoding {} gave {:?}, specified {:?}", hexs(&d), v, s); check!(v.tagval() == t && names[v.idx()].0 == t, "tag value of {:?}", v); check!(v.to_bytes()[..w] == b[..], "{:?} encodes its tag as {}", v, hexs(&v.to_bytes())) }
                (Err(e), None) => if want.is_none() { let m = format!("{} {:?}", e, e); check!(m.contains(&format!("{:x}", t)) || m.contains(&format!("{}", t)), "error for undeclared tag {} does not name it: {}", t, m) },
                (Ok(v), None) => fail(format!("decoding {} gave {:?} instead of an error", hexs(&d), v)), (Err(e), Some(s)) => fail(format!("decoding {} failed ({}) instead of {:?}", hexs(&d), e, s)) }
            if want.is_none() && k == 0 { break }
        }
        count("tag", &b, true);
    }
    for k in 0..w { let d = vec![0u8; k]; check!(g!(T::parse(&mut bp(&d)), "short tag").is_err(), "{} bytes accepted as a {}-byte tag", k, w) }
}
pub fn tags(cfg: &Cfg) {
    tagged::<E8>(cfg, "E8"); tagged::<E16>(cfg, "E16"); tagged::<E32>(cfg, "E32"); tagged::<Only>(cfg, "Only"); tagged::<U8>(cfg, "U8"); tagged::<U16>(cfg, "U16"); tagged::<U32>(cfg, "U32"); tagged::<Tree>(cfg, "Tree");
    set_test("take_tagword");
    fn all<const K: usize>(d: &[u8], set: [u8; K]) {
        set_case("tag set", &set); let t = d[0]; let ok = set.contains(&t);
        let one = |r: Result<u8, parse::error::ParseError>, how: &str| match r { Ok(x) => check!(ok && x == t, "{} with valid tags {:?} accepted {} as {}", how, set, t, x), Err(e) => { check!(!ok, "{} with valid tags {:?} rejected {}", how, set, t); if K == 0 { let _ = format!("{}", e); } else { let m = format!("{:?} {}", e, e); check!(m.contains(&format!("{:x}", t)) || m.contains(&format!("{}", t)), "{}: error does not name the tag {}: {}", how, t, m) } } };
        one(g!(bp(d).take_tagword::<u8, u8, _>(set), "array"), "array"); one(g!(bp(d).take_tagword::<u8, u8, _>(&set), "&array"), "&array"); one(g!(bp(d).take_tagword::<u8, u8, _>(&set[..]), "slice"), "slice");
        one(g!(bp(d).take_tagword::<u8, u8, _>(set.to_vec()), "Vec"), "Vec"); one(g!(bp(d).take_tagword::<u8, u8, _>(&set.to_vec()), "&Vec"), "&Vec"); one(g!(bp(d).take_tagword::<u8, u8, _>(set.iter().copied().collect::<std::collections::HashSet<u8>>()), "HashSet"), "HashSet");
        let w16: Vec<u16> = set.iter().map(|x| *x as u16 * 257).collect(); let r = g!(bp(&[t, t]).take_tagword::<u8, u16, _>(w16.clone()), "u16"); check!(r.is_ok() == ok && r.map_or(true, |x| x == t as u16 * 257), "16-bit tag {} with {:?}", t as u16 * 257, w16);
        let w32: Vec<u32> = set.iter().map(|x| *x as u32 * 0x1010101).collect(); let r = g!(bp(&[t, t, t, t]).take_tagword::<u8, u32, _>(w32.clone()), "u32"); check!(r.is_ok() == ok && r.map_or(true, |x| x == t as u32 * 0x1010101), "32-bit tag");
        count("tagword", &[t, K as u8], true);
    }
    for t in 0..=255u8 { let d = [t, 1, 2, 3]; all(&d, []); all(&d, [0]); all(&d, [255]); all(&d, [7, 3]); all(&d, [0, 1, 2]); all(&d, [1, 2, 4, 8, 16, 32, 64, 128]); all(&d, [5, 5]) }
}
#[allow(dead_code)] fn _d<T: Debug>() {}
