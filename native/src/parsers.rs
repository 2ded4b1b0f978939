//! Operation-sequence checks of the three parsers against a reference model (a byte string,
//! a position and a stack of window ends).
use crate::util::*;
use crate::{check, g};
use std::fmt::Debug;
use tedium::dynamic::LenPref;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::ParserExt;
use tedium::*;

/// segments of the leftover report, in order
pub fn segments(l: &LeftoverState) -> Vec<Vec<u8>> {
    match l { LeftoverState::Empty => vec![], LeftoverState::Windowless(v) => vec![v.clone()], LeftoverState::Windowed(s) => s.spans().map(|x| x.to_vec()).collect() }
}
pub fn leftovers<P: Parser>(p: P) -> Vec<Vec<u8>> {
    match p.cleanup() { Ok(l) => segments(&l), Err(e) => vec![format!("cleanup error {}", e).into_bytes()] }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Byte, Next, Take(usize), Dyn(usize), A0, A2, A4, I8, U16, I32, U64, Fit(usize), Test, Enforce, SelfTerm, Bool,
    Skip(usize), SkipX(usize), SkipD1, SkipD2, SkipD4, Pre1, Pre2, Pre4, Kv11(u8), Kv21(u8, u8), Kv03, Kv12(u8) }
use Op::*;
#[derive(Clone, Debug, PartialEq)]
pub enum R { B(Vec<u8>), Unit, Flag(bool), Num(usize), Opt(Option<Vec<u8>>), End, Err }

fn b<T: AsRef<[u8]>, E>(r: Result<T, E>) -> R { match r { Ok(x) => R::B(x.as_ref().to_vec()), Err(_) => R::Err } }
pub fn apply<P: Parser + ParserExt + Iterator<Item = u8>>(p: &mut P, o: Op) -> R {
    fn n<E>(r: Result<usize, E>) -> R { r.map(R::Num).unwrap_or(R::Err) }
    fn u<E>(r: Result<(), E>) -> R { r.map(|_| R::Unit).unwrap_or(R::Err) }
    fn f<E>(r: Result<bool, E>) -> R { r.map(R::Flag).unwrap_or(R::Err) }
    fn kv<E>(r: Result<Option<Vec<u8>>, E>) -> R { r.map(R::Opt).unwrap_or(R::Err) }
    match o {
        Byte => b(p.consume_byte().map(|x| [x])), Next => match p.next() { Some(x) => R::B(vec![x]), None => R::End },
        Take(k) => b(p.consume(k)), Dyn(k) => b(p.take_dynamic(k)), A0 => b(p.consume_arr::<0>()), A2 => b(p.take_fixed::<2>()), A4 => b(p.consume_arr::<4>()),
        I8 => b(p.take_i8().map(|x| [x as u8])), U16 => b(p.take_u16().map(|x| x.to_be_bytes())), I32 => b(p.take_i32().map(|x| x.to_be_bytes())), U64 => b(p.take_u64().map(|x| x.to_be_bytes())),
        Fit(k) => u(p.set_fit(k)), Test => f(p.test_target()), Enforce => u(p.enforce_target()),
        SelfTerm => b(p.take_self_terminating(|x| x & 0x80 == 0)), Bool => f(p.take_bool()),
        Skip(k) => n(p.skip(k)), SkipX(k) => u(p.skip_exactly(k)),
        SkipD1 => n(p.skip_dynamic::<u8>()), SkipD2 => n(p.skip_dynamic::<u16>()), SkipD4 => n(p.skip_dynamic::<u30>()),
        Pre1 => n(p.process_prefix::<u8>()), Pre2 => n(p.process_prefix::<u16>()), Pre4 => n(p.process_prefix::<u30>()),
        Kv11(k) => kv(p.fast_kv_search::<u8, _, _, 1, 1>(&[k], |v| v.to_vec())), Kv21(k, l) => kv(p.fast_kv_search::<u16, _, _, 2, 1>(&[k, l], |v| v.to_vec())),
        Kv03 => kv(p.fast_kv_search::<(), _, _, 0, 3>(&[], |v| v.to_vec())), Kv12(k) => kv(p.fast_kv_search::<u8, _, _, 1, 2>(&[k], |v| v.to_vec())),
    }
}
/// Reference parser.
#[derive(Clone, Debug)]
pub struct Model { pub d: Vec<u8>, pub pos: usize, pub wins: Vec<usize>, pub log: Vec<usize> }
impl Model {
    pub fn new(d: &[u8]) -> Self { Model { d: d.to_vec(), pos: 0, wins: vec![], log: vec![] } }
    pub fn rem(&self) -> usize { self.wins.last().copied().unwrap_or(self.d.len()) - self.pos }
    fn take(&mut self, n: usize) -> Option<Vec<u8>> { if n > self.rem() { return None } let r = self.d[self.pos..self.pos + n].to_vec(); self.pos += n; self.log.push(n); Some(r) }
    fn fit(&mut self, n: usize) -> bool { if n > self.rem() { false } else { self.wins.push(self.pos + n); true } }
    fn enforce(&mut self) -> bool { if self.wins.last() == Some(&self.pos) { self.wins.pop(); true } else { false } }
    fn prefix(&mut self, w: usize) -> Option<usize> { let n = self.take(w)?.iter().fold(0usize, |a, b| a << 8 | *b as usize); if w == 4 && n > 0x3fff_ffff { return None } if self.fit(n) { Some(n) } else { None } }
    fn skipd(&mut self, w: usize) -> Option<usize> { let n = self.prefix(w)?; self.take(n)?; if self.enforce() { Some(n) } else { None } }
    fn kv(&mut self, k: &[u8], nv: usize) -> R { while self.rem() > 0 { match self.take(k.len()) { None => return R::Err, Some(x) => { let v = match self.take(nv) { None => return R::Err, Some(v) => v }; if x == k { return R::Opt(Some(v)) } } } } R::Opt(None) }
    pub fn apply(&mut self, o: Op) -> R {
        fn b(r: Option<Vec<u8>>) -> R { r.map(R::B).unwrap_or(R::Err) }
        fn n(r: Option<usize>) -> R { r.map(R::Num).unwrap_or(R::Err) }
        match o {
            Byte | I8 => b(self.take(1)), Next => self.take(1).map(R::B).unwrap_or(R::End), Take(k) | Dyn(k) => b(self.take(k)), A0 => b(self.take(0)), A2 | U16 => b(self.take(2)), A4 | I32 => b(self.take(4)), U64 => b(self.take(8)),
            Fit(k) => if self.fit(k) { R::Unit } else { R::Err }, Test => R::Flag(self.wins.last() == Some(&self.pos)), Enforce => if self.enforce() { R::Unit } else { R::Err },
            SelfTerm => { let mut v = vec![]; loop { match self.take(1) { None => return R::Err, Some(x) => { v.push(x[0]); if x[0] & 0x80 == 0 { return R::B(v) } } } } }
            Bool => match self.take(1) { None => R::Err, Some(x) => match x[0] { 0 => R::Flag(false), 255 => R::Flag(true), _ => R::Err } },
            Skip(k) => { let m = k.min(self.rem()); self.take(m); R::Num(m) } SkipX(k) => if self.take(k).is_some() { R::Unit } else { R::Err },
            SkipD1 => n(self.skipd(1)), SkipD2 => n(self.skipd(2)), SkipD4 => n(self.skipd(4)), Pre1 => n(self.prefix(1)), Pre2 => n(self.prefix(2)), Pre4 => n(self.prefix(4)),
            Kv11(k) => self.kv(&[k], 1), Kv21(k, l) => self.kv(&[k, l], 1), Kv03 => self.kv(&[], 3), Kv12(k) => self.kv(&[k], 2),
        }
    }
    /// the leftover report: one segment per open window, innermost first, then the rest of the input
    pub fn left(&self) -> Vec<Vec<u8>> {
        let mut segs = vec![]; let mut at = self.pos;
        for e in self.wins.iter().rev() { segs.push(self.d[at..*e].to_vec()); at = *e }
        if at < self.d.len() { segs.push(self.d[at..].to_vec()) }
        segs
    }
    /// what is specified about the state after a failing composite operation: nothing
    fn composite(o: Op) -> bool { matches!(o, SelfTerm | Bool | SkipD1 | SkipD2 | SkipD4 | Pre1 | Pre2 | Pre4 | Kv11(_) | Kv21(..) | Kv03 | Kv12(_)) }
}
fn describe(d: &[u8], ops: &[Op]) -> String { format!("input [{}], operations {:?}", hexs(d), ops) }

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Spec, Total, Left, Log }
/// run one sequence on one parser, comparing with the model
fn run<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, nm: &str, d: &[u8], ops: &[Op], mode: Mode) {
    let mut m = Model::new(d);
    for (i, o) in ops.iter().enumerate() {
        let got = g!(apply(&mut p, *o), "{}: {}", nm, describe(d, &ops[..=i]));
        if mode == Mode::Total { let _ = g!((p.remainder(), p.view_len(), p.offset()), "{}: {}", nm, describe(d, &ops[..=i])); continue }
        let want = m.apply(*o);
        let rem = g!(p.remainder(), "{} remainder: {}", nm, describe(d, &ops[..=i]));
        if mode == Mode::Left || mode == Mode::Log { if got != want || rem != m.rem() { return } }
        else {
            check!(got == want, "{}: {}: last operation gave {:?}, specified {:?}", nm, describe(d, &ops[..=i]), got, want);
            if got == R::Err && Model::composite(*o) { return }
            check!(rem == m.rem(), "{}: {}: {} bytes remain, specified {}", nm, describe(d, &ops[..=i]), rem, m.rem());
        }
        if (got == R::Err) && Model::composite(*o) { return }
    }
    match mode {
        Mode::Spec => { // drain every window to check what the operations left behind
            loop { let r = m.rem(); let a = apply(&mut p, Take(r)); let w = m.apply(Take(r)); check!(a == w, "{}: {}: reading the remaining {} bytes gave {:?}, specified {:?}", nm, describe(d, ops), r, a, w);
                let a = apply(&mut p, Enforce); let w = m.apply(Enforce); check!(a == w, "{}: {}: closing gave {:?}, specified {:?}", nm, describe(d, ops), a, w); if w == R::Err { break } }
        }
        Mode::Total => { g!({ let _ = p.cleanup(); }, "{} cleanup: {}", nm, describe(d, ops)) }
        Mode::Left => {
            match g!(p.cleanup(), "{} cleanup: {}", nm, describe(d, ops)) {
                Err(e) => fail(format!("{}: {}: finishing failed: {}", nm, describe(d, ops), e)),
                Ok(l) => { let s = segments(&l); let w = m.left();
                    check!(s == w, "{}: {}: leftovers {:?}, specified {:?}", nm, describe(d, ops), s, w);
                    let n: usize = w.iter().map(|x| x.len()).sum();
                    check!(l.len() == n && l.is_empty() == (n == 0), "{}: {}: leftover len {} is_empty {} for {:?}", nm, describe(d, ops), l.len(), l.is_empty(), w); }
            }
        }
        Mode::Log => {}
    }
}
fn all(d: &[u8], ops: &[Op], mode: Mode) {
    run(ByteParser::from_buffer(VecBuffer::from(d)), "ByteParser", d, ops, mode);
    run(MemoParser::from_buffer(VecBuffer::from(d)), "MemoParser", d, ops, mode);
    run(SliceParser::from_buffer(SliceBuffer::new(d)), "SliceParser", d, ops, mode);
}
fn key(d: &[u8], ops: &[Op]) -> Vec<u8> { let mut k = d.to_vec(); k.push(0xaa); k.extend(format!("{:?}", ops).into_bytes()); k }
const BIG: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX - 3, isize::MAX as usize, isize::MAX as usize + 1, u32::MAX as usize];
const CORE: &[Op] = &[Byte, Take(0), Take(1), Take(2), Take(3), Fit(0), Fit(1), Fit(2), Fit(3), Fit(4), Test, Enforce, Take(usize::MAX), Fit(usize::MAX)];
const SKIPS: &[Op] = &[Byte, Take(2), Fit(0), Fit(1), Fit(3), Enforce, Skip(0), Skip(1), Skip(2), Skip(9), Skip(usize::MAX), SkipX(0), SkipX(1), SkipX(2), SkipX(4), SkipX(usize::MAX)];
/// every sequence over `alpha` of length <= depth on every input length 0..=n
fn exhaustive(alpha: &[Op], depth: usize, n: usize, f: &mut dyn FnMut(&[u8], &[Op])) {
    let d: Vec<u8> = (1..=n as u8).map(|x| x.wrapping_mul(37)).collect();
    fn go(d: &[u8], alpha: &[Op], depth: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[u8], &[Op])) {
        if depth == 0 { f(d, cur); return }
        for o in alpha { cur.push(*o); go(d, alpha, depth - 1, cur, f); cur.pop(); }
    }
    for k in 0..=n { go(&d[..k], alpha, depth, &mut vec![], f) }
}
fn random_op(r: &mut Rng, rem: usize, skips: bool, composite: bool) -> Op {
    let k = match r.below(8) { 0 => BIG[r.below(6)], 1 => rem, 2 => rem.wrapping_add(1), 3 => rem / 2, _ => r.small(rem + 3) };
    loop { break match r.below(28) { 0 | 1 => Byte, 2 => Next, 3 | 4 => Take(k), 5 => Dyn(k), 6 => A2, 7 => A4, 8 => [A0, I8, U16, I32, U64][r.below(5)], 9 | 10 | 11 => Fit(k), 12 => Test, 13 | 14 => Enforce,
        15 if composite => SelfTerm, 16 if composite => Bool,
        17 | 18 if skips => Skip(k), 19 | 20 if skips => SkipX(k), 21 if skips && composite => [SkipD1, SkipD2, SkipD4][r.below(3)], 22 if skips && composite => [Pre1, Pre2, Pre4][r.below(3)],
        23 | 24 if skips && composite => match r.below(4) { 0 => Kv11(r.below(3) as u8), 1 => Kv21(r.below(2) as u8, r.below(2) as u8), 2 => Kv03, _ => Kv12(r.below(3) as u8) }, _ => continue } }
}
fn random_case(r: &mut Rng, skips: bool, composite: bool) -> (Vec<u8>, Vec<Op>) {
    let n = match r.below(6) { 0 => 0, 1 => r.below(3), 2 => 40 + r.below(300), _ => r.below(24) };
    let d: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { r.below(4) as u8 } else { r.byte() }).collect();
    let mut m = Model::new(&d); let mut ops = vec![]; let len = 1 + r.below(30);
    for _ in 0..len { let o = random_op(r, m.rem(), skips, composite); m.apply(o); ops.push(o) }
    (d, ops)
}
pub fn spec(cfg: &crate::codecs::Cfg) {
    set_test("parser_operations_vs_model");
    let depth = if cfg.thorough { 5 } else { 4 };
    exhaustive(CORE, depth, 4, &mut |d, ops| { set_case("ops", d); all(d, ops, Mode::Spec); count("ops", &key(d, ops), !d.is_empty()) });
    let mut r = Rng::new(cfg.seed ^ 5);
    for _ in 0..cfg.iters * 100 { let (d, ops) = random_case(&mut r, false, true); let k = key(&d, &ops); set_case("ops", &k); all(&d, &ops, Mode::Spec); count("ops", &k, true) }
}
pub fn total(cfg: &crate::codecs::Cfg) {
    set_test("parser_operations_never_panic");
    let mut r = Rng::new(cfg.seed ^ 4);
    exhaustive(CORE, 3, 3, &mut |d, ops| { set_case("ops", d); all(d, ops, Mode::Total); count("ops", &key(d, ops), !d.is_empty()) });
    for _ in 0..cfg.iters * 60 { let (d, ops) = random_case(&mut r, true, true); let k = key(&d, &ops); set_case("ops", &k); all(&d, &ops, Mode::Total); count("ops", &k, true) }
}
pub fn left(cfg: &crate::codecs::Cfg) {
    set_test("leftover_report_of_parsers");
    let depth = if cfg.thorough { 4 } else { 3 };
    exhaustive(CORE, depth, 4, &mut |d, ops| { set_case("ops", d); all(d, ops, Mode::Left); count("ops", &key(d, ops), !d.is_empty()) });
    let mut r = Rng::new(cfg.seed ^ 17);
    for _ in 0..cfg.iters * 60 { let (d, ops) = random_case(&mut r, true, true); let k = key(&d, &ops); set_case("ops", &k); all(&d, &ops, Mode::Left); count("ops", &k, true) }
    // nested windows, deep
    for depth in [1usize, 2, 5, 40] { let d: Vec<u8> = (0..2 * depth + 3).map(|x| x as u8).collect(); for read in 0..=d.len() { let mut ops = vec![]; for i in 0..depth { ops.push(Fit(d.len() - 2 * i - 1)); ops.push(Byte) } ops.push(Take(read)); set_case("nested", &[depth as u8, read as u8]); all(&d, &ops, Mode::Left); count("nested", &[depth as u8, read as u8], true) } }
}
pub fn leftover_state(cfg: &crate::codecs::Cfg) {
    set_test("leftover_state_operations");
    let mut r = Rng::new(cfg.seed ^ 171);
    let iters = cfg.iters * 60;
    let mut one = |ops: &[Option<Vec<u8>>], default: bool| {
        let k = format!("{:?}", ops).into_bytes(); set_case("leftover ops", &k);
        let mut l = if default { LeftoverState::default() } else { LeftoverState::new() };
        let mut closed: Vec<Vec<u8>> = vec![]; let mut act: Vec<u8> = vec![]; let mut esc = false;
        for o in ops { match o {
            None => { g!(l.escape_context(), "escape_context {:?}", ops); closed.push(std::mem::take(&mut act)); esc = true }
            Some(b) => { let mut src = b.clone(); g!(l.append(&mut src), "append {:?}", ops); check!(src.is_empty(), "append left {} in the source ({:?})", hexs(&src), ops); act.extend_from_slice(b) } } 
            let n = closed.iter().map(|x| x.len()).sum::<usize>() + act.len();
            let s = segments(&l);
            check!(l.len() == n && l.is_empty() == (n == 0), "{:?}: len {} is_empty {} with {} bytes", ops, l.len(), l.is_empty(), n);
            let flat: Vec<u8> = s.concat(); let want: Vec<u8> = closed.iter().chain([&act]).flatten().copied().collect();
            check!(flat == want, "{:?}: holds {} instead of {}", ops, hexs(&flat), hexs(&want));
            if esc { check!(s.len() >= closed.len() && s.len() <= closed.len() + 1 && s[..closed.len()] == closed[..], "{:?}: segments {:?}, closed windows {:?}", ops, s, closed) } else { check!(s.len() <= 1, "{:?}: segments without a window: {:?}", ops, s) } }
        count("leftover ops", &k, true);
    };
    let opts: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![1]), Some(vec![2, 3])];
    let n = opts.len();
    for len in 0..=5usize { for mut c in 0..n.pow(len as u32) { let mut ops = vec![]; for _ in 0..len { ops.push(opts[c % n].clone()); c /= n } one(&ops, len % 2 == 0) } }
    for _ in 0..iters { let len = r.below(14); let ops: Vec<_> = (0..len).map(|_| if r.chance(1, 3) { None } else { let n = r.below(6); Some(r.bytes(n)) }).collect(); one(&ops, false) }
}
pub fn skips(cfg: &crate::codecs::Cfg) {
    set_test("skipping_and_searching_vs_model");
    exhaustive(SKIPS, if cfg.thorough { 4 } else { 3 }, 4, &mut |d, ops| { set_case("ops", d); all(d, ops, Mode::Spec); count("ops", &key(d, ops), !d.is_empty()) });
    // every composite operation on small inputs of small bytes, also inside a window
    let comp = [SkipD1, SkipD2, SkipD4, Pre1, Pre2, Pre4, Kv11(1), Kv21(0, 1), Kv03, Kv12(2), Kv12(0)];
    let vals = [0u8, 1, 2, 3];
    for n in 0..=5usize { for mut c in 0..vals.len().pow(n as u32) { let mut d = vec![]; for _ in 0..n { d.push(vals[c % 4]); c /= 4 } for o in comp { set_case("composite", &d);
        all(&d, &[o, Byte], Mode::Spec); if n >= 2 { all(&d, &[Fit(n - 1), o, Byte], Mode::Spec) } count("composite", &key(&d, &[o]), true) } } }
    // longer tables
    let mut r = Rng::new(cfg.seed ^ 18);
    for _ in 0..cfg.iters * 60 { let (d, ops) = random_case(&mut r, true, true); let k = key(&d, &ops); set_case("ops", &k); all(&d, &ops, Mode::Spec); count("ops", &k, true) }
    for _ in 0..cfg.iters * 10 { let pairs = r.below(12); let extra = if r.chance(1, 2) { 0 } else { r.below(4) }; let d: Vec<u8> = (0..pairs * 3 + extra).map(|_| r.below(3) as u8).collect(); for o in [Kv12(1), Kv21(1, 1), Kv11(2), Kv03] { let k = key(&d, &[o]); set_case("table", &k); all(&d, &[o, Byte, o], Mode::Spec); count("table", &k, true) } }
    // big length prefixes
    for n in [255usize, 256, 65535] { let mut d = if n < 256 { vec![n as u8] } else { vec![(n >> 8) as u8, n as u8] }; d.extend(vec![7; n]); d.push(9); let o = if n < 256 { SkipD1 } else { SkipD2 }; all(&d, &[o, Byte], Mode::Spec); let mut d4 = (n as u32).to_be_bytes().to_vec(); d4.extend(vec![7; n]); all(&d4, &[SkipD4, Byte], Mode::Spec); count("big prefix", &(n as u32).to_be_bytes(), true) }
}
/// the three parsers agree with each other
pub fn agree(cfg: &crate::codecs::Cfg) {
    set_test("parsers_agree_on_operations");
    fn trace<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, ops: &[Op]) -> (Vec<(R, usize)>, Vec<Vec<u8>>) {
        let t = ops.iter().map(|o| { let x = apply(&mut p, *o); (x, p.remainder()) }).collect(); (t, leftovers(p))
    }
    let one = |d: &[u8], ops: &[Op]| {
        let a = g!(trace(ByteParser::from_buffer(VecBuffer::from(d)), ops), "ByteParser {}", describe(d, ops));
        let m = g!(trace(MemoParser::from_buffer(VecBuffer::from(d)), ops), "MemoParser {}", describe(d, ops));
        let s = g!(trace(SliceParser::from_buffer(SliceBuffer::new(d)), ops), "SliceParser {}", describe(d, ops));
        for (x, nm) in [(&m, "MemoParser"), (&s, "SliceParser")] {
            if let Some(i) = (0..ops.len()).find(|&i| a.0[i] != x.0[i]) { fail(format!("{}: ByteParser gives {:?} (result, remaining), {} gives {:?}", describe(d, &ops[..=i]), a.0[i], nm, x.0[i])) }
            check!(a.1 == x.1, "{}: ByteParser leaves {:?}, {} leaves {:?}", describe(d, ops), a.1, nm, x.1);
        }
        count("ops", &key(d, ops), !d.is_empty());
    };
    exhaustive(CORE, if cfg.thorough { 4 } else { 3 }, 4, &mut |d, ops| { set_case("ops", d); one(d, ops) });
    exhaustive(SKIPS, 3, 4, &mut |d, ops| { set_case("ops", d); one(d, ops) });
    let mut r = Rng::new(cfg.seed ^ 6);
    for _ in 0..cfg.iters * 60 { let (d, ops) = random_case(&mut r, true, true); set_case("ops", &key(&d, &ops)); one(&d, &ops) }
}
// ---- the recording parser's log ----------------------------------------------------------
extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(a: i32) -> i32; fn memfd_create(n: *const u8, f: u32) -> i32; fn lseek(f: i32, o: i64, w: i32) -> i64; fn ftruncate(f: i32, n: i64) -> i32; fn pread(f: i32, p: *mut u8, n: usize, o: i64) -> isize; }
pub struct Capture { fd: i32, old: i32 }
impl Capture {
    pub fn new() -> Option<Self> { unsafe { let fd = memfd_create(b"cap\0".as_ptr(), 0); if fd < 0 { return None } let old = dup(2); Some(Capture { fd, old }) } }
    pub fn run(&self, f: impl FnOnce()) -> Vec<u8> { unsafe {
        ftruncate(self.fd, 0); lseek(self.fd, 0, 0); dup2(self.fd, 2); let r = guard(f); dup2(self.old, 2);
        let n = lseek(self.fd, 0, 2); let mut b = vec![0u8; n as usize]; pread(self.fd, b.as_mut_ptr(), n as usize, 0);
        if let Err(m) = r { fail(format!("panic in dump_state: {}", m)) } b } }
}
impl Drop for Capture { fn drop(&mut self) { unsafe { close(self.fd); close(self.old); } } }
pub fn memo_log(cfg: &crate::codecs::Cfg) {
    set_test("recording_parser_log");
    let cap = match Capture::new() { Some(c) => c, None => { println!("NOTE memfd_create unavailable: log check skipped"); return } };
    let one = |d: &[u8], ops: &[Op]| {
        let mut p = MemoParser::from_buffer(VecBuffer::from(d)); let mut m = Model::new(d);
        for (i, o) in ops.iter().enumerate() {
            let a = g!(apply(&mut p, *o), "MemoParser {}", describe(d, &ops[..=i])); let w = m.apply(*o);
            if a != w || p.remainder() != m.rem() { return } // a different property
        }
        let out = String::from_utf8_lossy(&cap.run(|| p.dump_state())).into_owned();
        let got: Vec<String> = out.split(|c: char| !c.is_ascii_hexdigit()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut at = 0; let mut want = vec![]; for n in &m.log { if *n > 0 { want.push(hexs(&d[at..at + n])) } at += n }
        check!(got == want, "{}: log {:?}, specified {:?}", describe(d, ops), got, want);
        count("log", &key(d, ops), true);
    };
    exhaustive(&[Byte, Take(2), Dyn(1), A2, Fit(2), Enforce, Skip(2), SkipX(2), SkipD1, SelfTerm], 3, 5, &mut |d, ops| { if d.len() >= 4 { set_case("log", d); one(d, ops) } });
    let mut r = Rng::new(cfg.seed ^ 66);
    for _ in 0..cfg.iters * 5 { let (d, ops) = random_case(&mut r, true, true); if d.len() < 100 { set_case("log", &key(&d, &ops)); one(&d, &ops) } }
}
// ---- memory safety -----------------------------------------------------------------------
/// Buffer accessors: each call must panic or give exactly the bytes it names.
pub fn accessors(cfg: &crate::codecs::Cfg) {
    set_test("buffer_accessors");
    let mut r = Rng::new(cfg.seed ^ 7);
    for n in 0..9usize {
        let d = r.bytes(n); let v = VecBuffer::from(d.as_slice()); let s = SliceBuffer::new(&d);
        check!(v.len() == n && v.is_empty() == (n == 0) && s.len() == n && s.is_empty() == (n == 0) && s.as_slice() == d && s.into_slice() == d, "buffer length");
        let mut ixs: Vec<usize> = (0..n + 3).collect(); ixs.extend(BIG); ixs.push(usize::MAX - n); ixs.push((usize::MAX - n).wrapping_add(1));
        for &ix in &ixs {
            set_case("get_byte", &ix.to_be_bytes());
            match guard(|| v.get_byte(ix)) { Ok(x) => check!(ix < n && x == d[ix], "get_byte({}) of {} bytes gave {:02x}", ix, n, x), Err(_) => check!(ix >= n, "get_byte({}) of {} bytes panicked", ix, n) }
            for &len in &ixs {
                set_case("get_slice", &len.to_be_bytes());
                let ok = ix.checked_add(len).map_or(false, |e| e <= n);
                match guard(|| v.get_slice(ix, len).to_vec()) { Ok(x) => check!(ok && x == d[ix..ix + len], "get_slice({}, {}) of {} bytes gave {}", ix, len, n, hexs(&x)), Err(_) => check!(!ok, "get_slice({}, {}) of {} bytes panicked", ix, len, n) }
                count("get_slice", &[n as u8, ix as u8, len as u8], true);
            }
            match guard(|| { let (a, b) = s.split(ix); (a.as_slice().to_vec(), b.as_slice().to_vec()) }) { Ok((a, b)) => check!(ix <= n && a == d[..ix] && b == d[ix..], "split({}) of {} bytes", ix, n), Err(_) => check!(ix > n, "split({}) of {} panicked", ix, n) }
            match guard(|| { let (a, b) = s.take(ix); (a.to_vec(), b.as_slice().to_vec()) }) { Ok((a, b)) => check!(ix <= n && a == d[..ix] && b == d[ix..], "take({}) of {} bytes", ix, n), Err(_) => check!(ix > n, "take({}) of {} panicked", ix, n) }
        }
        match s.cut_first() { None => check!(n == 0, "cut_first"), Some((h, t)) => check!(n > 0 && h == d[0] && t.as_slice() == &d[1..], "cut_first") }
        fn fx<const K: usize>(d: &[u8]) { set_case("FixedBytes::try_from_slice", &[K as u8, d.len() as u8]); match guard(|| FixedBytes::<K>::try_from_slice(d).map(|x| x.bytes().to_vec()).ok()) { Ok(Some(x)) => check!(x == d && d.len() == K, "FixedBytes<{}> from {} bytes gave {}", K, d.len(), hexs(&x)), Ok(None) => check!(d.len() != K, "FixedBytes<{}> rejected {} bytes", K, d.len()), Err(m) => fail(format!("FixedBytes::<{}>::try_from_slice panicked on {} bytes: {}", K, d.len(), m)) }
            let t = <FixedBytes<K> as std::convert::TryFrom<&[u8]>>::try_from(d); check!(t.is_ok() == (d.len() == K) && t.map_or(true, |x| x.bytes()[..] == *d), "FixedBytes<{}>::try_from", K);
            count("fixedbytes", &[K as u8, d.len() as u8], true) }
        fx::<0>(&d); fx::<1>(&d); fx::<3>(&d); fx::<4>(&d); fx::<8>(&d); fx::<33>(&d);
    }
}
/// Arbitrary operations: whatever they return, the bytes delivered are bytes of the input at the cursor.
pub fn safe_ops(cfg: &crate::codecs::Cfg) {
    set_test("operations_read_only_the_input");
    fn run<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, d: &[u8], ops: &[Op], nm: &str) {
        for o in ops { match guard(|| apply(&mut p, *o)) { Err(_) => return, Ok(R::B(x)) => check!(x.is_empty() || d.windows(x.len()).any(|w| w == &x[..]), "{}: {:?} delivered {} which is not in the input {}", nm, o, hexs(&x), hexs(d)), Ok(_) => {} } }
        let _ = guard(|| leftovers(p));
    }
    let mut r = Rng::new(cfg.seed ^ 70);
    let one = |d: &[u8], ops: &[Op]| { run(ByteParser::from_buffer(VecBuffer::from(d)), d, ops, "ByteParser"); run(MemoParser::from_buffer(VecBuffer::from(d)), d, ops, "MemoParser"); 
        // the borrowed input sits inside a larger allocation of different bytes
        let mut padded = vec![0xEEu8; 16]; padded.extend_from_slice(d); padded.extend([0xEEu8; 16]);
        run(SliceParser::from_buffer(SliceBuffer::new(&padded[16..16 + d.len()])), d, ops, "SliceParser"); count("ops", &key(d, ops), true) };
    for _ in 0..cfg.iters * 50 { let (mut d, ops) = random_case(&mut r, true, true); for x in d.iter_mut() { if *x == 0xEE { *x = 0xED } } set_case("ops", &key(&d, &ops)); one(&d, &ops) }
    exhaustive(CORE, 3, 3, &mut |d, ops| { set_case("ops", d); one(d, ops) });
}
pub fn _lp<L: LenPref>() {}
