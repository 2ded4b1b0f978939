=== mod parse
use crate::trusted::*;
use crate::conv::{Layout, Decode};
use crate::dynamic::LenPrefParse;
/// The abstract state of a parser: the unread bytes cut into disjoint segments, one per open context
/// window plus the root, outermost (root) first, innermost window last.
pub open spec fn adv(s: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> { s.drop_last().push(s.last().skip(n)) }
/// opening a window of n bytes splits the innermost segment
pub open spec fn opened(s: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> { s.drop_last().push(s.last().skip(n)).push(s.last().take(n)) }
/// advancing twice
pub proof fn adv_adv(s: Seq<Seq<u8>>, n: int)
    requires s.len() > 0, 0 <= n <= s.last().len()
    ensures forall|m: int| 0 <= m <= s.last().len() - n ==> #[trigger] adv(adv(s, n), m) == adv(s, n + m), adv(s, n).last() == s.last().skip(n)
{
    assert forall|m: int| 0 <= m <= s.last().len() - n implies #[trigger] adv(adv(s, n), m) == adv(s, n + m) by {
        assert(s.last().skip(n).skip(m) =~= s.last().skip(n + m));
        assert(adv(adv(s, n), m) =~= adv(s, n + m));
    }
}
/// a window opened, read to its end and closed
pub proof fn win(s: Seq<Seq<u8>>)
    requires s.len() > 0
    ensures forall|l: int| #![trigger opened(s, l)] 0 <= l <= s.last().len() ==> opened(s, l).len() == s.len() + 1 && opened(s, l).last() == s.last().take(l)
        && (forall|k: int| 0 <= k <= l ==> (#[trigger] adv(opened(s, l), k)).len() == s.len() + 1 && adv(opened(s, l), k).last().len() == l - k)
        && adv(opened(s, l), l).drop_last() == adv(s, l)
{
    assert forall|l: int| #![trigger opened(s, l)] 0 <= l <= s.last().len() implies adv(opened(s, l), l).drop_last() == adv(s, l) by {
        assert(adv(opened(s, l), l).drop_last() =~= adv(s, l));
    }
}
pub trait ParserView: Sized {
    spec fn segs(&self) -> Seq<Seq<u8>>;
    spec fn pwf(&self) -> bool;
    spec fn voff(&self) -> nat;
}
pub open spec fn pok<P: ParserView>(p: &P) -> bool { p.pwf() && p.segs().len() > 0 }
pub enum KvRes { Found(int), Missing, Ragged }
/// position of the first M+N pair whose key is k
pub open spec fn kv_at(b: Seq<u8>, k: Seq<u8>, m: nat, n: nat, i: int) -> KvRes
    decreases b.len() - i
{
    if i >= b.len() { KvRes::Missing }
    else if i + m + n > b.len() {
        // a lone key that matches, or a partial pair: an error either way
        KvRes::Ragged
    }
    else if b.subrange(i, i + m) == k { KvRes::Found(i) }
    else if m + n == 0 { KvRes::Missing }
    else { kv_at(b, k, m, n, i + m + n) }
}
pub open spec fn kv_find(b: Seq<u8>, k: Seq<u8>, m: nat, n: nat) -> KvRes { kv_at(b, k, m, n, 0) }
/// what cleanup reports: the windows from the innermost outwards, then whatever is left outside all windows
pub open spec fn unread(s: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    s.skip(1).reverse() + (if s[0].len() > 0 { seq![s[0]] } else { Seq::empty() })
}
=== in trait Parser
=== super ParserView
=== hoist take_tagword into ParserTag
=== in trait Parser
    spec fn bufview(b: Self::Buffer) -> Seq<u8>;
=== fn from_buffer -> r
    ensures pok(&r), r.segs() == seq![Self::bufview(buf)]
=== fn view_len -> r
    requires pok(self)
    ensures r == self.voff() + self.segs().last().len(), r <= isize::MAX
=== fn offset -> r
    requires pok(self)
    ensures r == self.voff()
=== fn remainder -> r
    requires pok(self)
    ensures r == self.segs().last().len(), r <= isize::MAX
=== fn consume_byte -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> old(self).segs().last().len() >= 1,
        r is Ok ==> r->Ok_0 == old(self).segs().last()[0] && final(self).segs() == adv(old(self).segs(), 1),
        r is Err ==> final(self).segs() == old(self).segs()
=== fn consume -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> nbytes <= old(self).segs().last().len(),
        r is Ok ==> r->Ok_0@ == old(self).segs().last().take(nbytes as int) && final(self).segs() == adv(old(self).segs(), nbytes as int),
        r is Err ==> final(self).segs() == old(self).segs()
=== fn set_fit -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> n <= old(self).segs().last().len(),
        r is Ok ==> final(self).segs() == opened(old(self).segs(), n as int),
        r is Err ==> final(self).segs() == old(self).segs()
=== fn test_target -> r
    requires pok(old(self))
    ensures pok(final(self)), r is Ok, final(self).segs() == old(self).segs(),
        r->Ok_0 == (old(self).segs().len() > 1 && old(self).segs().last().len() == 0)
=== fn enforce_target -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> (old(self).segs().len() > 1 && old(self).segs().last().len() == 0),
        r is Err && old(self).segs().len() == 1 ==> r->Err_0 == ParseError::Window(error::WindowError::CloseWithoutWindow),
        r is Ok ==> final(self).segs() == old(self).segs().drop_last(),
        r is Err ==> final(self).segs() == old(self).segs()
=== each F,N: consume_arr,N | take_fixed,N
=== fn ${F} -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> ${N} <= old(self).segs().last().len(),
        r is Ok ==> r->Ok_0@ == old(self).segs().last().take(${N} as int) && final(self).segs() == adv(old(self).segs(), ${N} as int),
        r is Err ==> final(self).segs() == old(self).segs()
=== end
=== fn take_dynamic -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> nbytes <= old(self).segs().last().len(),
        r is Ok ==> r->Ok_0@ == old(self).segs().last().take(nbytes as int) && final(self).segs() == adv(old(self).segs(), nbytes as int),
        r is Err ==> final(self).segs() == old(self).segs()
=== rw \.map\(Vec::from\) => .map(crate::trusted::vvec_from_slice)
=== each F,T,N: u8,u8,1 | u16,u16,2 | i16,i16,2 | u32,u32,4 | i32,i32,4 | u64,u64,8 | i64,i64,8 | f64,f64,8
=== fn take_${F} -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> ${N} <= old(self).segs().last().len(),
        r is Ok ==> r->Ok_0 == be_${T}(old(self).segs().last().take(${N})) && final(self).segs() == adv(old(self).segs(), ${N}),
        r is Err ==> final(self).segs() == old(self).segs()
=== end
=== fn take_i8 -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> 1 <= old(self).segs().last().len(),
        r is Ok ==> r->Ok_0 == be_i8(old(self).segs().last().take(1)) && final(self).segs() == adv(old(self).segs(), 1),
        r is Err ==> final(self).segs() == old(self).segs()
=== body
    proof { assert(forall|v: u8| #[trigger] (v as i8) == (if v < 128 { v as i16 } else { sub(v as i16, 256) })) by (bit_vector); }
=== fn take_bool -> r
    requires pok(old(self))
    ensures pok(final(self)),
        ({ let b = old(self).segs().last();
        &&& r is Ok <==> b.len() >= 1 && (b[0] == 0xff || b[0] == 0)
        &&& r is Ok ==> r->Ok_0 == (b[0] == 0xff) && final(self).segs() == adv(old(self).segs(), 1) })
=== fn take_tagword -> r
    requires pok(old(self)), U::dterm()
    ensures pok(final(self)),
        r is Ok ==> ({ let b = old(self).segs().last();
            &&& U::ldec(b) is Some && (U::ldec(b)->0).0 == r->Ok_0.lv() && v.tags().contains(r->Ok_0)
            &&& final(self).segs() == adv(old(self).segs(), (U::ldec(b)->0).1 as int) }),
        r is Err ==> ({ let b = old(self).segs().last();
            U::ldec(b) is None || exists|u: U| #[trigger] u.lv() == (U::ldec(b)->0).0 && !v.tags().contains(u) && (v.tags().len() > 0 ==> U::named(r->Err_0) == Some(u)) }),
=== fn take_self_terminating -> r
    requires pok(old(self)), forall|b: u8| is_terminal.requires((b,))
    ensures pok(final(self)),
        r is Ok ==> ({ let v = r->Ok_0@; let b = old(self).segs().last();
            &&& 0 < v.len() <= b.len() && v == b.take(v.len() as int) && final(self).segs() == adv(old(self).segs(), v.len() as int)
            &&& is_terminal.ensures((v.last(),), true)
            &&& forall|i: int| 0 <= i < v.len() - 1 ==> is_terminal.ensures((#[trigger] v[i],), false) }),
        r is Err ==> forall|i: int| 0 <= i < old(self).segs().last().len() ==> is_terminal.ensures((#[trigger] old(self).segs().last()[i],), false)
=== body
    let ghost b = self.segs().last();
    assert(b.skip(0) =~= b);
    assert(self.segs() =~= adv(self.segs(), 0));
=== at after ret.push(byte);
    proof {
        let n = ret@.len() as int;
        assert(b.skip(n - 1)[0] == b[n - 1]);
        assert(b.skip(n - 1).skip(1) =~= b.skip(n));
        assert(ret@ =~= b.take(n));
    }
=== at break Err
    proof { assert(b.skip(ret@.len() as int).len() == 0); assert(ret@ =~= b); }
=== loop 0
    invariant pok(self), forall|b: u8| is_terminal.requires((b,)), b == old(self).segs().last(),
       ret@.len() <= old(self).segs().last().len(),
       ret@ == old(self).segs().last().take(ret@.len() as int),
       self.segs() =~= adv(old(self).segs(), ret@.len() as int),
       forall|i: int| 0 <= i < ret@.len() ==> is_terminal.ensures((#[trigger] ret@[i],), false),
    decreases self.segs().last().len(),
=== fn cleanup -> r
    requires pok(&self)
    ensures r is Ok, r->Ok_0.inv(), r->Ok_0.lchunks() =~= unread(self.segs())
=== in trait ParserExt
=== sized
=== in trait ParserExt
=== fn skip -> r
    requires pok(old(self))
    ensures pok(final(self)), r is Ok,
        ({ let m = old(self).segs().last().len(); let k = if nbytes <= m { nbytes as int } else { m as int };
           r->Ok_0 == k && final(self).segs() == adv(old(self).segs(), k) })
=== fn skip_exactly -> r
    requires pok(old(self))
    ensures pok(final(self)),
        r is Ok <==> nbytes <= old(self).segs().last().len(),
        r is Ok ==> final(self).segs() == adv(old(self).segs(), nbytes as int),
        r is Err ==> final(self).segs() == old(self).segs()
=== fn process_prefix -> r
    requires pok(old(self))
    ensures pok(final(self)),
        ({ let b = old(self).segs().last(); let w = L::pwidth();
           &&& r is Ok <==> (w <= b.len() && L::praw(b.take(w as int)) is Some && L::praw(b.take(w as int))->0 <= b.len() - w)
           &&& r is Ok ==> r->Ok_0 == L::praw(b.take(w as int))->0 && final(self).segs() == opened(adv(old(self).segs(), w as int), r->Ok_0 as int) })
=== fn skip_dynamic -> r
    requires pok(old(self))
    ensures pok(final(self)),
        ({ let b = old(self).segs().last(); let w = L::pwidth();
           &&& r is Ok <==> (w <= b.len() && L::praw(b.take(w as int)) is Some && L::praw(b.take(w as int))->0 <= b.len() - w)
           &&& r is Ok ==> r->Ok_0 == L::praw(b.take(w as int))->0 && final(self).segs() =~= adv(old(self).segs(), w + r->Ok_0) })
=== body
    let ghost s0 = self.segs(); let ghost b = s0.last(); let ghost w = L::pwidth() as int;
=== at self.skip_exactly(lp)
    proof {
        assert(b.skip(w).take(lp as int).len() == lp);
        assert(b.skip(w).skip(lp as int) =~= b.skip(w + lp));
    }
=== fn fast_kv_search -> r
    requires pok(old(self)), forall|v: [u8; N]| f.requires((v,))
    ensures pok(final(self)),
        ({ let b = old(self).segs().last();
           match kv_find(b, k@, M as nat, N as nat) {
             KvRes::Found(i) => r is Ok && (exists|v: [u8; N], y: V| r->Ok_0 == Some(y) && v@ == b.subrange(i + M, i + M + N) && #[trigger] f.ensures((v,), y))
                 && final(self).segs() =~= adv(old(self).segs(), i + M + N),
             KvRes::Missing => r is Ok && r->Ok_0 is None && final(self).segs() =~= adv(old(self).segs(), b.len() as int),
             KvRes::Ragged => r is Err,
           } })
=== body
    let ghost b = self.segs().last();
    let ghost i = 0int;
    assert(b.skip(0) =~= b);
    assert(self.segs() =~= adv(self.segs(), 0));
=== loop 0
    invariant pok(self), forall|v: [u8; N]| f.requires((v,)),
        0 <= i <= b.len(), b == old(self).segs().last(), self.segs() =~= adv(old(self).segs(), i), self.segs().last() =~= b.skip(i),
        kv_find(b, k@, M as nat, N as nat) == kv_at(b, k@, M as nat, N as nat, i),
    decreases b.len() - i
=== at let _ = self.skip_exactly
    proof { assert(!(k@ =~= _k@)); assert(_k@ =~= b.subrange(i, i + M)); }
=== at continue;
    proof { i = i + M + N; assert(b.skip(i - M - N).skip(M as int).skip(N as int) =~= b.skip(i)); }
=== at let _v = self.consume_arr
    proof { assert(_k@ =~= b.subrange(i, i + M)); }
=== at return Ok(Some(f(_v)))
    proof { assert(k@ =~= _k@); assert(b.subrange(i, i + M) =~= k@); assert(kv_at(b, k@, M as nat, N as nat, i) == KvRes::Found(i)); assert(_v@ =~= b.subrange(i + M, i + M + N)); assert(b.skip(i).skip(M as int).skip(N as int) =~= b.skip(i + M + N)); assert(self.segs() =~= adv(old(self).segs(), i + M + N)); }
=== mod parse
=== in trait TryIntoParser
    /// the bytes to be parsed, if the conversion into the parser's buffer type gives any
    spec fn tip(&self) -> Option<Seq<u8>>;
=== fn try_into_parser -> r
    ensures (r is Ok) == (self.tip() is Some), r is Ok ==> pok(&(r->Ok_0)) && (r->Ok_0).segs() == seq![(self.tip()->0)]
=== in impl TryIntoParser<P> for T
    open spec fn tip(&self) -> Option<Seq<u8>> { match crate::trusted::vtried::<T, P::Buffer>(*self) { Some(b) => Some(P::bufview(b)), None => None } }
=== fn try_into_parser
=== rw self\.try_into\(\) => crate::trusted::vtry_into_any::<T, P::Buffer>(self)
=== mod parse::cleanup
use crate::trusted::*;
use crate::internal::splitvec::cutn;
=== in impl std::default::Default for LeftoverState
=== fn default -> r
    ensures r.inv(), r.lchunks().len() == 0, !r.lopen()
=== in impl LeftoverState
    pub open spec fn inv(&self) -> bool { match self { LeftoverState::Windowed(s) => s.inv(), _ => true } }
    pub open spec fn lchunks(&self) -> Seq<Seq<u8>> { match self { LeftoverState::Empty => Seq::empty(), LeftoverState::Windowless(v) => seq![v@], LeftoverState::Windowed(s) => s.chunks() } }
    /// further bytes join the last piece rather than starting a new one
    pub open spec fn lopen(&self) -> bool { match self { LeftoverState::Empty => false, LeftoverState::Windowless(_) => true, LeftoverState::Windowed(s) => s.open_span() } }
    pub open spec fn lbytes(&self) -> Seq<u8> { match self { LeftoverState::Empty => Seq::empty(), LeftoverState::Windowless(v) => v@, LeftoverState::Windowed(s) => s.bytes() } }
=== fn new -> r
    ensures r.inv(), r.lchunks().len() == 0, !r.lopen()
=== fn append
    requires old(self).inv()
    ensures final(self).inv(), final(self).lopen(), final(other)@.len() == 0,
       final(self).lbytes() =~= old(self).lbytes() + old(other)@,
       final(self).lchunks() =~= (if old(self).lopen() { old(self).lchunks().drop_last().push(old(self).lchunks().last() + old(other)@) } else { old(self).lchunks().push(old(other)@) })
=== fn get_mut_windows_unchecked -> r
    requires *old(self) is Windowed
    ensures *r == old(self)->Windowed_0, *final(self) == LeftoverState::Windowed(*final(r))
=== fn take_vec_unchecked -> r
    requires *old(self) is Windowless
    ensures r == old(self)->Windowless_0, *final(self) == LeftoverState::Empty
=== fn promote -> r
    requires old(self).inv()
    ensures r.inv(), r.chunks() =~= old(self).lchunks(), r.open_span() == old(self).lopen(), r.bytes() =~= old(self).lbytes(), *final(self) == LeftoverState::Windowed(*final(r))
=== fn escape_context
    requires old(self).inv()
    ensures final(self).inv(), !final(self).lopen(), final(self).lbytes() == old(self).lbytes(),
       final(self).lchunks() == (if old(self).lopen() { old(self).lchunks() } else { old(self).lchunks().push(Seq::empty()) })
=== fn is_empty -> r
    requires self.inv()
    ensures r == (self.lbytes().len() == 0)
=== fn len -> r
    requires self.inv()
    ensures r == self.lbytes().len()
