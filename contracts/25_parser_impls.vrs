=== mod parse
/// segments of a buffer described by a cursor, the open windows' ends (outermost first) and the end of input
pub open spec fn seg_lo(cur: int, fr: Seq<usize>, i: int) -> int { if i == fr.len() { cur } else { fr[i] as int } }
pub open spec fn seg_hi(abs: int, fr: Seq<usize>, i: int) -> int { if i == 0 { abs } else { fr[i - 1] as int } }
pub open spec fn osegs(buf: Seq<u8>, cur: int, fr: Seq<usize>, abs: int) -> Seq<Seq<u8>> {
    Seq::new(fr.len() + 1, |i: int| buf.subrange(seg_lo(cur, fr, i), seg_hi(abs, fr, i)))
}
pub open spec fn owf(buf: Seq<u8>, cur: int, fr: Seq<usize>, abs: int) -> bool {
    &&& abs == buf.len() && 0 <= cur <= abs
    &&& forall|i: int| 0 <= i < fr.len() ==> cur <= #[trigger] fr[i] <= abs
    &&& forall|i: int, j: int| 0 <= i < j < fr.len() ==> fr[j] <= fr[i]
}
pub proof fn osegs_last(buf: Seq<u8>, cur: int, fr: Seq<usize>, abs: int)
    requires owf(buf, cur, fr, abs)
    ensures osegs(buf, cur, fr, abs).len() == fr.len() + 1,
        osegs(buf, cur, fr, abs).last() == buf.subrange(cur, seg_hi(abs, fr, fr.len() as int)),
        osegs(buf, cur, fr, abs).last().len() == seg_hi(abs, fr, fr.len() as int) - cur,
{ }
pub proof fn osegs_adv(buf: Seq<u8>, cur: int, fr: Seq<usize>, abs: int, n: int)
    requires owf(buf, cur, fr, abs), 0 <= n <= seg_hi(abs, fr, fr.len() as int) - cur
    ensures osegs(buf, cur + n, fr, abs) == adv(osegs(buf, cur, fr, abs), n),
        osegs(buf, cur, fr, abs).last().take(n) == buf.subrange(cur, cur + n),
        n > 0 ==> osegs(buf, cur, fr, abs).last()[0] == buf[cur],
        owf(buf, cur + n, fr, abs)
{
    let h = seg_hi(abs, fr, fr.len() as int);
    assert(buf.subrange(cur, h).skip(n) =~= buf.subrange(cur + n, h));
    assert(buf.subrange(cur, h).take(n) =~= buf.subrange(cur, cur + n));
    assert(osegs(buf, cur + n, fr, abs) =~= adv(osegs(buf, cur, fr, abs), n));
    assert forall|i: int| 0 <= i < fr.len() implies cur + n <= #[trigger] fr[i] by { assert(fr[fr.len() - 1] <= fr[i]); }
}
pub proof fn osegs_open(buf: Seq<u8>, cur: int, fr: Seq<usize>, abs: int, n: int, t: usize)
    requires owf(buf, cur, fr, abs), 0 <= n <= seg_hi(abs, fr, fr.len() as int) - cur, t == cur + n
    ensures osegs(buf, cur, fr.push(t), abs) == opened(osegs(buf, cur, fr, abs), n)
{
    let h = seg_hi(abs, fr, fr.len() as int);
    assert(buf.subrange(cur, h).skip(n) =~= buf.subrange(cur + n, h));
    assert(buf.subrange(cur, h).take(n) =~= buf.subrange(cur, cur + n));
    let a = osegs(buf, cur, fr.push(t), abs);
    let b = opened(osegs(buf, cur, fr, abs), n);
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i == fr.len() + 1 { assert(a[i] =~= buf.subrange(cur, cur + n)); }
        else if i == fr.len() { assert(a[i] =~= buf.subrange(cur + n, h)); }
        else { assert(fr.push(t)[i] == fr[i]); assert(i > 0 ==> fr.push(t)[i - 1] == fr[i - 1]); }
    }
    assert(a =~= b);
}
pub proof fn osegs_close(buf: Seq<u8>, cur: int, fr: Seq<usize>, abs: int)
    requires owf(buf, cur, fr, abs), fr.len() > 0, fr.last() == cur
    ensures osegs(buf, cur, fr.drop_last(), abs) == osegs(buf, cur, fr, abs).drop_last(), osegs(buf, cur, fr, abs).last().len() == 0
{
    assert(osegs(buf, cur, fr.drop_last(), abs) =~= osegs(buf, cur, fr, abs).drop_last());
}
=== each P,M: ByteParser,byteparser | MemoParser,memoparser
=== mod parse::${M}
use crate::trusted::*;
use crate::parse::*;
use crate::internal::Stack;
impl ParserView for ${P} {
    open spec fn segs(&self) -> Seq<Seq<u8>> { osegs(self.buffer.bv(), self.offset.tcur() as int, self.offset.frames(), self.offset.tabs() as int) }
    open spec fn pwf(&self) -> bool { self.offset.twf() && self.offset.tabs() == self.buffer.bv().len() && self.log_inv() }
    open spec fn voff(&self) -> nat { self.offset.tcur() }
}
impl ${P} {
    pub open spec fn same(&self, o: Self) -> bool { self.buffer == o.buffer && self.offset.tabs() == o.offset.tabs() }
    pub proof fn own(&self)
        requires self.pwf()
        ensures owf(self.buffer.bv(), self.offset.tcur() as int, self.offset.frames(), self.offset.tabs() as int),
            self.offset.tlim() == seg_hi(self.offset.tabs() as int, self.offset.frames(), self.offset.frames().len() as int),
            self.segs().len() == self.offset.frames().len() + 1, self.segs().last().len() == self.offset.tlim() - self.offset.tcur()
    { }
    pub proof fn adv(&self, n: int)
        requires self.pwf(), 0 <= n <= self.offset.tlim() - self.offset.tcur()
        ensures osegs(self.buffer.bv(), self.offset.tcur() + n, self.offset.frames(), self.offset.tabs() as int) == crate::parse::adv(self.segs(), n),
            self.segs().last().take(n) == self.buffer.bv().subrange(self.offset.tcur() as int, self.offset.tcur() + n),
            n > 0 ==> self.segs().last()[0] == self.buffer.bv()[self.offset.tcur() as int],
            self.segs().last().len() == self.offset.tlim() - self.offset.tcur()
    { self.own(); osegs_adv(self.buffer.bv(), self.offset.tcur() as int, self.offset.frames(), self.offset.tabs() as int, n); }
}
=== in impl Parser for ${P}
    open spec fn bufview(b: VecBuffer) -> Seq<u8> { b.bv() }
=== fn from_buffer -> r
    ensures r.logged(r, -2)
=== body
    assert(buffer.bv().subrange(0, buffer.bv().len() as int) =~= buffer.bv());
=== fn view_len
=== body
    proof { self.own(); axiom_byte_vec_len(&self.buffer.0); }
=== fn offset
=== fn consume_byte -> r
    ensures r is Ok ==> final(self).logged(*old(self), 1), r is Err ==> final(self).logged(*old(self), -1)
=== body
    proof { self.own(); if self.offset.tlim() > self.offset.tcur() { self.adv(1); } }
=== fn consume -> r
    ensures r is Ok ==> final(self).logged(*old(self), nbytes as int), r is Err ==> final(self).logged(*old(self), -1)
=== body
    proof { self.own(); if nbytes <= self.offset.tlim() - self.offset.tcur() { self.adv(nbytes as int); } }
=== fn set_fit -> r
    ensures r is Ok ==> final(self).logged(*old(self), -1), r is Err ==> final(self).logged(*old(self), -1)
=== body
    proof { self.own(); if n <= self.offset.tlim() - self.offset.tcur() { osegs_open(self.buffer.bv(), self.offset.tcur() as int, self.offset.frames(), self.offset.tabs() as int, n as int, (self.offset.tcur() + n) as usize); } }
=== fn test_target -> r
    ensures final(self).logged(*old(self), -1)
=== body
    proof { self.own(); }
=== fn enforce_target -> r
    ensures r is Ok ==> final(self).logged(*old(self), -1), r is Err ==> final(self).logged(*old(self), -1)
=== body
    proof { self.own(); if self.segs().len() > 1 && self.segs().last().len() == 0 { osegs_close(self.buffer.bv(), self.offset.tcur() as int, self.offset.frames(), self.offset.tabs() as int); } }
=== fn cleanup
=== body
    let ghost s0 = self.segs();
    proof { assert(s0.take(s0.len() as int) =~= s0); assert(s0.skip(s0.len() as int).reverse() =~= Seq::empty()); }
=== loop 0
    invariant_except_break vself.pwf(), 1 <= vself.segs().len() <= s0.len(), ret is Ok,
        vself.segs() =~= s0.take(vself.segs().len() as int),
        ret->Ok_0.inv(), !ret->Ok_0.lopen(), ret->Ok_0.lchunks() =~= s0.skip(vself.segs().len() as int).reverse(),
    ensures ret is Ok, ret->Ok_0.inv(), ret->Ok_0.lchunks() =~= unread(s0)
    decreases vself.segs().len()
=== loopbody 0
    let ghost k = vself.segs().len() as int;
    let ghost x = s0[k - 1];
    proof {
        assert(vself.segs().last() == x);
        assert(s0.skip(k - 1).reverse() =~= s0.skip(k).reverse().push(x));
        assert(x.take(x.len() as int) =~= x);
        assert(x.len() == 0 ==> x =~= Seq::empty());
        assert(s0.take(k).drop_last() =~= s0.take(k - 1));
    }
=== in impl ParserExt for ${P}
=== fn skip -> r
    ensures final(self).logged(*old(self), r->Ok_0 as int)
=== body
    proof { self.own(); self.adv(if nbytes <= self.offset.tlim() - self.offset.tcur() { nbytes as int } else { self.offset.tlim() - self.offset.tcur() }); }
=== fn skip_exactly -> r
    ensures r is Ok ==> final(self).logged(*old(self), nbytes as int), r is Err ==> final(self).logged(*old(self), -1)
=== body
    proof { self.own(); if nbytes <= self.offset.tlim() - self.offset.tcur() { self.adv(nbytes as int); } }
=== in impl Iterator for ${P}
=== inherent Self::Item => u8
=== fn next -> r
    requires pok(old(self))
    ensures pok(final(self)),
        match r {
            Some(x) => final(self).logged(*old(self), 1) && old(self).segs().last().len() >= 1 && x == old(self).segs().last()[0] && final(self).segs() == crate::parse::adv(old(self).segs(), 1),
            None => final(self).logged(*old(self), -1) && old(self).segs().last().len() == 0 && final(self).segs() == old(self).segs(),
        }
=== end

=== mod parse::byteparser
impl ByteParser {
    pub open spec fn log_inv(&self) -> bool { true }
    /// nothing is recorded
    pub open spec fn logged(&self, o: Self, n: int) -> bool { true }
}
=== mod parse::memoparser
use crate::internal::splitvec::spanbuffer::*;
pub proof fn total_step(s: Seq<usize>, k: int)
    requires 0 <= k < s.len()
    ensures total(s.take(k + 1)) == total(s.take(k)) + s[k], total(s.take(k + 1)) <= total(s)
    decreases s.len() - k
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k + 1 < s.len() { total_step(s, k + 1); } else { assert(s.take(k + 1) =~= s); }
}
impl MemoParser {
    /// the lengths of the successful reads so far, in order
    pub open spec fn log(&self) -> Seq<usize> { self.munches@ }
    pub open spec fn log_inv(&self) -> bool { total(self.munches@) == self.offset.tcur() }
    /// n >= 0: one more read of n bytes was recorded; n == -1: the record is unchanged; n == -2: it is empty
    pub open spec fn logged(&self, o: Self, n: int) -> bool {
        if n >= 0 { self.log() == o.log().push(n as usize) } else if n == -1 { self.log() == o.log() } else { self.log().len() == 0 }
    }
}
=== in impl MemoParser
=== fn dump_state
    requires self.pwf()
=== each F,C: dump_state,MemoParser | consume_byte,Parser for MemoParser | consume,Parser for MemoParser | skip,ParserExt for MemoParser | skip_exactly,ParserExt for MemoParser
=== in impl ${C}
=== amend ${F}
=== body
    broadcast use total_push;
=== rw tmp\.iter\(\)\.copied\(\) => crate::trusted::vcopied(tmp)
=== loop 0
    invariant self.pwf(), ix == total(self.munches@.take(vit0.index@)), splits.inv(),
        vit0.seq().len() == self.munches@.len(), forall|i: int| 0 <= i < self.munches@.len() ==> *(#[trigger] vit0.seq()[i]) == self.munches@[i],
=== loopbody 0
    proof { total_step(self.munches@, vit0.index@); self.own(); }
=== end
=== mod parse::sliceparser
use crate::trusted::*;
use crate::parse::*;
impl<'a> ParserView for SliceParser<'a> {
    open spec fn segs(&self) -> Seq<Seq<u8>> { self.view_stack.sview().map_values(|s: SliceBuffer<'a>| s.sb()) }
    open spec fn pwf(&self) -> bool { true }
    open spec fn voff(&self) -> nat { 0 }
}
=== in impl Parser for SliceParser<'a>
    open spec fn bufview(b: SliceBuffer<'a>) -> Seq<u8> { b.sb() }
=== fn from_buffer
=== fn view_len
=== body
    proof { let b = self.segs().last(); assert(b == self.view_stack.sview().last().sb()); axiom_byte_slice_len(self.view_stack.sview().last().0); }
=== fn offset
=== fn remainder
=== fn consume_byte
=== fn consume
=== fn set_fit
=== fn test_target
=== fn enforce_target
=== fn cleanup
=== body
    let ghost s0 = self.segs();
    proof { assert(s0.take(s0.len() as int) =~= s0); assert(s0.skip(s0.len() as int).reverse() =~= Seq::empty()); }
=== loop 0
    invariant_except_break vself.pwf(), 1 <= vself.segs().len() <= s0.len(),
        vself.segs() =~= s0.take(vself.segs().len() as int),
        ret.inv(), !ret.lopen(), ret.lchunks() =~= s0.skip(vself.segs().len() as int).reverse(),
    ensures ret.inv(), ret.lchunks() =~= unread(s0)
    decreases vself.segs().len()
=== loopbody 0
    let ghost k = vself.segs().len() as int;
    let ghost x = s0[k - 1];
    proof {
        assert(vself.segs().last() == x);
        assert(s0.skip(k - 1).reverse() =~= s0.skip(k).reverse().push(x));
        assert(x.take(x.len() as int) =~= x);
        assert(x.len() == 0 ==> x =~= Seq::empty());
        assert(s0.take(k).drop_last() =~= s0.take(k - 1));
    }
=== in impl ParserExt for SliceParser<'_>
=== fn skip
=== fn skip_exactly
=== in impl Iterator for SliceParser<'_>
=== inherent Self::Item => u8
=== fn next -> r
    requires pok(old(self))
    ensures pok(final(self)),
        match r {
            Some(x) => old(self).segs().last().len() >= 1 && x == old(self).segs().last()[0] && final(self).segs() == crate::parse::adv(old(self).segs(), 1),
            None => old(self).segs().last().len() == 0 && final(self).segs() == old(self).segs(),
        }
