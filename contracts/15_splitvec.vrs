=== mod internal
=== mod internal::splitvec::spanbuffer
use crate::trusted::*;
pub open spec fn total(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() as nat } }
pub broadcast proof fn total_push(s: Seq<usize>, x: usize)
    ensures #[trigger] total(s.push(x)) == total(s) + x
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn total_add(s: Seq<usize>, t: Seq<usize>)
    ensures total(s + t) == total(s) + total(t)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        total_add(s, t.drop_last());
    }
}
/// an iterator over span lengths, as the sequence of lengths still to come
impl<'a> Iter<'a> { pub open spec fn left(&self) -> Seq<usize> { cc_left(self.0) } }
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Iter<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<usize> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<usize> { if 0 <= i < self.left().len() { Some(self.left()[i]) } else { None } }
}
impl<'a> vstd::std_specs::iter::DoubleEndedIteratorSpecImpl for Iter<'a> {
    open spec fn peek_back(&self, i: int) -> Option<usize> { if 0 <= i < self.left().len() { Some(self.left()[self.left().len() - 1 - i]) } else { None } }
}
/// `#[derive(Clone)]`, field by field
impl Clone for SpanBuffer { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.stable@ == self.stable@, r.active == self.active, r._cache == self._cache { unimplemented!() } }
=== drop impl Iterator for IntoIter<A, B>
=== drop impl DoubleEndedIterator for IntoIter
=== drop impl IntoIterator for SpanBuffer
=== drop impl IntoIterator for &'a SpanBuffer
=== drop struct IntoIter
=== drop fn impl:SpanBuffer::check_sum
=== in impl SpanBuffer
    pub open spec fn lens(&self) -> Seq<usize> { match self.active { Some(a) => self.stable@.push(a), None => self.stable@ } }
    pub open spec fn act(&self) -> usize { match self.active { Some(a) => a, None => 0 } }
    pub open spec fn wf(&self) -> bool { self._cache == total(self.stable@) && total(self.lens()) <= usize::MAX }
    pub proof fn lens_total(&self)
        ensures total(self.lens()) == total(self.stable@) + self.act()
    { broadcast use total_push; }
=== fn new -> r
    ensures r.stable@.len() == 0, r.active is None, r.wf()
=== fn active_mut -> r
    ensures *r == old(self).act(), final(self).active == Some(*final(r)),
       final(self).stable == old(self).stable, final(self)._cache == old(self)._cache
=== fn flush
    requires old(self).wf()
    ensures final(self).wf(), final(self).active is None, final(self).lens() == old(self).lens()
=== body
    broadcast use total_push;
=== fn flush_force
    requires old(self).wf()
    ensures final(self).wf(), final(self).active is None,
       final(self).lens() == (if old(self).active is None { old(self).lens().push(0) } else { old(self).lens() })
=== body
    broadcast use total_push;
=== fn sum -> r
    requires self.wf()
    ensures r == total(self.lens())
=== body
    broadcast use total_push;
=== fn append
    requires old(self).wf(), old(other).wf(), total(old(self).lens()) + total(old(other).lens()) <= usize::MAX
    ensures final(self).wf(), final(other).wf(), final(self).lens() =~= old(self).lens() + old(other).lens(),
       final(self).active is Some == old(other).active is Some,
       final(other).lens().len() == 0, final(other).active is None
=== body
    proof { old(self).lens_total(); old(other).lens_total(); total_add(old(self).lens(), old(other).stable@); total_add(old(self).lens(), old(other).lens()); }
    broadcast use total_push;
=== rw \(&mut self\._cache\)\.add_assign\( => self._cache = self._cache + (
=== fn iter -> r
    ensures r.left() == self.lens()
=== rw (self\.stable)\.iter\(\)\.chain\((self\.active)\.iter\(\)\)\.copied\(\) => crate::trusted::cc_new(\1.as_slice(), &\2)
=== fn is_empty -> r
    ensures r == (self.lens().len() == 0)
=== fn as_parts -> r
    ensures r.0@ == self.stable@, r.1 == self.active
=== fn count_spans -> r
    requires self.lens().len() <= usize::MAX
    ensures r == self.lens().len()
=== fn is_contiguous -> r
    ensures r == (self.lens().len() <= 1)
=== fn into_vec -> r
    ensures r@ == self.lens()
=== in impl<'a> Iterator for Iter<'a>
=== fn next
=== rw self\.0\.next\(\) => crate::trusted::cc_next(&mut self.0)
=== in impl<'a> DoubleEndedIterator for Iter<'a>
=== fn next_back
=== rw self\.0\.next_back\(\) => crate::trusted::cc_next_back(&mut self.0)
=== mod internal::splitvec
use crate::trusted::*;
use spanbuffer::{total, total_push, total_add};
/// the pieces of b whose lengths are l, in order
pub open spec fn cutn<T>(b: Seq<T>, l: Seq<usize>) -> Seq<Seq<T>> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else {
        let k = b.len() - l.last();
        cutn(b.take(k), l.drop_last()).push(b.skip(k))
    }
}
pub open spec fn flat<T>(c: Seq<Seq<T>>) -> Seq<T> decreases c.len() { if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last() } }
pub proof fn cutn_len<T>(b: Seq<T>, l: Seq<usize>)
    ensures cutn(b, l).len() == l.len()
    decreases l.len()
{ if l.len() > 0 { cutn_len(b.take(b.len() - l.last()), l.drop_last()); } }
/// the pieces concatenate to the whole
pub proof fn cutn_flat<T>(b: Seq<T>, l: Seq<usize>)
    requires total(l) == b.len()
    ensures flat(cutn(b, l)) =~= b
    decreases l.len()
{
    if l.len() > 0 {
        let k = b.len() - l.last();
        cutn_flat(b.take(k), l.drop_last());
        assert(cutn(b, l).drop_last() =~= cutn(b.take(k), l.drop_last()));
        assert(b.take(k) + b.skip(k) =~= b);
    }
}
/// each piece has the recorded length
pub proof fn cutn_lens<T>(b: Seq<T>, l: Seq<usize>)
    requires total(l) == b.len()
    ensures forall|i: int| 0 <= i < l.len() ==> (#[trigger] cutn(b, l)[i]).len() == l[i]
    decreases l.len()
{
    if l.len() > 0 { let k = b.len() - l.last(); cutn_lens(b.take(k), l.drop_last()); cutn_len(b.take(k), l.drop_last()); }
}
pub proof fn cutn_push<T>(b: Seq<T>, l: Seq<usize>, x: Seq<T>)
    requires total(l) == b.len(), x.len() <= usize::MAX
    ensures cutn(b + x, l.push(x.len() as usize)) =~= cutn(b, l).push(x)
{
    assert(l.push(x.len() as usize).drop_last() =~= l);
    assert((b + x).take(b.len() as int) =~= b);
    assert((b + x).skip(b.len() as int) =~= x);
}
/// appending to the last piece
pub proof fn cutn_grow<T>(b: Seq<T>, l: Seq<usize>, x: Seq<T>)
    requires total(l) == b.len(), l.len() > 0, l.last() + x.len() <= usize::MAX
    ensures cutn(b + x, l.drop_last().push((l.last() + x.len()) as usize)) =~= cutn(b, l).drop_last().push(cutn(b, l).last() + x)
{
    let k = b.len() - l.last();
    let l2 = l.drop_last().push((l.last() + x.len()) as usize);
    assert(l2.drop_last() =~= l.drop_last());
    assert((b + x).take(k) =~= b.take(k));
    assert((b + x).skip(k) =~= b.skip(k) + x);
}
pub proof fn cutn_add<T>(b: Seq<T>, l: Seq<usize>, c: Seq<T>, m: Seq<usize>)
    requires total(l) == b.len(), total(m) == c.len()
    ensures cutn(b + c, l + m) =~= cutn(b, l) + cutn(c, m)
    decreases m.len()
{
    if m.len() == 0 { assert(b + c =~= b); assert(l + m =~= l); } else {
        let k = c.len() - m.last();
        assert((l + m).drop_last() =~= l + m.drop_last());
        assert((b + c).take(b.len() + k) =~= b + c.take(k));
        assert((b + c).skip(b.len() + k) =~= c.skip(k));
        cutn_add(b, l, c.take(k), m.drop_last());
    }
}
/// the buffer grew by x and the open span count was raised by as much
pub proof fn grow<T>(s: SplitVec<T>, x: Seq<T>, e: SplitVec<T>)
    requires s.inv(), e.buffer@ == s.buffer@ + x, e.buffer@.len() <= usize::MAX, e.spans.stable == s.spans.stable, e.spans._cache == s.spans._cache,
        e.spans.active == Some((s.spans.act() + x.len()) as usize)
    ensures SplitVec::appended(s, x, e)
{
    broadcast use total_push;
    s.spans.lens_total();
    let l = s.spans.lens();
    if s.open_span() {
        assert(l.drop_last() =~= s.spans.stable@);
        cutn_grow(s.buffer@, l, x);
    } else {
        cutn_push(s.buffer@, l, x);
    }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Vec<T>> for SplitVec<T> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: Vec<T>) -> Self { arbitrary() } }
impl<T> vstd::std_specs::convert::FromSpecImpl<SplitVec<T>> for Vec<T> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: SplitVec<T>) -> Self { arbitrary() } }
impl<'a, 'b, T> Spans<'a, 'b, T> {
    pub open spec fn sinv(&self) -> bool { total(self.lens.left()) == self.buf@.len() }
    pub open spec fn pieces(&self) -> Seq<Seq<T>> { cutn(self.buf@, self.lens.left()) }
}
pub proof fn cutn_first<T>(b: Seq<T>, l: Seq<usize>)
    requires total(l) == b.len()
    ensures l.len() > 0 ==> ({
        &&& l[0] <= b.len()
        &&& total(l.drop_first()) == b.skip(l[0] as int).len()
        &&& cutn(b, l)[0] =~= b.take(l[0] as int)
        &&& cutn(b.skip(l[0] as int), l.drop_first()) =~= cutn(b, l).drop_first() })
    decreases l.len()
{
    if l.len() > 0 {
        cutn_len(b, l);
        let k = b.len() - l.last();
        let (d, f) = (l.drop_last(), l.drop_first());
        if l.len() == 1 {
            assert(total(l) == total(d) + l.last()); assert(d.len() == 0); assert(f.len() == 0);
            assert(b.skip(0) =~= b);
        } else {
            cutn_first(b.take(k), d);
            cutn_len(b.take(k), d);
            assert(f.drop_last() =~= d.drop_first());
            assert(f.last() == l.last());
            let c = b.skip(l[0] as int);
            assert(c.take(c.len() - l.last()) =~= b.take(k).skip(l[0] as int));
            assert(c.skip(c.len() - l.last()) =~= b.skip(k));
            assert(b.take(k).take(l[0] as int) =~= b.take(l[0] as int));
        }
    }
}
=== in impl SplitVec<T>
    pub open spec fn bytes(&self) -> Seq<T> { self.buffer@ }
    pub open spec fn lens(&self) -> Seq<usize> { self.spans.lens() }
    pub open spec fn open_span(&self) -> bool { self.spans.active is Some }
    pub open spec fn inv(&self) -> bool { self.spans.wf() && total(self.spans.lens()) == self.buffer@.len() }
    pub open spec fn chunks(&self) -> Seq<Seq<T>> { cutn(self.buffer@, self.spans.lens()) }
    /// what appending x does: it extends the open span, or starts a new one
    pub open spec fn appended(s: Self, x: Seq<T>, e: Self) -> bool {
        &&& e.inv() && e.open_span() && e.bytes() == s.bytes() + x
        &&& e.chunks() == (if s.open_span() { s.chunks().drop_last().push(s.chunks().last() + x) } else { s.chunks().push(x) })
    }
    /// internal consistency of the spans after the buffer grew by x but before the count is raised
    pub open spec fn lagging(s: Self, x: Seq<T>, m: Self) -> bool { s.inv() && m.spans == s.spans && m.buffer@ == s.buffer@ + x && m.buffer@.len() <= usize::MAX }
=== fn new -> r
    ensures r.inv(), r.chunks().len() == 0, r.bytes().len() == 0, !r.open_span()
=== fn from_vec -> r
    ensures r.inv(), r.bytes() == buffer@, r.open_span(), r.chunks() =~= seq![buffer@]
=== body
    broadcast use total_push;
    proof { reveal_with_fuel(cutn, 3); reveal_with_fuel(total, 3); assert(buffer@.skip(0) =~= buffer@); }
=== fn split
    requires old(self).inv()
    ensures final(self).inv(), !final(self).open_span(), final(self).bytes() == old(self).bytes(), final(self).chunks() == old(self).chunks()
=== fn split_force
    requires old(self).inv()
    ensures final(self).inv(), !final(self).open_span(), final(self).bytes() == old(self).bytes(),
       final(self).chunks() == (if old(self).open_span() { old(self).chunks() } else { old(self).chunks().push(Seq::empty()) })
=== body
    broadcast use total_push;
    proof { cutn_push(self.buffer@, self.spans.lens(), Seq::empty()); assert(self.buffer@ + Seq::<T>::empty() =~= self.buffer@); }
=== fn cleave
    requires old(self).inv()
    ensures final(self).inv(), !final(self).open_span(), final(self).bytes() == old(self).bytes(),
       final(self).chunks() == old(self).chunks().push(Seq::empty())
=== body
    broadcast use total_push;
    proof { cutn_push(self.buffer@, self.spans.lens(), Seq::empty()); assert(self.buffer@ + Seq::<T>::empty() =~= self.buffer@); }
=== fn is_balanced -> r
    requires self.inv()
    ensures r
=== fn increment
    requires total(old(self).spans.lens()) + amount <= usize::MAX, old(self).spans.wf()
    ensures final(self).buffer == old(self).buffer, final(self).spans.wf(), final(self).spans.active == Some((old(self).spans.act() + amount) as usize),
       final(self).spans.stable == old(self).spans.stable, final(self).spans._cache == old(self).spans._cache
=== body
    proof { self.spans.lens_total(); }
    broadcast use total_push;
=== rw self\.spans\.active_mut\(\)\.add_assign\(amount\) => { let vslot = self.spans.active_mut(); *vslot = *vslot + amount; }
=== fn push_current
    requires old(self).inv()
    ensures Self::appended(*old(self), seq![val], *final(self))
=== at unsafe { self . increment
    proof { assert(self.buffer.len() == self.buffer@.len()); }
=== at end
    proof { assert(self.buffer@ =~= old(self).buffer@ + seq![val]); grow(*old(self), seq![val], *self); }
=== fn extend_current
    requires old(self).inv()
    ensures Self::appended(*old(self), iter_elems(iter), *final(self))
=== at unsafe { self . increment
    proof { assert(self.buffer.len() == self.buffer@.len()); }
=== at end
    proof { grow(*old(self), iter_elems(iter), *self); }
=== fn extend_current_from_slice
    requires old(self).inv()
    ensures exists|x: Seq<T>| cloned_seq(other@, x) && #[trigger] Self::appended(*old(self), x, *final(self))
=== at unsafe { self . increment
    proof { assert(self.buffer.len() == self.buffer@.len()); }
=== at end
    proof { let x = self.buffer@.skip(old(self).buffer@.len() as int); assert(self.buffer@ =~= old(self).buffer@ + x);  grow(*old(self), x, *self);
       assert(forall|i: int| 0 <= i < x.len() ==> x[i] == self.buffer@[i + old(self).buffer@.len()]); assert(cloned_seq(other@, x)); }
=== fn append_current
    requires old(self).inv()
    ensures Self::appended(*old(self), old(other)@, *final(self)), final(other)@.len() == 0
=== at unsafe { self . increment
    proof { assert(self.buffer.len() == self.buffer@.len()); }
=== at end
    proof { grow(*old(self), old(other)@, *self); }
=== fn concat
    requires old(self).inv(), old(other).inv(), old(self).buffer@.len() + old(other).buffer@.len() <= usize::MAX
    ensures final(self).inv(), final(other).inv(), final(self).bytes() == old(self).bytes() + old(other).bytes(),
        final(self).chunks() == old(self).chunks() + old(other).chunks(),
        final(other).bytes().len() == 0, final(other).chunks().len() == 0
=== body
    proof { cutn_add(self.buffer@, self.spans.lens(), other.buffer@, other.spans.lens()); total_add(self.spans.lens(), other.spans.lens()); }
=== fn into_inner -> r
    ensures r@ == self.bytes()
=== fn len -> r
    ensures r == self.bytes().len()
=== fn is_empty -> r
    ensures r == (self.bytes().len() == 0 && self.lens().len() == 0)
=== fn is_contiguous -> r
    ensures r == (self.lens().len() <= 1)
=== fn into_parts -> r
    ensures r.0@ == self.bytes(), r.1@ == self.lens()
=== in impl AsRef<Vec<T>> for SplitVec<T>
=== fn as_ref -> r freeonly
    ensures r@ == self.bytes()
=== in impl Clone for SplitVec<T>
=== fn clone -> r freeonly
    ensures r.lens() == self.lens(), r.open_span() == self.open_span(), call_ensures(<Vec<T> as Clone>::clone, (&self.buffer,), r.buffer)
=== in impl std::iter::Extend<I> for SplitVec<T>
=== fn extend freeonly
    requires old(self).inv()
    ensures final(self).inv(), !final(self).open_span(),
       final(self).chunks() =~= old(self).chunks() + iter_elems(iter).map_values(|s: I| iter_elems(s))
=== rw (in (?:vit0: )?)iter\b => \1crate::trusted::vfrom_iter(iter)
=== loop 0
    invariant self.inv(), vit0.seq() == iter_elems(iter),
       self.chunks() =~= old(self).chunks() + iter_elems(iter).take(vit0.index@).map_values(|s: I| iter_elems(s)),
=== in impl std::iter::FromIterator<I> for SplitVec<T>
=== fn from_iter -> r freeonly
    ensures r.inv(), !r.open_span(), r.chunks() =~= iter_elems(iter).map_values(|s: I| iter_elems(s))
=== rw (in (?:vit0: )?)iter\b => \1crate::trusted::vfrom_iter(iter)
=== loop 0
    invariant ret.inv(), !ret.open_span(), vit0.seq() == iter_elems(iter),
       ret.chunks() =~= iter_elems(iter).take(vit0.index@).map_values(|s: I| iter_elems(s)),
=== in impl From<Vec<T>> for SplitVec<T>
=== fn from -> r twin
    ensures r.inv(), r.bytes() == buffer@, r.chunks() =~= seq![buffer@]
=== in impl From<SplitVec<T>> for Vec<T>
=== fn from -> r twin
    ensures r@ == svec.bytes()
=== in impl SplitVec<T>
=== fn spans -> r
    requires self.inv()
    ensures r.sinv(), r.pieces() == self.chunks()
=== in impl Iterator for Spans<'a, 'b, T>
=== inherent Self::Item => &'a [T]
=== fn next -> r
    requires old(self).sinv()
    ensures final(self).sinv(), match r {
        Some(s) => old(self).pieces().len() > 0 && s@ == old(self).pieces()[0] && final(self).pieces() == old(self).pieces().drop_first(),
        None => old(self).pieces().len() == 0 && final(self).pieces().len() == 0 }
=== body
    proof { cutn_first(self.buf@, self.lens.left()); cutn_len(self.buf@, self.lens.left()); }
=== in impl DoubleEndedIterator for Spans<'a, 'b, T>
=== inherent Self::Item => &'a [T]
=== fn next_back -> r
    requires old(self).sinv()
    ensures final(self).sinv(), match r {
        Some(s) => old(self).pieces().len() > 0 && s@ == old(self).pieces().last() && final(self).pieces() == old(self).pieces().drop_last(),
        None => old(self).pieces().len() == 0 && final(self).pieces().len() == 0 }
=== body
    proof { cutn_len(self.buf@, self.lens.left()); }
