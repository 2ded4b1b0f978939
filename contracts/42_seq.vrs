=== mod error
=== only enum LengthError
=== mod seq::boundedseq_impl
use crate::trusted::*;
=== constfn LIMIT
=== in trait IsBoundedSeq
=== sized
=== in trait IsBoundedSeq
    /// the elements held
    spec fn bview(&self) -> Seq<Self::Elem>;
    spec fn blim() -> nat;
=== fn LIMIT
    ensures r == Self::blim()
=== in trait BoundedSeqImpl
    /// dereferencing yields the elements held
    proof fn law(s: &Self, r: &[<Self as IsBoundedSeq>::Elem])
        requires call_ensures(Self::deref, (s,), r)
        ensures r@ == s.bview();
=== fn push_unchecked
    requires old(self).bview().len() < Self::blim()
    ensures final(self).bview() == old(self).bview().push(value)
=== fn try_push -> r
    requires Self::blim() < usize::MAX
    ensures r is Ok <==> old(self).bview().len() < Self::blim(),
        r is Ok ==> final(self).bview() == old(self).bview().push(value),
        r is Err ==> final(self).bview() == old(self).bview()
=== body
    proof { assert forall|s: &Self, r: &[<Self as IsBoundedSeq>::Elem]| call_ensures(Self::deref, (s,), r) implies r@ == s.bview() by { Self::law(s, r); } }
=== mod seq
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::{Layout, encs, vals, allok};
=== derive Sequence
=== drop /^impl .*(Serialize|Index<)
=== drop impl IntoIterator for &'a mut Sequence<T>
/// every element in turn, to the end
pub open spec fn dec_all<T: Layout>(b: Seq<u8>) -> Option<Seq<T::V>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) } else {
        match T::ldec(b) {
            Some((v, n)) => if 1 <= n <= b.len() { match dec_all::<T>(b.skip(n as int)) { Some(r) => Some(seq![v] + r), None => None } } else { None },
            None => None,
        }
    }
}
/// exactly n elements in turn
pub open spec fn dec_n<T: Layout>(b: Seq<u8>, n: nat) -> Option<(Seq<T::V>, nat)> decreases n {
    if n == 0 { Some((Seq::empty(), 0)) } else {
        match T::ldec(b) {
            Some((v, k)) => match dec_n::<T>(b.skip(k as int), (n - 1) as nat) { Some((r, m)) => Some((seq![v] + r, k + m)), None => None },
            None => None,
        }
    }
}
/// elements use at least one byte
pub open spec fn grows<T: Layout>() -> bool { forall|b: Seq<u8>| b.len() > 0 && (#[trigger] T::ldec(b)) is Some ==> (T::ldec(b)->0).1 >= 1 }
/// each element decodes back when followed by the rest (and k more bytes)
pub open spec fn tails<T: Layout>(v: Seq<T::V>, k: nat) -> bool {
    forall|i: int| 0 <= i < v.len() ==> T::ltail(#[trigger] v[i], encs::<T>(v.skip(i + 1)).len() + k)
}
pub open spec fn nonempty<T: Layout>(v: Seq<T::V>) -> bool { forall|i: int| 0 <= i < v.len() ==> T::lenc(#[trigger] v[i]).len() >= 1 }
pub proof fn all_rt<T: Layout>(v: Seq<T::V>)
    requires T::dterm(), allok::<T>(v), nonempty::<T>(v), tails::<T>(v, 0)
    ensures dec_all::<T>(encs::<T>(v)) == Some(v)
    decreases v.len()
{
    if v.len() > 0 {
        let b = encs::<T>(v); let w = v.skip(1);
        crate::conv::encs_first::<T>(v);
        assert(v[0] == v[0]);
        T::rt(v[0], encs::<T>(w));
        T::dec_bound(b);
        assert(b.skip(T::lenc(v[0]).len() as int) =~= encs::<T>(w));
        assert forall|i: int| 0 <= i < w.len() implies T::ltail(#[trigger] w[i], encs::<T>(w.skip(i + 1)).len() + 0) && T::lok(w[i]) && T::lenc(w[i]).len() >= 1 by {
            assert(w.skip(i + 1) =~= v.skip(i + 2)); assert(w[i] == v[i + 1]);
        }
        all_rt::<T>(w);
        assert(seq![v[0]] + w =~= v);
    } else { assert(v =~= Seq::empty()); }
}
pub proof fn n_rt<T: Layout>(v: Seq<T::V>, t: Seq<u8>)
    requires T::dterm(), allok::<T>(v), tails::<T>(v, t.len())
    ensures dec_n::<T>(encs::<T>(v) + t, v.len()) == Some((v, encs::<T>(v).len()))
    decreases v.len()
{
    let b = encs::<T>(v) + t;
    if v.len() > 0 {
        let w = v.skip(1);
        crate::conv::encs_first::<T>(v);
        assert(v[0] == v[0]);
        assert(b =~= T::lenc(v[0]) + (encs::<T>(w) + t));
        T::rt(v[0], encs::<T>(w) + t);
        assert(b.skip(T::lenc(v[0]).len() as int) =~= encs::<T>(w) + t);
        assert forall|i: int| 0 <= i < w.len() implies T::ltail(#[trigger] w[i], encs::<T>(w.skip(i + 1)).len() + t.len()) && T::lok(w[i]) by {
            assert(w.skip(i + 1) =~= v.skip(i + 2)); assert(w[i] == v[i + 1]);
        }
        n_rt::<T>(w, t);
        assert(seq![v[0]] + w =~= v);
    } else { assert(v =~= Seq::empty()); }
}
pub proof fn n_bound<T: Layout>(b: Seq<u8>, n: nat)
    requires T::dterm()
    ensures dec_n::<T>(b, n) is Some ==> (dec_n::<T>(b, n)->0).1 <= b.len() && (dec_n::<T>(b, n)->0).0.len() == n
    decreases n
{
    if n > 0 { T::dec_bound(b); if T::ldec(b) is Some { n_bound::<T>(b.skip((T::ldec(b)->0).1 as int), (n - 1) as nat); } }
}
impl<T: Layout> Layout for Sequence<T> {
    type V = Seq<T::V>;
    open spec fn lv(&self) -> Seq<T::V> { vals::<T>(self.0@) }
    open spec fn lok(v: Seq<T::V>) -> bool { allok::<T>(v) }
    open spec fn lenc(v: Seq<T::V>) -> Seq<u8> { encs::<T>(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<T::V>, nat)> { match dec_all::<T>(b) { Some(v) => Some((v, b.len())), None => None } }
    open spec fn dterm() -> bool { T::dterm() && grows::<T>() }
    open spec fn ltail(v: Seq<T::V>, k: nat) -> bool { k == 0 && nonempty::<T>(v) && tails::<T>(v, 0) }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<T::V>, t: Seq<u8>) { all_rt::<T>(v); assert(encs::<T>(v) + t =~= encs::<T>(v)); }
}
=== in impl Sequence<T>
=== fn new -> r
    ensures r.0@.len() == 0
=== fn from_vec -> r
    ensures r.0 == v
=== fn into_inner -> r
    ensures r == self.0
=== fn as_slice -> r
    ensures r@ == self.0@
=== in impl std::ops::Deref for Sequence<T>
=== fn deref -> r
    ensures r@ == self.0@
=== in impl From<Sequence<T>> for Vec<T>
=== fn from -> r twin
    ensures r == val.0
=== in impl From<Vec<T>> for Sequence<T>
=== fn from -> r twin
    ensures r.0 == seq
=== in impl FromIterator<T> for Sequence<T>
=== inherent
=== fn from_iter -> r
    ensures r.0@ == iter_elems(iter)
=== rw Vec::from_iter\( => vfrom_iter(
=== in impl Extend<T> for Sequence<T>
=== inherent
=== fn extend
    ensures final(self).0@ == old(self).0@ + iter_elems(iter)
=== in impl Estimable for Sequence<T>
=== fn KNOWN
=== fn unknown
=== body
    proof { assert(self.lv().take(self.lv().len() as int) =~= self.lv()); }
=== sum 0
    invariant vsum0.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vsum0.seq()[i]) == self.0@[i],
        Self::lok(self.lv()), encs::<T>(self.lv()).len() <= usize::MAX,
        vacc == encs::<T>(self.lv().take(vsum0.index@)).len(),
=== sumbody 0
    proof { crate::conv::encs_step::<T>(self.lv(), vsum0.index@); assert(self.lv()[vsum0.index@] == vitem.lv()); }
=== in impl Encode for Sequence<T>
=== fn write_to
=== body
    let ghost b0 = buf.tv();
    proof { assert(self.lv().take(self.lv().len() as int) =~= self.lv()); }
=== sum 0
    invariant vsum0.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vsum0.seq()[i]) == self.0@[i],
        Self::lok(self.lv()), encs::<T>(self.lv()).len() <= usize::MAX,
        vacc == encs::<T>(self.lv().take(vsum0.index@)).len(),
        buf.twf(), U::keeps() ==> buf.tv() =~= b0 + encs::<T>(self.lv().take(vsum0.index@)),
=== sumbody 0
    proof { crate::conv::encs_step::<T>(self.lv(), vsum0.index@); assert(self.lv()[vsum0.index@] == item.lv()); }
=== in impl Decode for Sequence<T>
=== fn parse
=== body
    let ghost s0 = p.segs(); let ghost b = s0.last(); let ghost mut c = 0int;
    proof { assert(b.skip(0) =~= b); assert(adv(s0, 0) =~= s0); assert(dec_all::<T>(b) is Some ==> vals::<T>(Seq::<T>::empty()) + (dec_all::<T>(b)->0) =~= dec_all::<T>(b)->0); }
=== loop 0
    invariant pok(p), T::dterm(), grows::<T>(), s0 == old(p).segs(), s0.len() > 0, b == s0.last(), 0 <= c <= b.len(), p.segs() == adv(s0, c),
        match dec_all::<T>(b.skip(c)) { Some(r) => dec_all::<T>(b) == Some(vals::<T>(seq@) + r), None => dec_all::<T>(b) is None },
    decreases b.len() - c
=== loopbody 0
    let ghost q0 = seq@;
    proof {
        let d = b.skip(c);
        T::dec_bound(d);
        crate::parse::adv_adv(s0, c);
        if T::ldec(d) is Some {
            let k = (T::ldec(d)->0).1 as int;
            assert(d.skip(k) =~= b.skip(c + k));
            c = c + k;
            if dec_all::<T>(d.skip(k)) is Some {
                assert forall|q: Seq<T>| q.len() == q0.len() + 1 && q.drop_last() == q0 && q.last().lv() == (T::ldec(d)->0).0 implies
                    #[trigger] vals::<T>(q) + dec_all::<T>(d.skip(k))->0 == vals::<T>(q0) + (seq![(T::ldec(d)->0).0] + dec_all::<T>(d.skip(k))->0) by {
                    assert(vals::<T>(q) + dec_all::<T>(d.skip(k))->0 =~= vals::<T>(q0) + (seq![(T::ldec(d)->0).0] + dec_all::<T>(d.skip(k))->0)) by {
                        assert forall|i: int| 0 <= i < q0.len() implies q[i] == q0[i] by { assert(q.drop_last()[i] == q[i]); }
                    }
                }
            }
        }
    }
=== at after seq.push(T::parse(p)?);
    proof { assert(seq@.drop_last() =~= q0); }
=== at Ok(Self(seq))
    proof { assert(b.skip(c).len() == 0); assert(vals::<T>(seq@) + Seq::empty() =~= vals::<T>(seq@)); }
=== mod seq::lim
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::{Layout, encs, vals, allok};
use crate::seq::{dec_all, dec_n, grows, tails, nonempty, all_rt, n_rt, n_bound};
=== derive LimSeq
=== drop /^impl .*Serialize
impl<T: Layout, const N: usize> Layout for LimSeq<T, N> {
    type V = Seq<T::V>;
    open spec fn lv(&self) -> Seq<T::V> { vals::<T>(self.0@) }
    open spec fn lok(v: Seq<T::V>) -> bool { allok::<T>(v) && v.len() <= N }
    open spec fn lenc(v: Seq<T::V>) -> Seq<u8> { encs::<T>(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<T::V>, nat)> { match dec_all::<T>(b) { Some(v) => if v.len() <= N { Some((v, b.len())) } else { None }, None => None } }
    open spec fn dterm() -> bool { T::dterm() && grows::<T>() && N < usize::MAX }
    open spec fn ltail(v: Seq<T::V>, k: nat) -> bool { k == 0 && nonempty::<T>(v) && tails::<T>(v, 0) }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<T::V>, t: Seq<u8>) { all_rt::<T>(v); assert(encs::<T>(v) + t =~= encs::<T>(v)); }
}
=== in impl LimSeq<T,N>
=== fn new -> r
    ensures r.0@.len() == 0
=== fn into_vec -> r
    ensures r == self.0
=== fn from_vec_unchecked -> r
    requires value@.len() <= N
    ensures r.0 == value
=== fn from_vec -> r
    ensures r.0 == value, value@.len() <= N
=== rw (?:crate::trusted::)?vpanic\(\) => vrefuse(Ghost(value@.len() <= N))
=== in impl IsBoundedSeq for LimSeq<T,N>
    open spec fn bview(&self) -> Seq<T> { self.0@ }
    open spec fn blim() -> nat { N as nat }
=== fn LIMIT
=== in impl BoundedSeqImpl for LimSeq<T,N>
    proof fn law(s: &Self, r: &[T]) { }
=== fn push_unchecked
=== in impl Deref for LimSeq<T,N>
=== fn deref -> r
    ensures r@ == self.0@
=== rw self\.0\.deref\(\) => self.0.as_slice()
=== in impl std::default::Default for LimSeq<T,N>
=== fn default -> r
    ensures r.0@.len() == 0
=== in impl From<LimSeq<T,N>> for Vec<T>
=== fn from -> r twin
    ensures r == val.0
=== in impl std::iter::Extend<T> for LimSeq<T,N>
=== inherent
=== fn extend
    requires old(self).0@.len() <= N
    ensures final(self).0@ == old(self).0@ + iter_elems(iter), final(self).0@.len() <= N
=== rw unwrap_or_else\(\|\| => unwrap_or_else(|| -> (q: usize) requires false
=== rw iter\.into_iter\(\) => viter(iter)
=== rw i\.by_ref\(\)\.take\( => i.vtake(
=== rw (i\.next\(\)\.is_some\(\)\s*\{\s*\{?\s*)(?:crate::trusted::)?vpanic\(\) => \1vrefuse(Ghost(old(self).0@.len() + iter_elems(iter).len() <= N))
=== body
    broadcast use axiom_iter_elems_vec;
=== in impl FromIterator<T> for LimSeq<T,N>
=== inherent
=== fn from_iter -> r
    ensures r.0@ == iter_elems(iter), r.0@.len() <= N
=== rw iter\.into_iter\(\) => viter(iter)
=== rw inner::Inner(::<T, N>)?::from_iter\(i\.by_ref\(\)\.take\(N\)\) => i.vtake(N)
=== rw (i\.next\(\)\.is_some\(\)\s*\{\s*\{?\s*)(?:crate::trusted::)?vpanic\(\) => \1vrefuse(Ghost(iter_elems(iter).len() <= N))
=== in impl std::convert::TryFrom<&'_ [T]> for LimSeq<T,N>
=== fn try_from -> r twin
    ensures r is Ok <==> slice@.len() <= N, r is Ok ==> cloned_seq(slice@, (r->Ok_0).0@)
=== rw inner::Inner(::<T, N>)?::try_from\(slice\)\.unwrap\(\) => vclone_vec(slice)
=== in impl std::convert::TryFrom<Vec<T>> for LimSeq<T,N>
=== fn try_from -> r twin
    ensures r is Ok <==> value@.len() <= N, r is Ok ==> (r->Ok_0).0 == value
=== in -
impl<T: Clone, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'_ [T]> for LimSeq<T, N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'_ [T]) -> Result<Self, LengthError> { arbitrary() } }
impl<T, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<Vec<T>> for LimSeq<T, N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: Vec<T>) -> Result<Self, LengthError> { arbitrary() } }
=== in impl Encode for LimSeq<T,N>
=== fn write_to
=== body
    let ghost b0 = buf.tv();
    proof { assert(self.lv().take(self.lv().len() as int) =~= self.lv()); }
=== sum 0
    invariant vsum0.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vsum0.seq()[i]) == self.0@[i],
        Self::lok(self.lv()), encs::<T>(self.lv()).len() <= usize::MAX,
        vacc == encs::<T>(self.lv().take(vsum0.index@)).len(),
        buf.twf(), U::keeps() ==> buf.tv() =~= b0 + encs::<T>(self.lv().take(vsum0.index@)),
=== sumbody 0
    proof { crate::conv::encs_step::<T>(self.lv(), vsum0.index@); assert(self.lv()[vsum0.index@] == item.lv()); }
=== in impl Estimable for LimSeq<T,N>
=== fn unknown
=== body
    proof { assert(self.lv().take(self.lv().len() as int) =~= self.lv()); }
=== sum 0
    invariant vsum0.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vsum0.seq()[i]) == self.0@[i],
        Self::lok(self.lv()), encs::<T>(self.lv()).len() <= usize::MAX,
        vacc == encs::<T>(self.lv().take(vsum0.index@)).len(),
=== sumbody 0
    proof { crate::conv::encs_step::<T>(self.lv(), vsum0.index@); assert(self.lv()[vsum0.index@] == vitem.lv()); }
=== in impl Estimable for LimSeq<T,N>
=== fn KNOWN
=== in impl Decode for LimSeq<T,N>
=== fn parse
=== body
    let ghost s0 = p.segs(); let ghost b = s0.last(); let ghost mut c = 0int;
    proof { assert(b.skip(0) =~= b); assert(adv(s0, 0) =~= s0); assert(dec_all::<T>(b) is Some ==> vals::<T>(Seq::<T>::empty()) + (dec_all::<T>(b)->0) =~= dec_all::<T>(b)->0); }
=== loop 0
    invariant pok(p), T::dterm(), grows::<T>(), N < usize::MAX, s0 == old(p).segs(), s0.len() > 0, b == s0.last(), 0 <= c <= b.len(), p.segs() == adv(s0, c), seq.0@.len() <= N,
        match dec_all::<T>(b.skip(c)) { Some(r) => dec_all::<T>(b) == Some(vals::<T>(seq.0@) + r), None => dec_all::<T>(b) is None },
    decreases b.len() - c
=== loopbody 0
    let ghost q0 = seq.0@;
    proof {
        let d = b.skip(c);
        T::dec_bound(d);
        crate::parse::adv_adv(s0, c);
        if T::ldec(d) is Some {
            let k = (T::ldec(d)->0).1 as int;
            assert(d.skip(k) =~= b.skip(c + k));
            c = c + k;
            if dec_all::<T>(d.skip(k)) is Some {
                assert forall|e: T| e.lv() == (T::ldec(d)->0).0 implies
                    #[trigger] vals::<T>(q0.push(e)) + dec_all::<T>(d.skip(k))->0 == vals::<T>(q0) + (seq![(T::ldec(d)->0).0] + dec_all::<T>(d.skip(k))->0) by {
                    assert(vals::<T>(q0.push(e)) + dec_all::<T>(d.skip(k))->0 =~= vals::<T>(q0) + (seq![(T::ldec(d)->0).0] + dec_all::<T>(d.skip(k))->0));
                }
            }
        }
    }
=== at Ok(seq)
    proof { assert(b.skip(c).len() == 0); assert(vals::<T>(seq.0@) + Seq::empty() =~= vals::<T>(seq.0@)); }
=== mod seq::fix::inner
=== in -
=== fn vectorize -> r
    ensures r == val
=== fn internalize -> r
    ensures r == val
=== mod seq::fix
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::{Layout, encs, vals, allok};
use crate::seq::{dec_all, dec_n, grows, tails, nonempty, all_rt, n_rt, n_bound};
=== derive FixSeq
=== drop /^impl .*Serialize
impl<T: Layout, const N: usize> Layout for FixSeq<T, N> {
    type V = Seq<T::V>;
    open spec fn lv(&self) -> Seq<T::V> { vals::<T>(self.0@) }
    open spec fn lok(v: Seq<T::V>) -> bool { allok::<T>(v) && v.len() == N }
    open spec fn lenc(v: Seq<T::V>) -> Seq<u8> { encs::<T>(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<T::V>, nat)> { dec_n::<T>(b, N as nat) }
    open spec fn dterm() -> bool { T::dterm() && N < usize::MAX }
    open spec fn ltail(v: Seq<T::V>, k: nat) -> bool { tails::<T>(v, k) }
    proof fn dec_bound(b: Seq<u8>) { n_bound::<T>(b, N as nat); }
    proof fn rt(v: Seq<T::V>, t: Seq<u8>) { n_rt::<T>(v, t); }
}
=== in impl FixSeq<T,N>
=== fn new -> r
    ensures r.0@.len() == 0
=== in impl IsBoundedSeq for FixSeq<T,N>
    open spec fn bview(&self) -> Seq<T> { self.0@ }
    open spec fn blim() -> nat { N as nat }
=== fn LIMIT
=== in impl BoundedSeqImpl for FixSeq<T,N>
    proof fn law(s: &Self, r: &[T]) { }
=== fn push_unchecked
=== in impl Deref for FixSeq<T,N>
=== fn deref -> r
    ensures r@ == self.0@
=== rw self\.0\.deref\(\) => self.0.as_slice()
=== in impl std::default::Default for FixSeq<T,N>
=== fn default -> r
    ensures r.0@.len() == 0
=== in impl From<FixSeq<T,N>> for Vec<T>
=== fn from -> r twin
    ensures r == val.0
=== in impl std::iter::Extend<T> for FixSeq<T,N>
=== inherent
=== fn extend
    requires old(self).0@.len() <= N
    ensures final(self).0@ == old(self).0@ + iter_elems(iter), final(self).0@.len() <= N
=== rw unwrap_or_else\(\|\| => unwrap_or_else(|| -> (q: usize) requires false
=== rw iter\.into_iter\(\) => viter(iter)
=== rw i\.by_ref\(\)\.take\( => i.vtake(
=== rw (i\.next\(\)\.is_some\(\)\s*\{\s*\{?\s*)(?:crate::trusted::)?vpanic\(\) => \1vrefuse(Ghost(old(self).0@.len() + iter_elems(iter).len() <= N))
=== body
    broadcast use axiom_iter_elems_vec;
=== in impl FromIterator<T> for FixSeq<T,N>
=== inherent
=== fn from_iter -> r
    ensures r.0@ == iter_elems(iter), r.0@.len() <= N
=== rw iter\.into_iter\(\) => viter(iter)
=== rw inner::Inner(::<T, N>)?::from_iter\(i\.by_ref\(\)\.take\(N\)\) => i.vtake(N)
=== rw (i\.next\(\)\.is_some\(\)\s*\{\s*\{?\s*)(?:crate::trusted::)?vpanic\(\) => \1vrefuse(Ghost(iter_elems(iter).len() <= N))
=== in impl std::convert::TryFrom<&'_ [T]> for FixSeq<T,N>
=== fn try_from -> r twin
    ensures r is Ok <==> slice@.len() == N, r is Ok ==> cloned_seq(slice@, (r->Ok_0).0@)
=== rw inner::Inner(::<T, N>)?::try_from\(slice\)\.unwrap\(\) => vclone_vec(slice)
=== in impl std::convert::TryFrom<Vec<T>> for FixSeq<T,N>
=== fn try_from -> r twin
    ensures r is Ok <==> value@.len() <= N, r is Ok ==> (r->Ok_0).0 == value
=== in -
impl<T: Clone, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'_ [T]> for FixSeq<T, N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'_ [T]) -> Result<Self, LengthError> { arbitrary() } }
impl<T, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<Vec<T>> for FixSeq<T, N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: Vec<T>) -> Result<Self, LengthError> { arbitrary() } }
=== in impl Encode for FixSeq<T,N>
=== fn write_to
=== body
    let ghost b0 = buf.tv();
    proof { assert(self.lv().take(self.lv().len() as int) =~= self.lv()); }
=== sum 0
    invariant vsum0.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vsum0.seq()[i]) == self.0@[i],
        Self::lok(self.lv()), encs::<T>(self.lv()).len() <= usize::MAX,
        vacc == encs::<T>(self.lv().take(vsum0.index@)).len(),
        buf.twf(), U::keeps() ==> buf.tv() =~= b0 + encs::<T>(self.lv().take(vsum0.index@)),
=== sumbody 0
    proof { crate::conv::encs_step::<T>(self.lv(), vsum0.index@); assert(self.lv()[vsum0.index@] == item.lv()); }
=== in impl Estimable for FixSeq<T,N>
=== fn unknown
=== body
    proof { assert(self.lv().take(self.lv().len() as int) =~= self.lv()); }
=== sum 0
    invariant vsum0.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vsum0.seq()[i]) == self.0@[i],
        Self::lok(self.lv()), encs::<T>(self.lv()).len() <= usize::MAX,
        vacc == encs::<T>(self.lv().take(vsum0.index@)).len(),
=== sumbody 0
    proof { crate::conv::encs_step::<T>(self.lv(), vsum0.index@); assert(self.lv()[vsum0.index@] == vitem.lv()); }
=== in impl Estimable for FixSeq<T,N>
=== fn KNOWN
=== body
    proof { assert forall|v: Seq<T::V>, w: nat| Self::lok(v) && #[trigger] crate::conv::len::unif::<T>(w) implies (#[trigger] Self::lenc(v)).len() == N * w by { crate::conv::encs_unif::<T>(v, w); } }
=== in impl Decode for FixSeq<T,N>
=== fn parse
=== body
    let ghost s0 = p.segs(); let ghost b = s0.last(); let ghost mut c = 0int;
    proof { assert(b.skip(0) =~= b); assert(adv(s0, 0) =~= s0); assert(dec_n::<T>(b, N as nat) is Some ==> vals::<T>(Seq::<T>::empty()) + (dec_n::<T>(b, N as nat)->0).0 =~= (dec_n::<T>(b, N as nat)->0).0); }
=== loop 0
    invariant pok(p), T::dterm(), N < usize::MAX, s0 == old(p).segs(), s0.len() > 0, b == s0.last(), 0 <= c <= b.len(), p.segs() == adv(s0, c), seq.0@.len() <= N,
        match dec_n::<T>(b.skip(c), (N - seq.0@.len()) as nat) { Some((r, m)) => dec_n::<T>(b, N as nat) == Some((vals::<T>(seq.0@) + r, c as nat + m)), None => dec_n::<T>(b, N as nat) is None },
    decreases N - seq.0@.len()
=== loopbody 0
    let ghost q0 = seq.0@;
    proof {
        let d = b.skip(c); let n = (N - q0.len() - 1) as nat;
        T::dec_bound(d);
        crate::parse::adv_adv(s0, c);
        if T::ldec(d) is Some {
            let k = (T::ldec(d)->0).1 as int;
            assert(d.skip(k) =~= b.skip(c + k));
            c = c + k;
            if dec_n::<T>(d.skip(k), n) is Some {
                assert forall|e: T| e.lv() == (T::ldec(d)->0).0 implies
                    #[trigger] vals::<T>(q0.push(e)) + (dec_n::<T>(d.skip(k), n)->0).0 == vals::<T>(q0) + (seq![(T::ldec(d)->0).0] + (dec_n::<T>(d.skip(k), n)->0).0) by {
                    assert(vals::<T>(q0.push(e)) + (dec_n::<T>(d.skip(k), n)->0).0 =~= vals::<T>(q0) + (seq![(T::ldec(d)->0).0] + (dec_n::<T>(d.skip(k), n)->0).0));
                }
            }
        }
    }
=== at Ok(seq)
    proof { assert(vals::<T>(seq.0@) + Seq::empty() =~= vals::<T>(seq.0@)); }
=== mod seq::lim::inner
=== mod seq
=== in impl Sequence<T>
=== fn as_mut_slice -> r
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== in impl std::default::Default for Sequence<T>
=== fn default -> r
    ensures r.0@.len() == 0
=== in impl AsRef<[T]> for Sequence<T>
=== fn as_ref -> r freeonly
    ensures r@ == self.0@
=== in impl AsMut<[T]> for Sequence<T>
=== fn as_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== in impl std::ops::DerefMut for Sequence<T>
=== subst Sequence::<T>::Target => [T]
=== fn deref_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== in impl IntoIterator for Sequence<T>
=== fn into_iter -> r freeonly
    ensures iter_elems(r) == self.0@
=== rw (self\.0)\.into_iter\(\) => crate::trusted::vvec_into_iter(\1)
=== in impl IntoIterator for &'a Sequence<T>
=== fn into_iter -> r freeonly
    ensures iter_elems(r).map_values(|x: &'a T| *x) == self.0@
=== rw (self\.0)\.iter\(\) => crate::trusted::vslice_iter(&\1)
=== mod seq::lim
=== in impl DerefMut for LimSeq<T,N>
=== subst LimSeq::<T, N>::Target => [T]
=== fn deref_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== rw (self\.0)\.deref_mut\(\) => \1.as_mut_slice()
=== in impl IntoIterator for LimSeq<T,N>
=== subst <inner::Inner<T, N> as IntoIterator>::IntoIter => std::vec::IntoIter<T>
=== fn into_iter -> r freeonly
    ensures iter_elems(r) == self.0@
=== rw (self\.0)\.into_iter\(\) => crate::trusted::vvec_into_iter(\1)
=== in impl IntoIterator for &'a LimSeq<T,N>
=== fn into_iter -> r freeonly
    ensures iter_elems(r).map_values(|x: &'a T| *x) == self.0@
=== rw (self\.0)\.iter\(\) => crate::trusted::vslice_iter(&\1)
=== mod seq::fix
=== in impl DerefMut for FixSeq<T,N>
=== subst FixSeq::<T, N>::Target => [T]
=== fn deref_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== rw (self\.0)\.deref_mut\(\) => \1.as_mut_slice()
=== in impl IntoIterator for FixSeq<T,N>
=== subst <inner::Inner<T, N> as IntoIterator>::IntoIter => std::vec::IntoIter<T>
=== fn into_iter -> r freeonly
    ensures iter_elems(r) == self.0@
=== rw (self\.0)\.into_iter\(\) => crate::trusted::vvec_into_iter(\1)
=== in impl IntoIterator for &'a FixSeq<T,N>
=== fn into_iter -> r freeonly
    ensures iter_elems(r).map_values(|x: &'a T| *x) == self.0@
=== rw (self\.0)\.iter\(\) => crate::trusted::vslice_iter(&\1)
