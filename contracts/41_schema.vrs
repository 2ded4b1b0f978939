=== mod schema
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
=== derive Padded
=== derive Nullable
=== derive Bytes
=== drop impl Serialize for Bytes
=== drop impl IntoIterator for &'a mut Bytes
=== drop const impl:Padded<T,N>::PADDING
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
impl<T: Layout, const N: usize> Layout for Padded<T, N> {
    type V = T::V;
    open spec fn lv(&self) -> T::V { self.0.lv() }
    open spec fn lok(v: T::V) -> bool { T::lok(v) }
    open spec fn lenc(v: T::V) -> Seq<u8> { T::lenc(v) + zeros(N as nat) }
    open spec fn ldec(b: Seq<u8>) -> Option<(T::V, nat)> {
        match T::ldec(b) { Some((v, k)) => if k + N <= b.len() { Some((v, k + N as nat)) } else { None }, None => None }
    }
    open spec fn dterm() -> bool { T::dterm() }
    open spec fn ltail(v: T::V, k: nat) -> bool { T::ltail(v, k + N as nat) }
    proof fn dec_bound(b: Seq<u8>) { T::dec_bound(b); }
    proof fn rt(v: T::V, t: Seq<u8>) {
        T::rt(v, zeros(N as nat) + t);
        assert(Self::lenc(v) + t =~= T::lenc(v) + (zeros(N as nat) + t));
    }
}
impl<T: Layout> Layout for Nullable<T> {
    type V = Option<T::V>;
    open spec fn lv(&self) -> Option<T::V> { self.0.lv() }
    /// an absent value and an empty payload have the same form
    open spec fn lok(v: Option<T::V>) -> bool { match v { Some(x) => T::lok(x), None => true } }
    open spec fn lenc(v: Option<T::V>) -> Seq<u8> { match v { Some(x) => T::lenc(x), None => Seq::empty() } }
    open spec fn ldec(b: Seq<u8>) -> Option<(Option<T::V>, nat)> {
        if b.len() == 0 { Some((None, 0)) } else { match T::ldec(b) { Some((x, n)) => Some((Some(x), n)), None => None } }
    }
    open spec fn dterm() -> bool { T::dterm() }
    open spec fn ltail(v: Option<T::V>, k: nat) -> bool { match v { Some(x) => T::lenc(x).len() > 0 && T::ltail(x, k), None => k == 0 } }
    proof fn dec_bound(b: Seq<u8>) { T::dec_bound(b); }
    proof fn rt(v: Option<T::V>, t: Seq<u8>) { match v { Some(x) => { T::rt(x, t); } None => {} } }
}
impl Layout for Bytes {
    type V = Seq<u8>;
    open spec fn lv(&self) -> Seq<u8> { self.0@ }
    open spec fn lok(v: Seq<u8>) -> bool { v.len() <= usize::MAX }
    open spec fn lenc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<u8>, nat)> { Some((b, b.len())) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: Seq<u8>, k: nat) -> bool { k == 0 }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<u8>, t: Seq<u8>) { assert(v + t =~= v); }
}
=== in impl Padded<T,N>
=== fn new -> r
    ensures r.0 == x
=== fn with_padding -> r
    ensures r.0 == x
=== fn into_inner -> r
    ensures r == self.0
=== fn as_inner -> r
    ensures *r == self.0
=== fn padding -> r
    ensures r == N
=== in impl Encode for Padded<T,N>
=== fn write_to
=== body
    let ghost b0 = buf.tv();
    assert([0u8; N]@ =~= zeros(N as nat));
=== in impl Decode for Padded<T,N>
=== fn parse
=== body
    proof {
        let s0 = p.segs(); let b = s0.last();
        T::dec_bound(b);
        if T::ldec(b) is Some { crate::parse::adv_adv(s0, (T::ldec(b)->0).1 as int); }
    }
=== in impl Estimable for Padded<T,N>
=== fn KNOWN
=== rw vunreachable\(\) => { vconstfail(); None }
=== fn unknown
=== in impl Nullable<T>
=== fn is_some -> r
    ensures r == (self.0 is Some)
=== fn is_none -> r
    ensures r == (self.0 is None)
=== fn into_inner -> r
    ensures r == self.0
=== fn as_inner -> r
    ensures *r == self.0
=== in impl Estimable for Nullable<T>
=== fn KNOWN
=== fn unknown
=== in impl Encode for Nullable<T>
=== fn write_to
=== in impl Decode for Nullable<T>
=== fn parse
=== body
    proof {
        let s0 = p.segs();
        assert(adv(s0, 0) =~= s0) by { assert(s0.last().skip(0) =~= s0.last()); }
    }
=== in impl Bytes
=== fn new -> r
    ensures r.0@.len() == 0
=== fn from_vec -> r
    ensures r.0 == bytes
=== fn into_vec -> r
    ensures r == self.0
=== in impl Encode for Bytes
=== fn write_to
=== fn write_to_vec
=== fn encode
=== fn to_bytes
=== in impl Decode for Bytes
=== fn parse
=== body
    proof { let b = p.segs().last(); assert(b.take(b.len() as int) =~= b); }
=== in impl Estimable for Bytes
=== fn unknown
=== fn estimate
=== in impl Padded<T,N>
=== fn as_mut_inner -> r
    ensures *r == old(self).0, *final(r) == final(self).0
=== in impl From<T> for Padded<T,N>
=== fn from -> r freeonly
    ensures r.0 == val
=== in impl Nullable<T>
=== fn as_mut_inner -> r
    ensures *r == old(self).0, *final(r) == final(self).0
=== in impl Default for Nullable<T>
=== fn default -> r
    ensures r.0 is None
=== in impl From<Nullable<T>> for Option<T>
=== fn from -> r freeonly
    ensures r == val.0
=== in impl From<Option<T>> for Nullable<T>
=== fn from -> r freeonly
    ensures r.0 == val
=== in impl From<T> for Nullable<T>
=== fn from -> r freeonly
    ensures r.0 == Some(val)
=== in impl AsRef<Vec<u8>> for Bytes
=== fn as_ref -> r freeonly
    ensures *r == self.0
=== in impl AsMut<Vec<u8>> for Bytes
=== fn as_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== in impl AsRef<[u8]> for Bytes
=== fn as_ref -> r freeonly
    ensures r@ == self.0@
=== rw (self\.0)\.as_ref\(\) => \1.as_slice()
=== in impl AsMut<[u8]> for Bytes
=== fn as_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== rw (self\.0)\.as_mut\(\) => \1.as_mut_slice()
=== in impl Deref for Bytes
=== fn deref -> r freeonly
    ensures r@ == self.0@
=== in impl DerefMut for Bytes
=== subst Bytes::Target => [u8]
=== fn deref_mut -> r freeonly
    ensures r@ == old(self).0@, final(self).0@ == final(r)@
=== in impl IntoIterator for Bytes
=== fn into_iter -> r freeonly
    ensures iter_elems(r) == self.0@
=== rw (self\.0)\.into_iter\(\) => crate::trusted::vvec_into_iter(\1)
=== in impl IntoIterator for &'a Bytes
=== fn into_iter -> r freeonly
    ensures iter_elems(r).map_values(|x: &'a u8| *x) == self.0@
=== rw (self\.0)\.iter\(\) => crate::trusted::vslice_iter(&\1)
=== in impl FromIterator<u8> for Bytes
=== fn from_iter -> r freeonly
    ensures r.0@ == iter_elems(iter)
=== rw Vec::<u8>::from_iter\( => crate::trusted::vfrom_iter(
=== in impl Extend<u8> for Bytes
=== fn extend freeonly
    ensures final(self).0@ == old(self).0@ + iter_elems(iter)
=== in impl From<Bytes> for Vec<u8>
=== fn from -> r freeonly
    ensures r == val.0
=== in impl From<Vec<u8>> for Bytes
=== fn from -> r freeonly
    ensures r.0 == bytes
=== each S: [u8;N] | &'_[u8;N] | &'_ mut[u8;N] | &'_[u8] | &'_ mut[u8]
=== in impl From<${S}> for Bytes
=== fn from -> r freeonly
    ensures r.0@ == bytes.vb()
=== rw (\w+)\.to_vec\(\) => \1.vto_vec()
=== end
=== in impl From<Box<[u8]>> for Bytes
=== fn from -> r freeonly
    ensures r.0@ == val@
=== in impl From<Bytes> for Box<[u8]>
=== fn from -> r freeonly
    ensures r@ == bytes.0@
