=== mod conv
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
/// The wire layout of a type, as mathematics: what its values are, which of them have a wire form, the
/// bytes of that form, and what decoding the start of a byte string yields (value, bytes used).
pub trait Layout: Sized {
    type V;
    spec fn lv(&self) -> Self::V;
    /// values the type's documented limits admit
    spec fn lok(v: Self::V) -> bool;
    spec fn lenc(v: Self::V) -> Seq<u8>;
    spec fn ldec(b: Seq<u8>) -> Option<(Self::V, nat)>;
    /// decoding ends on every input (elements of lists use at least one byte)
    spec fn dterm() -> bool;
    /// v decodes back when exactly k bytes follow its encoding in the same context
    spec fn ltail(v: Self::V, k: nat) -> bool;
    proof fn dec_bound(b: Seq<u8>)
        requires Self::dterm()
        ensures Self::ldec(b) is Some ==> (Self::ldec(b)->0).1 <= b.len();
    proof fn rt(v: Self::V, t: Seq<u8>)
        requires Self::dterm(), Self::lok(v), Self::ltail(v, t.len())
        ensures Self::ldec(Self::lenc(v) + t) == Some((v, Self::lenc(v).len()));
}
/// the elements' encodings, one after the other
pub open spec fn encs<T: Layout>(v: Seq<T::V>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { encs::<T>(v.drop_last()) + T::lenc(v.last()) } }
pub open spec fn vals<T: Layout>(s: Seq<T>) -> Seq<T::V> { s.map_values(|x: T| x.lv()) }
pub open spec fn allok<T: Layout>(v: Seq<T::V>) -> bool { forall|i: int| 0 <= i < v.len() ==> T::lok(#[trigger] v[i]) }
pub proof fn encs_first<T: Layout>(v: Seq<T::V>)
    requires v.len() > 0
    ensures encs::<T>(v) =~= T::lenc(v[0]) + encs::<T>(v.skip(1))
    decreases v.len()
{
    if v.len() > 1 {
        encs_first::<T>(v.drop_last());
        assert(v.drop_last().skip(1) =~= v.skip(1).drop_last());
        assert(v.skip(1).last() == v.last());
    } else {
        assert(v.drop_last().len() == 0 && v.skip(1).len() == 0);
        assert(encs::<T>(v.drop_last()) =~= Seq::<u8>::empty());
    }
}
pub proof fn encs_mono<T: Layout>(v: Seq<T::V>, k: int)
    requires 0 <= k <= v.len()
    ensures encs::<T>(v.take(k)).len() <= encs::<T>(v).len()
    decreases v.len() - k
{
    if k < v.len() {
        encs_mono::<T>(v, k + 1);
        assert(v.take(k + 1).drop_last() =~= v.take(k));
    } else { assert(v.take(k) =~= v); }
}
pub proof fn encs_step<T: Layout>(v: Seq<T::V>, k: int)
    requires 0 <= k < v.len()
    ensures encs::<T>(v.take(k + 1)) == encs::<T>(v.take(k)) + T::lenc(v[k]), encs::<T>(v.take(k + 1)).len() <= encs::<T>(v).len()
{
    encs_mono::<T>(v, k + 1);
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    assert(v.take(k + 1).last() == v[k]);
}
pub proof fn encs_unif<T: Layout>(v: Seq<T::V>, w: nat)
    requires allok::<T>(v), crate::conv::len::unif::<T>(w)
    ensures encs::<T>(v).len() == v.len() * w
    decreases v.len()
{
    if v.len() > 0 {
        encs_unif::<T>(v.drop_last(), w);
        assert(v.len() * w == (v.len() - 1) * w + w) by (nonlinear_arith);
        assert(T::lok(v[v.len() - 1]));
    }
}
impl<T: Layout, const N: usize> Layout for [T; N] {
    type V = Seq<T::V>;
    open spec fn lv(&self) -> Seq<T::V> { vals::<T>(self@) }
    open spec fn lok(v: Seq<T::V>) -> bool { v.len() == N && allok::<T>(v) }
    open spec fn lenc(v: Seq<T::V>) -> Seq<u8> { encs::<T>(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<T::V>, nat)> { None }
    open spec fn dterm() -> bool { false }
    open spec fn ltail(v: Seq<T::V>, k: nat) -> bool { false }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<T::V>, t: Seq<u8>) { }
}
=== in trait Encode
=== super Layout
=== in trait Encode
=== fn write_to -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX, old(buf).twf()
    ensures final(buf).twf(), U::keeps() ==> final(buf).tv() == old(buf).tv() + Self::lenc(self.lv()), r == Self::lenc(self.lv()).len()
=== fn write_to_vec
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX
    ensures final(buf)@ == old(buf)@ + Self::lenc(self.lv())
=== fn encode -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX
    ensures r.twf(), U::keeps() ==> r.tv() =~= Self::lenc(self.lv())
=== fn to_bytes -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX
    ensures r@ =~= Self::lenc(self.lv())
=== in trait EncodeLength
=== fn enc_len -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX
    ensures r == Self::lenc(self.lv()).len()
=== fn to_bytes_full -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= isize::MAX
    ensures r@ =~= Self::lenc(self.lv())
=== in impl EncodeLength for T
=== subst + ?Sized => 
=== in trait Decode
=== super Layout
=== fn parse -> r
    requires pok(old(p)), Self::dterm()
    ensures pok(final(p)),
        r is Ok ==> ({ let d = Self::ldec(old(p).segs().last());
            d is Some && (d->0).0 == r->Ok_0.lv() && final(p).segs() == adv(old(p).segs(), (d->0).1 as int) }),
        r is Err ==> Self::ldec(old(p).segs().last()) is None
=== fn try_decode -> r
    requires Self::dterm()
    ensures input.tip() is Some ==> (r is Ok) == (Self::ldec(input.tip()->0) is Some) && (r is Ok ==> r->Ok_0.lv() == (Self::ldec(input.tip()->0)->0).0)
=== each F: decode | decode_memo
=== fn ${F} -> r
    requires Self::dterm()
    ensures inp.tip() is Some ==> Self::ldec(inp.tip()->0) is Some && r.lv() == (Self::ldec(inp.tip()->0)->0).0
=== rw (?s)(Self::try_decode\(inp\))\s*\.unwrap_or_else\(\|\w+\|.*\}\) => crate::trusted::vexpect_if(\1, Ghost(inp.tip() is Some), Ghost(Self::ldec(inp.tip()->0) is Some))
=== end
=== mod conv::error
use crate::trusted::*;
=== drop impl From<std::convert::Infallible> for DecodeError
=== each A,B: HexConvError,Conv | ParseError,Parse | InvariantError,Invariant
impl vstd::std_specs::convert::FromSpecImpl<${A}> for DecodeError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ${A}) -> DecodeError { DecodeError::${B}(v) } }
=== end
=== each A,B: HexConvError,Conv | ParseError,Parse | InvariantError,Invariant
=== in impl From<${A}> for DecodeError
=== fn from -> r twin
    ensures r == DecodeError::${B}(err)
=== end
=== mod conv::target
use crate::trusted::*;
=== in trait Target
=== sized
=== in trait Target
    /// bytes held
    spec fn tv(&self) -> Seq<u8>;
    spec fn twf(&self) -> bool;
    /// false for destinations that only count
    spec fn keeps() -> bool;
=== fn anticipate
    requires old(self).twf()
    ensures final(self).twf(), Self::keeps() ==> final(self).tv() == old(self).tv()
=== fn create -> r
    ensures r.twf(), Self::keeps() ==> r.tv().len() == 0
=== fn push_one -> r
    requires old(self).twf()
    ensures final(self).twf(), r == 1, Self::keeps() ==> final(self).tv() == old(self).tv().push(b)
=== fn push_many -> r
    requires old(self).twf()
    ensures final(self).twf(), r == N, Self::keeps() ==> final(self).tv() == old(self).tv() + arr@
=== fn push_all -> r
    requires old(self).twf()
    ensures final(self).twf(), r == buf@.len(), Self::keeps() ==> final(self).tv() == old(self).tv() + buf@
=== fn resolve
    requires old(self).twf()
    ensures final(self).twf(), Self::keeps() ==> final(self).tv() == old(self).tv()
=== fn resolve_zero -> r
    requires old(self).twf()
    ensures final(self).twf(), r == 0, Self::keeps() ==> final(self).tv() == old(self).tv()
=== in impl Target for ByteCounter
    open spec fn tv(&self) -> Seq<u8> { Seq::empty() }
    open spec fn twf(&self) -> bool { true }
    open spec fn keeps() -> bool { false }
=== fn anticipate
=== fn create
=== fn push_one
=== fn push_many
=== fn push_all
=== in impl Target for Vec<u8>
    open spec fn tv(&self) -> Seq<u8> { self@ }
    open spec fn twf(&self) -> bool { true }
    open spec fn keeps() -> bool { true }
=== fn anticipate
=== fn create
=== fn push_one
=== fn push_many
=== body
    broadcast use axiom_iter_elems_arrref;
=== fn push_all
=== mod conv::len
use crate::trusted::*;
use crate::conv::Layout;
=== constfn LEN FIXED PER_ELEM KNOWN
/// every value's encoding is w bytes long
pub open spec fn unif<T: Layout>(w: nat) -> bool { forall|v: T::V| T::lok(v) ==> (#[trigger] T::lenc(v)).len() == w }
=== in trait FixedLength
=== super Layout
=== fn LEN
    ensures unif::<Self>(r as nat)
=== in trait ScalarLength
=== super Layout
=== fn FIXED
    ensures r is Some ==> unif::<Self>(r->0 as nat)
=== fn PER_ELEM
    ensures unif::<Self::Elem>(r as nat)
=== fn n_elems -> r
    requires Self::lok(self.lv())
    ensures forall|w: nat| #[trigger] unif::<Self::Elem>(w) ==> r * w == Self::lenc(self.lv()).len()
=== in impl ScalarLength for T
=== fn n_elems
=== in trait Estimable
=== super Layout
=== fn KNOWN
    ensures r is Some ==> unif::<Self>(r->0 as nat)
=== fn unknown -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX
    ensures r == Self::lenc(self.lv()).len()
=== fn estimate -> r
    requires Self::lok(self.lv()), Self::lenc(self.lv()).len() <= usize::MAX
    ensures r == Self::lenc(self.lv()).len()
=== rw \|\| self\.unknown\(\) => || -> (q: usize) ensures q == Self::lenc(self.lv()).len() { self.unknown() }
=== in impl Estimable for T
=== fn unknown
=== in impl Estimable for Option<T>
=== fn unknown
=== in impl FixedLength for ()
=== fn LEN
=== in impl FixedLength for bool
=== fn LEN
=== in impl FixedLength for f64
=== fn LEN
=== body
    proof { assert forall|v: f64| (#[trigger] Self::lenc(v)).len() == 8 by { tc_len(bits_of_f64(v) as int, 8); } }
=== each T,N: u8,1 | i8,1 | u16,2 | i16,2 | u32,4 | i32,4 | i64,8 | u64,8
=== in impl FixedLength for ${T}
=== fn LEN
=== body
    proof { assert forall|v: ${T}| (#[trigger] Self::lenc(v)).len() == ${N} by { tc_len(v as int, ${N}); } }
=== end
=== in impl FixedLength for [T;N]
=== fn LEN
=== body
    let t = T::LEN(); proof { assert forall|v: Seq<T::V>| Self::lok(v) implies (#[trigger] Self::lenc(v)).len() == N * t by { crate::conv::encs_unif::<T>(v, t as nat); } }
=== rw T::LEN\(\) => t
=== in impl ScalarLength for Vec<T>
=== subst impl<T: FixedLength> ScalarLength for Vec<T> => impl ScalarLength for Vec<u8>
=== subst Elem = T; => Elem = u8;
=== fn n_elems
=== body
    proof { assert forall|w: nat| #[trigger] crate::conv::len::unif::<u8>(w) implies w == 1 by { tc_len(0, 1); assert(<u8 as Layout>::lok(0) && <u8 as Layout>::lenc(0).len() == 1); } }
=== in impl ScalarLength for String
=== fn n_elems
=== rw self\.len\(\) => crate::trusted::VLen::vlen(self)
=== body
    proof { assert forall|w: nat| #[trigger] crate::conv::len::unif::<u8>(w) implies w == 1 by { tc_len(0, 1); assert(<u8 as Layout>::lok(0) && <u8 as Layout>::lenc(0).len() == 1); } }
=== each S: str | &'_ str
=== in impl ScalarLength for ${S}
=== fn n_elems -> r freeonly
    ensures r == vstd::utf8::encode_utf8(self.vt()).len()
=== rw \bself\.len\(\) => crate::trusted::VLen::vlen(self.vtext())
=== end
=== in impl ScalarLength for std::borrow::Cow<'_,str>
=== fn n_elems -> r freeonly
    ensures r == vstd::utf8::encode_utf8(self.vt()).len()
=== rw \bself\.len\(\) => crate::trusted::VLen::vlen(self.vtext())
=== each S: [T] | &'_ [T]
=== in impl ScalarLength for ${S}
=== fn n_elems -> r freeonly
    ensures r == self@.len()
=== end
