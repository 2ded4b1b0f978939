=== mod prim
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
impl Layout for () {
    type V = ();
    open spec fn lv(&self) -> () { () }
    open spec fn lok(v: ()) -> bool { true }
    open spec fn lenc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn ldec(b: Seq<u8>) -> Option<((), nat)> { Some(((), 0)) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: (), k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: (), t: Seq<u8>) { }
}
impl Layout for bool {
    type V = bool;
    open spec fn lv(&self) -> bool { *self }
    open spec fn lok(v: bool) -> bool { true }
    open spec fn lenc(v: bool) -> Seq<u8> { seq![if v { 0xffu8 } else { 0u8 }] }
    open spec fn ldec(b: Seq<u8>) -> Option<(bool, nat)> { if b.len() >= 1 && (b[0] == 0xff || b[0] == 0) { Some((b[0] == 0xff, 1)) } else { None } }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: bool, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: bool, t: Seq<u8>) { }
}
=== in impl Encode for ()
=== fn write_to
=== fn write_to_vec
=== fn encode
=== fn to_bytes
=== in impl Decode for ()
=== fn try_decode
=== fn decode
=== fn decode_memo
=== fn parse
=== body
    assert(vparam1.segs() =~= adv(vparam1.segs(), 0)) by { assert(vparam1.segs().last().skip(0) =~= vparam1.segs().last()); }
=== in impl Encode for bool
=== fn write_to
=== in impl Decode for bool
=== fn parse
=== mod int::__impls
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::{Layout, Encode, Decode};
use crate::conv::target::Target;
=== each T,N: u8,1 | u16,2 | u32,4 | u64,8 | i8,1 | i16,2 | i32,4 | i64,8
=== mod int::__impls
impl Layout for ${T} {
    type V = ${T};
    open spec fn lv(&self) -> ${T} { *self }
    open spec fn lok(v: ${T}) -> bool { true }
    open spec fn lenc(v: ${T}) -> Seq<u8> { tc(v as int, ${N}) }
    open spec fn ldec(b: Seq<u8>) -> Option<(${T}, nat)> { if b.len() >= ${N} { Some((be_${T}(b.take(${N})), ${N})) } else { None } }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: ${T}, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: ${T}, t: Seq<u8>) {
        p256_vals(); tc_len(v as int, ${N});
        if v >= 0 { tc_be(v as int, ${N}); } else { tc_neg(v as int, ${N}); tc_be(v + p256(${N}), ${N}); tc_len(v + p256(${N}), ${N}); }
        let e = tc(v as int, ${N});
        assert((e + t).take(${N}) =~= e);
        reveal_with_fuel(be, 3);
        if ${N} == 1 { assert(be(e) == e[0]) by { assert(e.drop_last().len() == 0); } }
    }
}
=== in impl Encode for ${T}
=== fn write_to
=== body
    proof { tc_len(*self as int, ${N}); }
=== in impl Decode for ${T}
=== fn parse
=== rw const N: usize = (.*?LEN\(\)); => const N: usize = ${N}; let vn: usize = \1; proof { tc_len(0, ${N}); assert(<${T} as Layout>::lenc(0).len() == ${N}); assert(vn == N); }
=== end
=== mod conv
impl Layout for Vec<u8> {
    type V = Seq<u8>;
    open spec fn lv(&self) -> Seq<u8> { self@ }
    open spec fn lok(v: Seq<u8>) -> bool { v.len() <= usize::MAX }
    open spec fn lenc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<u8>, nat)> { Some((b, b.len())) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: Seq<u8>, k: nat) -> bool { k == 0 }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<u8>, t: Seq<u8>) { assert(v + t =~= v); }
}
impl Layout for String {
    type V = Seq<char>;
    open spec fn lv(&self) -> Seq<char> { self@ }
    open spec fn lok(v: Seq<char>) -> bool { true }
    open spec fn lenc(v: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<char>, nat)> { Some((utf8_lossy(b), b.len())) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: Seq<char>, k: nat) -> bool { k == 0 }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<char>, t: Seq<u8>) { broadcast use axiom_utf8_lossy; assert(Self::lenc(v) + t =~= Self::lenc(v)); }
}
impl<T: Layout> Layout for Option<T> {
    type V = Option<T::V>;
    open spec fn lv(&self) -> Option<T::V> { match self { Some(x) => Some(x.lv()), None => None } }
    open spec fn lok(v: Option<T::V>) -> bool { match v { Some(x) => T::lok(x), None => true } }
    open spec fn lenc(v: Option<T::V>) -> Seq<u8> { match v { Some(x) => seq![0xffu8] + T::lenc(x), None => seq![0u8] } }
    open spec fn ldec(b: Seq<u8>) -> Option<(Option<T::V>, nat)> {
        if b.len() == 0 { None }
        else if b[0] == 0 { Some((None, 1)) }
        else if b[0] == 0xff { match T::ldec(b.skip(1)) { Some((x, n)) => Some((Some(x), n + 1)), None => None } }
        else { None }
    }
    open spec fn dterm() -> bool { T::dterm() }
    open spec fn ltail(v: Option<T::V>, k: nat) -> bool { match v { Some(x) => T::ltail(x, k), None => true } }
    proof fn dec_bound(b: Seq<u8>) { if b.len() > 0 { T::dec_bound(b.skip(1)); } }
    proof fn rt(v: Option<T::V>, t: Seq<u8>) {
        match v { Some(x) => { T::rt(x, t); assert((Self::lenc(v) + t).skip(1) =~= T::lenc(x) + t); } None => {} }
    }
}
=== in impl Encode for Vec<u8>
=== fn write_to
=== fn write_to_vec
=== fn encode
=== fn to_bytes
=== in impl Decode for Vec<u8>
=== fn parse
=== body
    let ghost b = p.segs().last();
    assert(b.take(b.len() as int) =~= b);
=== in impl Encode for String
=== subst write_to<W: Target>(&self, buf: &mut W) => write_to<U: Target>(&self, buf: &mut U)
=== fn write_to
=== in impl Decode for String
=== fn parse
=== body
    let ghost b = p.segs().last();
    assert(b.take(b.len() as int) =~= b);
=== rw String::from_utf8_lossy\(&buf\)\.into_owned\(\) => crate::trusted::vutf8_lossy_owned(&buf)
=== in impl Encode for Option<T>
=== fn write_to
=== in impl Decode for Option<T>
=== fn parse
=== body
    let ghost s0 = p.segs(); let ghost b = p.segs().last();
    proof {
        p256_vals(); tc_len(0, 1); reveal_with_fuel(be, 3);
        if b.len() > 0 { assert(b.take(1).drop_last().len() == 0); assert(be(b.take(1)) == b[0]); }
        if b.len() > 0 {
            crate::parse::adv_adv(s0, 1); T::dec_bound(b.skip(1));
            assert(<u8 as Layout>::ldec(b) == Some((b[0], 1nat)));
        }
    }
=== mod float
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
=== only impl Decode for f64
=== only impl Encode for f64
impl Layout for f64 {
    type V = f64;
    open spec fn lv(&self) -> f64 { *self }
    open spec fn lok(v: f64) -> bool { true }
    open spec fn lenc(v: f64) -> Seq<u8> { tc(bits_of_f64(v) as int, 8) }
    open spec fn ldec(b: Seq<u8>) -> Option<(f64, nat)> { if b.len() >= 8 { Some((be_f64(b.take(8)), 8)) } else { None } }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: f64, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: f64, t: Seq<u8>) {
        broadcast use axiom_f64_bits;
        p256_vals(); tc_len(bits_of_f64(v) as int, 8); tc_be(bits_of_f64(v) as int, 8);
        assert((Self::lenc(v) + t).take(8) =~= Self::lenc(v));
    }
}
=== in impl Encode for f64
=== fn write_to
=== body
    proof { tc_len(bits_of_f64(*self) as int, 8); }
=== in impl Decode for f64
=== fn parse
