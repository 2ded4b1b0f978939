=== mod zarith
use crate::trusted::*;
/// 7 bits at a time, least significant first, high bit set on all but the last byte
pub open spec fn nenc(v: nat) -> Seq<u8> decreases v { if v < 128 { seq![v as u8] } else { seq![(128 + v % 128) as u8] + nenc(v / 128) } }
pub open spec fn ndec(b: Seq<u8>) -> Option<(nat, nat)> decreases b.len() {
    if b.len() == 0 { None } else if b[0] < 128 { Some((b[0] as nat, 1)) }
    else { match ndec(b.skip(1)) { Some((v, k)) => Some(((b[0] - 128) as nat + 128 * v, k + 1)), None => None } }
}
pub open spec fn iabs(v: int) -> nat { if v < 0 { (-v) as nat } else { v as nat } }
/// sign and 6 bits first, then 7 bits at a time
pub open spec fn zenc(v: int) -> Seq<u8> {
    let a = iabs(v); let s: nat = if v < 0 { 64 } else { 0 };
    if a < 64 { seq![(s + a) as u8] } else { seq![(128 + s + a % 64) as u8] + nenc(a / 64) }
}
pub open spec fn zsig(neg: bool, a: nat) -> int { if neg { -(a as int) } else { a as int } }
pub open spec fn zdec(b: Seq<u8>) -> Option<(int, nat)> {
    if b.len() == 0 { None } else {
        let h = b[0] as nat; let neg = (h / 64) % 2 == 1;
        if h < 128 { Some((zsig(neg, h % 64), 1)) }
        else { match ndec(b.skip(1)) { Some((v, k)) => Some((zsig(neg, h % 64 + 64 * v), k + 1)), None => None } }
    }
}
pub open spec fn lo7(s: Seq<u8>) -> Seq<u8> { s.map_values(|x: u8| x & 0x7f) }
/// what deserialize makes of the bytes of one number
pub open spec fn nval(s: Seq<u8>) -> nat { leval(lo7(s), 128) }
pub open spec fn zval(s: Seq<u8>) -> int { zsig((s[0] as nat / 64) % 2 == 1, s[0] as nat % 64 + 64 * nval(s.skip(1))) }
pub proof fn bits7()
    ensures forall|x: u8| #[trigger] (x & 0x7f) == x % 128, forall|x: u8| #[trigger] (x & 0x80) == 0 <==> x < 128,
        forall|x: u8| x < 128 ==> #[trigger] (x ^ 0x80) == x + 128, forall|x: u8| x >= 128 ==> #[trigger] (x ^ 0x80) == x - 128,
        forall|x: u8| #[trigger] (x & 0x40) == 0 <==> (x / 64) % 2 == 0, forall|x: u8| #[trigger] (x & 0x3f) == x % 64,
        forall|x: u8| x < 64 ==> #[trigger] (x | 0x40) == x + 64, forall|x: u8| #[trigger] (x >> 1u8) == x / 2,
{
    assert forall|x: u8| #[trigger] (x & 0x7f) == x % 128 by { assert(x & 0x7f == x % 128) by (bit_vector); }
    assert forall|x: u8| #[trigger] (x & 0x80) == 0 <==> x < 128 by { assert(x & 0x80 == 0 <==> x < 128) by (bit_vector); }
    assert forall|x: u8| x < 128 implies #[trigger] (x ^ 0x80) == x + 128 by { assert(x < 128 ==> x ^ 0x80 == add(x, 128)) by (bit_vector); }
    assert forall|x: u8| x >= 128 implies #[trigger] (x ^ 0x80) == x - 128 by { assert(x >= 128 ==> x ^ 0x80 == sub(x, 128)) by (bit_vector); }
    assert forall|x: u8| #[trigger] (x & 0x40) == 0 <==> (x / 64) % 2 == 0 by { assert(x & 0x40 == 0 <==> (x / 64) % 2 == 0) by (bit_vector); }
    assert forall|x: u8| #[trigger] (x & 0x3f) == x % 64 by { assert(x & 0x3f == x % 64) by (bit_vector); }
    assert forall|x: u8| x < 64 implies #[trigger] (x | 0x40) == x + 64 by { assert(x < 64 ==> x | 0x40 == add(x, 64)) by (bit_vector); }
    assert forall|x: u8| #[trigger] (x >> 1u8) == x / 2 by { assert(x >> 1u8 == x / 2) by (bit_vector); }
}
pub proof fn nenc_digs(v: nat)
    ensures nenc(v).len() == digs(v, 128).len(), nenc(v).len() >= 1, nenc(v).last() == digs(v, 128).last(), nenc(v).last() < 128,
        forall|i: int| 0 <= i < nenc(v).len() ==> (#[trigger] digs(v, 128)[i]) < 128,
        forall|i: int| 0 <= i < nenc(v).len() - 1 ==> nenc(v)[i] == (#[trigger] digs(v, 128)[i]) + 128,
    decreases v
{
    if v >= 128 {
        nenc_digs(v / 128);
        assert forall|i: int| 0 <= i < nenc(v).len() implies (#[trigger] digs(v, 128)[i]) < 128 && (i < nenc(v).len() - 1 ==> nenc(v)[i] == digs(v, 128)[i] + 128) by {
            if i > 0 { assert(digs(v, 128)[i] == digs(v / 128, 128)[i - 1]); assert(nenc(v)[i] == nenc(v / 128)[i - 1]); }
        }
        assert(nenc(v).last() == nenc(v / 128).last() && digs(v, 128).last() == digs(v / 128, 128).last());
    }
}
pub proof fn nrt(v: nat, t: Seq<u8>)
    ensures ndec(nenc(v) + t) == Some((v, nenc(v).len()))
    decreases v
{
    let b = nenc(v) + t;
    if v < 128 { assert(b[0] == v); } else {
        nrt(v / 128, t);
        assert(b.skip(1) =~= nenc(v / 128) + t);
    }
}
pub proof fn zrt(v: int, t: Seq<u8>)
    ensures zdec(zenc(v) + t) == Some((v, zenc(v).len()))
{
    let a = iabs(v); let b = zenc(v) + t;
    if a < 64 { assert(b[0] == (if v < 0 { 64 } else { 0int }) + a); } else {
        nrt(a / 64, t);
        assert(b.skip(1) =~= nenc(a / 64) + t);
        assert(b[0] == 128 + (if v < 0 { 64 } else { 0int }) + a % 64);
    }
}
pub proof fn ndec_bound(b: Seq<u8>)
    ensures ndec(b) is Some ==> 1 <= (ndec(b)->0).1 <= b.len()
    decreases b.len()
{ if b.len() > 0 { ndec_bound(b.skip(1)); } }
/// the bytes up to the first one without the high bit
pub proof fn ndec_run(b: Seq<u8>, k: int)
    requires 0 < k <= b.len(), b[k - 1] < 128, forall|i: int| 0 <= i < k - 1 ==> b[i] >= 128
    ensures ndec(b) == Some((nval(b.take(k)), k as nat))
    decreases k
{
    bits7();
    let m = lo7(b.take(k));
    assert(m[0] == b[0] & 0x7f);
    assert(m.skip(1) =~= lo7(b.skip(1).take(k - 1)));
    if k == 1 { assert(m.skip(1).len() == 0); } else { ndec_run(b.skip(1), k - 1); }
}
pub proof fn ndec_none(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> b[i] >= 128
    ensures ndec(b) is None
    decreases b.len()
{ if b.len() > 0 { ndec_none(b.skip(1)); } }
pub proof fn zdec_run(b: Seq<u8>, k: int)
    requires 0 < k <= b.len(), b[k - 1] < 128, forall|i: int| 0 <= i < k - 1 ==> b[i] >= 128
    ensures zdec(b) == Some((zval(b.take(k)), k as nat))
{
    assert(b.take(k).skip(1) =~= b.skip(1).take(k - 1));
    if k == 1 { assert(lo7(b.take(k).skip(1)).len() == 0); } else { ndec_run(b.skip(1), k - 1); }
}
/// twice the magnitude in 7-bit digits: the first digit is even
pub proof fn zdigs(v: int)
    ensures ({ let d = digs(2 * iabs(v), 128); let z = zenc(v);
        &&& d.len() == z.len() && d.len() >= 1
        &&& d[0] == 2 * (iabs(v) % 64) && (d.len() == 1 <==> iabs(v) < 64)
        &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) < 128
        &&& forall|i: int| 0 < i < d.len() - 1 ==> z[i] == (#[trigger] d[i]) + 128
        &&& d.len() > 1 ==> z.last() == d.last() })
{
    let a = iabs(v); let d = digs(2 * a, 128);
    if a >= 64 {
        assert((2 * a) / 128 == a / 64 && (2 * a) % 128 == 2 * (a % 64));
        nenc_digs(a / 64);
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) < 128 && (0 < i < d.len() - 1 ==> zenc(v)[i] == d[i] + 128) by {
            if i > 0 { assert(d[i] == digs(a / 64, 128)[i - 1]); assert(zenc(v)[i] == nenc(a / 64)[i - 1]); }
        }
        assert(d.last() == digs(a / 64, 128).last() && zenc(v).last() == nenc(a / 64).last());
    }
}
/// bits and bytes
pub proof fn nbits(v: nat)
    ensures nenc(v).len() == (if v < 128 { 1 } else { (bitlen(v) + 6) / 7 }), v < 128 ==> bitlen(v) <= 7, v < 64 <==> bitlen(v) <= 6, v >= 128 ==> bitlen(v) == 7 + bitlen(v / 128), v >= 64 ==> bitlen(v) == 6 + bitlen(v / 64), v > 0 ==> bitlen(v) > 0
    decreases v
{
    reveal_with_fuel(bitlen, 9);
    if v >= 128 { nbits(v / 128); } 
}
=== in trait Zarith
=== sized
=== in trait Zarith
    spec fn val(s: Seq<u8>, r: Self) -> bool;
    spec fn ok(s: Seq<u8>) -> bool;
    spec fn ser(&self) -> Seq<u8>;
=== fn deserialize -> r
    requires Self::ok(iter_elems(bytes))
    ensures Self::val(iter_elems(bytes), r)
=== fn serialize -> r
    ensures r@ == self.ser()
=== mod zarith::n
use crate::trusted::*;
use crate::zarith::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
use crate::trusted::Integer;
=== drop /^use .*(num_bigint|num_integer)

=== derive N
impl Layout for N {
    type V = nat;
    open spec fn lv(&self) -> nat { self.0.nv() }
    open spec fn lok(v: nat) -> bool { true }
    open spec fn lenc(v: nat) -> Seq<u8> { nenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(nat, nat)> { ndec(b) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: nat, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { ndec_bound(b); }
    proof fn rt(v: nat, t: Seq<u8>) { nrt(v, t); }
}
=== in impl N
=== fn into_inner -> r
    ensures r == self.0
=== fn new -> r
    ensures r.0 == nat_
=== in impl Estimable for N
=== fn KNOWN
=== fn unknown
=== rw usize::max\( => vmax_usize(
=== body
    proof { nbits(self.0.nv()); }
=== in impl Zarith for N
    open spec fn val(s: Seq<u8>, r: N) -> bool { r.0.nv() == nval(s) }
    open spec fn ok(s: Seq<u8>) -> bool { true }
    open spec fn ser(&self) -> Seq<u8> { nenc(self.0.nv()) }
=== fn deserialize
=== rw bytes\.into_iter\(\)\.map\(\|b\| ([^()]*)\)\.collect\(\) => viter(bytes).vmap_collect(|b: u8| -> (q: u8) ensures q == (\1) { \1 })
=== body
    proof { bits7(); }
=== at match BigUint
    proof { assert(lo7@ =~= crate::zarith::lo7(iter_elems(bytes))); assert forall|i: int| 0 <= i < lo7@.len() implies (#[trigger] lo7@[i]) < 128 by { assert(lo7@[i] == iter_elems(bytes)[i] & 0x7f); } }
=== fn serialize
=== body
    proof { bits7(); nenc_digs(self.0.nv()); }
    let ghost d = digs(self.0.nv(), 128);
    let ghost o = d.update(d.len() - 1, d.last() ^ 0x80);
=== loop 0
    invariant vit0.seq().len() == o.len(), forall|i: int| 0 <= i < o.len() ==> *(#[trigger] vit0.seq()[i]) == o[i],
        forall|i: int| 0 <= i < vit0.index@ ==> *final(#[trigger] vit0.seq()[i]) == o[i] ^ 0x80,
=== in impl Encode for N
=== fn write_to
=== in impl Decode for N
=== fn parse
=== rw take_self_terminating\(\|(\w+)\|\s*(.*?)\)\? => take_self_terminating(|\1: u8| -> (q: bool) ensures q == (\2) { \2 })?
=== body
    broadcast use axiom_iter_elems_vec;
    proof {
        bits7();
        let b = p.segs().last();
        assert forall|v: Seq<u8>| #![trigger nval(v)] 0 < v.len() <= b.len() && v == b.take(v.len() as int) && v.last() < 128 && (forall|i: int| 0 <= i < v.len() - 1 ==> v[i] >= 128) implies ndec(b) == Some((nval(v), v.len())) by {
            assert forall|i: int| 0 <= i < v.len() - 1 implies b[i] >= 128 by { assert(v[i] == b[i]); }
            ndec_run(b, v.len() as int);
        }
        if forall|i: int| 0 <= i < b.len() ==> b[i] >= 128 { ndec_none(b); }
    }
=== in impl N
=== fn as_inner -> r
    ensures *r == self.0
=== in impl From<N> for BigUint
=== fn from -> r freeonly
    ensures r == val.0
=== in impl Deref for N
=== fn deref -> r freeonly
    ensures *r == self.0
=== each T: u8 | u16 | u32 | u64
=== in impl TryFrom<N> for ${T}
=== subst <${T} as TryFrom<BigUint>>::Error => TryFromBigIntError
=== fn try_from -> r freeonly
    ensures (r is Ok) == (${T}::MIN <= val.0.nv() <= ${T}::MAX), r is Ok ==> r->Ok_0 == val.0.nv()
=== rw <${T} as TryFrom<BigUint>>::try_from\( => crate::trusted::vbig_try::<BigUint, ${T}>(
=== end
=== in impl From<BigUint> for N
=== fn from -> r freeonly
    ensures r.0 == value
=== mod zarith::z
use crate::trusted::*;
use crate::zarith::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
use crate::trusted::Integer;
=== drop /^use .*(num_bigint|num_integer)
=== derive Z
impl Layout for Z {
    type V = int;
    open spec fn lv(&self) -> int { self.0.zv() }
    open spec fn lok(v: int) -> bool { true }
    open spec fn lenc(v: int) -> Seq<u8> { zenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(int, nat)> { zdec(b) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: int, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { if b.len() > 0 { ndec_bound(b.skip(1)); } }
    proof fn rt(v: int, t: Seq<u8>) { zrt(v, t); }
}
=== in impl Z
=== fn into_inner -> r
    ensures r == self.0
=== fn new -> r
    ensures r.0 == int_
=== in impl Estimable for Z
=== fn KNOWN
=== fn unknown
=== body
    proof { nbits(iabs(self.0.zv())); nbits(iabs(self.0.zv()) / 64); }
=== in impl Zarith for Z
    open spec fn val(s: Seq<u8>, r: Z) -> bool { r.0.zv() == zval(s) }
    open spec fn ok(s: Seq<u8>) -> bool { s.len() > 0 }
    open spec fn ser(&self) -> Seq<u8> { zenc(self.0.zv()) }
=== fn deserialize
=== rw bytes\.into_iter\(\) => viter(bytes)
=== rw b_iter\.map\(\|b\| ([^()]*)\)\.collect\(\) => b_iter.vmap_collect(|b: u8| -> (q: u8) ensures q == (\1) { \1 })
=== rw (\w+) <<= (\w+) => \1.vshl_assign((\2) as u32)
=== rw (\w+) \|= ([^;]*); => \1.vor_assign(\2);
=== body
    proof { bits7(); reveal_with_fuel(p2, 8); }
    let ghost e = iter_elems(bytes);
=== at match BigUint
    proof { assert(lo7@ =~= crate::zarith::lo7(e.skip(1))); assert forall|i: int| 0 <= i < lo7@.len() implies (#[trigger] lo7@[i]) < 128 by { assert(lo7@[i] == e.skip(1)[i] & 0x7f); } }
=== at i |= BigUint
    proof { let n = nval(e.skip(1)); assert(p2(6) == 64); assert((n * 64) % 64 == 0) by (nonlinear_arith); }
=== fn serialize
=== rw (\w+) <<= (\w+) => \1.vshl_assign((\2) as u32)
=== body
    proof { bits7(); reveal_with_fuel(p2, 8); zdigs(self.0.zv()); }
    let ghost v = self.0.zv();
    let ghost d = digs(2 * iabs(v), 128);
    let ghost d1 = d.update(0, if v < 0 { ((d[0] / 2) | 0x40) as u8 } else { (d[0] / 2) as u8 });
    let ghost o = d1.update(d1.len() - 1, d1.last() ^ 0x80);
=== at abs <<=
    proof { let a = abs.nv(); assert(p2(1) == 2); assert(a * p2(1) == 2 * a) by (nonlinear_arith) requires p2(1) == 2; }
=== at let final_ix
    proof { assert(abs.nv() == 2 * iabs(v)); }
=== at let last_byte
    proof { assert(p2(1) == 2); assert(abs.nv() == 2 * iabs(v)); assert(ret@.len() == d.len()); assert(ret@.skip(1) =~= d.skip(1)); assert(ret@[0] == d1[0]); assert(ret@ =~= d1); }
=== loop 0
    invariant vit0.seq().len() == o.len(), forall|i: int| 0 <= i < o.len() ==> *(#[trigger] vit0.seq()[i]) == o[i],
        forall|i: int| 0 <= i < vit0.index@ ==> *final(#[trigger] vit0.seq()[i]) == o[i] ^ 0x80,
=== in impl Encode for Z
=== fn write_to
=== in impl Decode for Z
=== fn parse
=== rw take_self_terminating\(\|(\w+)\|\s*(.*?)\)\? => take_self_terminating(|\1: u8| -> (q: bool) ensures q == (\2) { \2 })?
=== body
    broadcast use axiom_iter_elems_vec;
    proof {
        bits7();
        let b = p.segs().last();
        assert forall|v: Seq<u8>| #![trigger zval(v)] 0 < v.len() <= b.len() && v == b.take(v.len() as int) && v.last() < 128 && (forall|i: int| 0 <= i < v.len() - 1 ==> v[i] >= 128) implies zdec(b) == Some((zval(v), v.len())) by {
            assert forall|i: int| 0 <= i < v.len() - 1 implies b[i] >= 128 by { assert(v[i] == b[i]); }
            zdec_run(b, v.len() as int);
        }
        if forall|i: int| 0 <= i < b.len() ==> b[i] >= 128 { if b.len() > 0 { ndec_none(b.skip(1)); } }
    }
=== in impl Z
=== fn as_inner -> r
    ensures *r == self.0
=== in impl From<Z> for BigInt
=== fn from -> r freeonly
    ensures r == val.0
=== in impl Deref for Z
=== fn deref -> r freeonly
    ensures *r == self.0
=== each T: i8 | i16 | i32 | i64 | u8 | u16 | u32 | u64
=== in impl TryFrom<Z> for ${T}
=== subst <${T} as TryFrom<BigInt>>::Error => TryFromBigIntError
=== fn try_from -> r freeonly
    ensures (r is Ok) == (${T}::MIN <= val.0.zv() <= ${T}::MAX), r is Ok ==> r->Ok_0 == val.0.zv()
=== rw <${T} as TryFrom<BigInt>>::try_from\( => crate::trusted::vbig_try::<BigInt, ${T}>(
=== end
