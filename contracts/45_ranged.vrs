=== mod error
use crate::trusted::*;
=== only /^impl .*BoundsError<i64>$
=== only /^impl .*BoundsError<i128>$
=== only impl From<TryFromIntError> for BoundsError<Ext>
=== mono impl BoundsError<Ext>; Ext: i64 | i128
/// the values a stored field may hold: the value itself, or for positive bounds its offset from the lower one
pub open spec fn fits(v: int, min: int, max: int) -> bool { if min > 0 { 0 <= v && min <= max && v <= max - min } else { min <= v <= max } }
=== each E: i64 | i128
=== in impl BoundsError<${E}>
=== fn restrict -> r
    requires vin::<${E}>(min.vi()), vin::<${E}>(max.vi())
    ensures r is Ok <==> vin::<${E}>(val.vi()) && fits(val.vi(), min.vi(), max.vi()), r is Ok ==> r->Ok_0 == val
=== bounds <T: VInt, U: VInt>
=== rw \bmin\.into\(\) => crate::trusted::vinto::<U, ${E}>(min)
=== rw \bmax\.into\(\) => crate::trusted::vinto::<U, ${E}>(max)
=== rw \bval\.try_into\(\) => crate::trusted::vtry_into::<T, ${E}>(val)
=== rw \(0\)\.into\(\) => 0
=== end
=== mod error
impl<Ext: std::fmt::Debug> vstd::std_specs::convert::FromSpecImpl<std::num::TryFromIntError> for BoundsError<Ext> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: std::num::TryFromIntError) -> BoundsError<Ext> { BoundsError::Failed(v) } }
=== in impl From<TryFromIntError> for BoundsError<Ext>
=== fn from -> r twin
    ensures r == BoundsError::<Ext>::Failed(err)
=== mod int
use crate::trusted::*;
use crate::conv::Layout;
use crate::error::fits;
=== drop /^use .*(TryFrom|TryInto|Integer|Debug)$
=== drop trait Integral
=== drop /^impl Integral for
=== header RangedInt <I: VBack, const MIN: i32, const MAX: i32>
/// the number a stored field stands for
pub open spec fn numof(v: int, min: int) -> int { if min > 0 { min + v } else { v } }
/// in range, and its stored field fits the backing type
pub open spec fn reach<I: VBack>(x: int, min: int, max: int) -> bool { min <= x <= max && vin::<I>(x - offs(min)) }
pub open spec fn offs(min: int) -> int { if min > 0 { min } else { 0 } }
/// the types the sealed trait Integral admits
pub trait VBack: VInt {
    proof fn narrow(&self) ensures vin::<i64>(self.vi());
}
=== each T: u8 | i8 | u16 | i16 | u32 | i32
impl VBack for ${T} { proof fn narrow(&self) { } }
=== end
=== in impl RangedInt<I,MIN,MAX>
=== bounds <I: VBack, const MIN: i32, const MAX: i32>
    /// the number this value stands for
    pub open spec fn num(&self) -> int { numof(self.0.vi(), MIN as int) }
    pub open spec fn valid(&self) -> bool { fits(self.0.vi(), MIN as int, MAX as int) }
    /// a valid value's number lies in the declared range, and every number of the range is the number of exactly one stored field
    pub proof fn num_in_range(&self)
        ensures self.valid() <==> MIN <= self.num() <= MAX
    { }
    pub proof fn num_injective(&self, o: &Self)
        requires self.num() == o.num()
        ensures *self == *o
    { self.0.vinj(&o.0); }
=== fn from_underlying_unchecked -> r
    ensures r.0 == x
=== fn from_underlying -> r
    ensures r.0 == x, r.valid()
=== rw \.expect\((.*?)\) => .vexpect(Ghost(fits(x.vi(), MIN as int, MAX as int)))
=== fn try_from_underlying -> r
    ensures r is Ok <==> fits(x.vi(), MIN as int, MAX as int), r is Ok ==> (r->Ok_0).0 == x && (r->Ok_0).valid()
=== body
    proof { x.narrow(); }
=== fn from_numeric_unchecked -> r
    requires MIN <= 0 ==> vin::<I>(x.vi()), MIN > 0 ==> vin::<i32>(x.vi()) && vin::<i32>(x.vi() - MIN) && vin::<I>(x.vi() - MIN)
    ensures r.num() == x.vi()
=== bounds <T: VInt>
=== rw \bx\.try_into\(\) => crate::trusted::vtry_into::<T, I>(x)
=== rw <T\s+as\s+TryInto<i32>>::try_into\(x\) => crate::trusted::vtry_into::<T, i32>(x)
=== rw (?s)\(crate::trusted::vtry_into::<T, i32>\(x\)\.unwrap\(\)\s*-\s*MIN\)\.try_into\(\) => crate::trusted::vtry_into::<i32, I>(crate::trusted::vtry_into::<T, i32>(x).unwrap() - MIN)
=== fn from_i32 -> r
    ensures r.num() == x, r.valid()
=== bounds 
=== rw \.expect\((.*?)\) => .vexpect(Ghost(reach::<I>(x as int, MIN as int, MAX as int)))
=== fn try_from_i32 -> r
    ensures r is Ok <==> reach::<I>(x as int, MIN as int, MAX as int), r is Ok ==> (r->Ok_0).num() == x && (r->Ok_0).valid()
=== bounds 
=== rw \bI::try_from\( => crate::trusted::vtry_into::<i64, I>(
=== rw \be\.into\(\) => e
=== fn to_underlying_unchecked -> r
    ensures r == self.0
=== fn to_underlying -> r
    requires self.valid()
    ensures r == self.0
=== body
    proof { self.0.narrow(); }
=== fn to_i32 -> r
    requires self.valid()
    ensures r == self.num()
=== body
    proof { self.0.narrow(); }
=== rw \bx\.into\(\) => crate::trusted::vinto::<I, i64>(x)
=== mod int::ranged_int_impls
use crate::trusted::*;
use crate::conv::Layout;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::error::fits;
=== drop /^impl .*(Binary|Octal|LowerHex|UpperHex)
/// the range is not empty and its stored fields fit the backing type
pub open spec fn sound<I: VBack>(min: int, max: int) -> bool { min <= max && vin::<I>(min - offs(min)) && vin::<I>(max - offs(min)) }
=== each T: u8 | i8 | u16 | i16 | u32 | i32
=== in impl Default for RangedInt<${T},MIN,MAX>
=== fn default -> r freeonly
    requires sound::<${T}>(MIN as int, MAX as int)
    ensures r.valid()
=== in impl RangedInt<${T},MIN_I32,MAX_I32>
=== fn min_val -> r
    requires sound::<${T}>(MIN_I32 as int, MAX_I32 as int)
    ensures r.valid(), r.num() == MIN_I32
=== fn max_val -> r
    requires sound::<${T}>(MIN_I32 as int, MAX_I32 as int)
    ensures r.valid(), r.num() == MAX_I32
=== each S: u8 | i8 | u16 | i16 | u32 | i32 | u64 | i64 | usize | isize
=== in impl TryFrom<${S}> for RangedInt<${T},MIN,MAX>
=== fn try_from -> r freeonly
    requires sound::<${T}>(MIN as int, MAX as int)
    ensures r is Ok <==> MIN <= val <= MAX, r is Ok ==> (r->Ok_0).valid() && (r->Ok_0).num() == val
=== end
=== end
=== each A,B: u8,u8 | u8,u16 | u8,i16 | u8,u32 | u8,i32 | u8,u64 | u8,i64 | u8,isize | i8,i8 | i8,i16 | i8,i32 | i8,i64 | i8,isize | i16,i16 | i16,i32 | i16,i64 | i16,isize | u16,u32 | u16,i32 | u16,u64 | u16,i64 | u16,isize | i32,i32 | i32,i64 | i32,isize | u32,u32 | u32,i32 | u32,u64 | u32,i64 | u32,isize | u8,usize | u16,usize
=== in impl From<RangedInt<${A},MIN,MAX>> for ${B}
=== fn from -> r freeonly
    requires val.valid(), vin::<${B}>(val.num())
    ensures r == val.num()
=== end
=== each A,B: u8,i8 | u16,i8 | u16,u8 | u16,i16 | u32,i8 | u32,u8 | u32,i16 | u32,u16 | i8,u8 | i8,u16 | i8,u32 | i8,u64 | i8,usize | i16,i8 | i16,u8 | i16,u16 | i16,u32 | i16,u64 | i16,usize | i32,i8 | i32,u8 | i32,i16 | i32,u16 | i32,u32 | i32,u64 | i32,usize
=== in impl TryFrom<RangedInt<${A},MIN,MAX>> for ${B}
=== fn try_from -> r freeonly
    requires val.valid()
    ensures r is Ok <==> vin::<${B}>(val.num()), r is Ok ==> r->Ok_0 == val.num()
=== rw \(val\.0 as i64 \+ MIN as i64\)\.try_into\(\) => vtry_into::<i64, ${B}>(val.0 as i64 + MIN as i64)
=== rw \bval\.0\.try_into\(\) => vtry_into::<${A}, ${B}>(val.0)
=== end
=== mod int
=== mod int::ranged_int_impls
/// an integer type whose wire form the number determines
pub trait VField: VBack + Layout {
    spec fn nv(v: Self::V) -> int;
    proof fn nv_of(&self) ensures Self::nv(self.lv()) == self.vi(), Self::lok(self.lv());
}
=== each T,N: u8,1 | i8,1 | u16,2 | i16,2 | u32,4 | i32,4
impl VField for ${T} {
    open spec fn nv(v: ${T}) -> int { v as int }
    proof fn nv_of(&self) { }
}
=== end
/// the stored field in the backing type's own form
impl<I: VField, const MIN: i32, const MAX: i32> Layout for RangedInt<I, MIN, MAX> {
    type V = I::V;
    open spec fn lv(&self) -> I::V { self.0.lv() }
    open spec fn lok(v: I::V) -> bool { I::lok(v) && fits(I::nv(v), MIN as int, MAX as int) }
    open spec fn lenc(v: I::V) -> Seq<u8> { I::lenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(I::V, nat)> {
        match I::ldec(b) { Some((v, n)) => if fits(I::nv(v), MIN as int, MAX as int) { Some((v, n)) } else { None }, None => None }
    }
    open spec fn dterm() -> bool { I::dterm() }
    open spec fn ltail(v: I::V, k: nat) -> bool { I::ltail(v, k) }
    proof fn dec_bound(b: Seq<u8>) { I::dec_bound(b); }
    proof fn rt(v: I::V, t: Seq<u8>) { I::rt(v, t); }
}
=== in impl Encode for RangedInt<I,MIN,MAX>
=== bounds <I: VField + Encode, const MIN: i32, const MAX: i32>
=== fn write_to
=== body
    proof { self.0.nv_of(); }
=== in impl FixedLength for RangedInt<I,MIN,MAX>
=== bounds <I: VField + FixedLength, const MIN: i32, const MAX: i32>
=== in impl Decode for RangedInt<I,MIN,MAX>
=== bounds <I: VField + Decode, const MIN: i32, const MAX: i32>
=== fn parse
=== at after let raw = I::parse(p)?;
    proof { raw.nv_of(); }
=== mod int::ranged_int_impls
/// the error is some function of the input: the contract says when there is one, not which
pub uninterp spec fn ranged_err(v: int, min: int, max: int) -> BoundsError<i128>;
impl<const MIN: i32, const MAX: i32> vstd::std_specs::convert::FromSpecImpl<RangedInt<u32, MIN, MAX>> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: RangedInt<u32, MIN, MAX>) -> usize { v.num() as usize }
}
impl<const MIN: i32, const MAX: i32> vstd::std_specs::convert::TryFromSpecImpl<usize> for RangedInt<u32, MIN, MAX> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: usize) -> Result<RangedInt<u32, MIN, MAX>, BoundsError<i128>> { if MIN <= v <= MAX { Ok(RangedInt((v - offs(MIN as int)) as u32)) } else { Err(ranged_err(v as int, MIN as int, MAX as int)) } }
}
=== in impl From<RangedInt<u32,MIN,MAX>> for usize
=== fn from -> r twin
    ensures r == val.num()
=== in impl TryFrom<usize> for RangedInt<u32,MIN,MAX>
=== fn try_from -> r twin
    ensures r is Ok <==> MIN <= val <= MAX, r is Ok ==> (r->Ok_0).valid() && (r->Ok_0).num() == val
=== mod dynamic
=== only impl LenPref for u30
=== drop fn impl:LenPref for u30::suffix
=== in impl LenPref for u30
    open spec fn plim() -> nat { 0x3fff_ffff }
    open spec fn plen(v: u32) -> nat { v as nat }
    proof fn plaws() {
        assert(Self::lok(0));
        assert forall|v: u32| (#[trigger] Self::lenc(v)).len() == 4 by { tc_len(v as int, 4); }
    }
=== fn max_len
=== mod dynamic::private
=== in impl Sealed for u30
    open spec fn pwidth() -> nat { 4 }
    open spec fn praw(b: Seq<u8>) -> Option<nat> { if be_u32(b) <= 0x3fff_ffff { Some(be_u32(b) as nat) } else { None } }
=== fn marshall_usize
=== rw <\[u8; \d+\]>::try_from\( => crate::trusted::vslice_to_array::<4>(
=== rw len\.into\(\) => <usize as From<crate::int::u30>>::from(len)
