=== mod error
=== only impl BoundsError<f64>
=== in impl BoundsError<f64>
=== fn restrict_float -> r
    ensures r is Ok <==> fle(min, val.fv()) && fle(val.fv(), max), r is Ok ==> r->Ok_0 == val.fv()
=== bounds <T: VFloat>
=== body
    broadcast use axiom_float_le, axiom_float_ge, axiom_float_lt, axiom_float_gt;
    proof { fle_laws(min, val.fv(), max); }
=== rw \bval\.into\(\) => val.vinto_f64()
=== mod float
=== only fn to_const_generic
=== only fn from_const_generic
=== only struct RangedFloat
=== only /^impl .*RangedFloat<.*
=== drop /^impl (PartialEq|PartialOrd|StructuralPartialEq)
=== drop /^const impl:RangedFloat<.*::(MIN|MAX)$
=== fn to_const_generic -> r
    ensures r == bits_of_f64(bound)
=== rw std::mem::transmute::<f64,\s*u64>\( => crate::trusted::vtransmute_f64_u64(
=== fn from_const_generic -> r
    ensures r == f64_of_bits(bound)
=== rw std::mem::transmute::<u64,\s*f64>\( => crate::trusted::vtransmute_u64_f64(
=== constfn MIN_F64 MAX_F64
=== in impl Default for RangedFloat<MIN_U64,MAX_U64>
=== fn default -> r freeonly
    requires fle(f64_of_bits(MIN_U64), f64_of_bits(MAX_U64))
    ensures r.valid()
=== body
    proof { axiom_float_zero(); }
=== in impl RangedFloat<MIN_U64,MAX_U64>
    pub open spec fn within(x: f64) -> bool { fle(f64_of_bits(MIN_U64), x) && fle(x, f64_of_bits(MAX_U64)) }
    pub open spec fn valid(&self) -> bool { Self::within(self.val) }
    pub proof fn never_nan(x: f64)
        ensures Self::within(x) ==> !fnan(x)
    { }
=== fn MIN_F64
    ensures r == f64_of_bits(MIN_U64)
=== fn MAX_F64
    ensures r == f64_of_bits(MAX_U64)
=== fn from_f64_unchecked -> r
    ensures r.val == val
=== fn try_from_f64 -> r
    ensures r is Ok <==> Self::within(val), r is Ok ==> (r->Ok_0).val == val
=== fn from_f64 -> r
    ensures Self::within(val), r.val == val
=== body
    broadcast use axiom_float_le, axiom_float_ge, axiom_float_lt, axiom_float_gt;
    proof { fle_laws(f64_of_bits(MIN_U64), val, f64_of_bits(MAX_U64)); }
=== rw \bvpanic\(\) => vrefuse(Ghost(Self::within(val)))
=== fn as_f64 -> r
    ensures *r == self.val
=== fn prevalidate_f64 -> r
    ensures r is Ok <==> Self::within(val), r is Ok ==> r->Ok_0 == val
=== fn prevalidate_f32 -> r
    ensures r is Ok <==> Self::within(val.fv()), r is Ok ==> r->Ok_0 == val.fv()
=== fn get_validated -> r
    ensures r is Ok <==> self.valid(), r is Ok ==> r->Ok_0 == self.val
=== mod float
impl<const MIN_U64: u64, const MAX_U64: u64> vstd::std_specs::convert::FromSpecImpl<RangedFloat<MIN_U64, MAX_U64>> for f64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RangedFloat<MIN_U64, MAX_U64>) -> f64 { v.val } }
impl<const MIN_U64: u64, const MAX_U64: u64> vstd::std_specs::convert::TryFromSpecImpl<f32> for RangedFloat<MIN_U64, MAX_U64> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: f32) -> Result<Self, BoundsError<f64>> { arbitrary() } }
impl<const MIN_U64: u64, const MAX_U64: u64> vstd::std_specs::convert::TryFromSpecImpl<f64> for RangedFloat<MIN_U64, MAX_U64> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: f64) -> Result<Self, BoundsError<f64>> { arbitrary() } }
=== in impl From<RangedFloat<MIN_U64,MAX_U64>> for f64
=== fn from -> r twin
    ensures r == val.val
=== in impl TryFrom<f32> for RangedFloat<MIN_U64,MAX_U64>
=== fn try_from -> r twin
    ensures r is Ok <==> Self::within(x.fv()), r is Ok ==> (r->Ok_0).val == x.fv()
=== in impl TryFrom<f64> for RangedFloat<MIN_U64,MAX_U64>
=== fn try_from -> r twin
    ensures r is Ok <==> Self::within(x), r is Ok ==> (r->Ok_0).val == x
=== mod float
impl<const MIN_U64: u64, const MAX_U64: u64> Layout for RangedFloat<MIN_U64, MAX_U64> {
    type V = f64;
    open spec fn lv(&self) -> f64 { self.val }
    open spec fn lok(v: f64) -> bool { Self::within(v) }
    open spec fn lenc(v: f64) -> Seq<u8> { <f64 as Layout>::lenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(f64, nat)> {
        match <f64 as Layout>::ldec(b) { Some((v, n)) => if Self::within(v) { Some((v, n)) } else { None }, None => None }
    }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: f64, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: f64, t: Seq<u8>) { <f64 as Layout>::rt(v, t); }
}
=== in impl Encode for RangedFloat<MIN_U64,MAX_U64>
=== fn write_to
=== in impl FixedLength for RangedFloat<MIN_U64,MAX_U64>
=== fn LEN
=== body
    proof { assert forall|v: f64| Self::lok(v) implies (#[trigger] Self::lenc(v)).len() == 8 by { tc_len(bits_of_f64(v) as int, 8); }
        tc_len(0, 8); assert(<u64 as Layout>::lenc(0).len() == 8);
        tc_len(bits_of_f64(0.0f64) as int, 8); assert(<f64 as Layout>::lenc(0.0f64).len() == 8); }
=== in impl Decode for RangedFloat<MIN_U64,MAX_U64>
=== fn parse
