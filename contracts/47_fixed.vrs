=== mod fixed
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
=== drop /^impl Default for
=== drop /^impl .*LowerHex
=== drop /^use .*(TryFrom|TryInto|Borrow)$
=== each T,F: FixedBytes,0 | FixedString,contents
=== mod fixed
impl<const N: usize> Layout for ${T}<N> {
    type V = Seq<u8>;
    open spec fn lv(&self) -> Seq<u8> { self.${F}@ }
    open spec fn lok(v: Seq<u8>) -> bool { v.len() == N }
    open spec fn lenc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn ldec(b: Seq<u8>) -> Option<(Seq<u8>, nat)> { if b.len() >= N { Some((b.take(N as int), N as nat)) } else { None } }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: Seq<u8>, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: Seq<u8>, t: Seq<u8>) { assert((v + t).take(N as int) =~= v); }
}
=== in impl FixedLength for ${T}<N>
=== fn LEN
=== in impl Encode for ${T}<N>
=== fn write_to
=== in impl Decode for ${T}<N>
=== fn parse
=== in impl ${T}<N>
=== fn len -> r
    ensures r == N
=== end
=== in impl Encode for FixedBytes<N>
=== fn write_to_vec
=== fn encode
=== fn to_bytes
=== in impl FixedBytes<N>
=== fn from_array -> r
    ensures r.0 == arr
=== fn bytes -> r
    ensures *r == self.0
=== fn bytes_mut -> r
    ensures *r == old(self).0, final(self).0 == *final(r)
=== fn from_array_ref -> r
    ensures r.0 == *arr
=== fn try_from_slice -> r
    ensures r is Ok <==> bytes@.len() == N, r is Ok ==> (r->Ok_0).0@ == bytes@
=== rw bytes\.as_ptr\(\)\s+as\s+\*const\s+\[u8;\s*N\] => crate::trusted::vptr::<N>(bytes)
=== rw \*ptr\b => ptr.vread()
=== fn to_array -> r
    ensures r == self.0
=== fn to_vec -> r
    ensures r@ == self.0@
=== mod fixed
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<FixedBytes<N>> for Vec<u8> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: FixedBytes<N>) -> Vec<u8> { arbitrary() } }
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<FixedBytes<N>> for [u8; N] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: FixedBytes<N>) -> [u8; N] { v.0 } }
impl<'a, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a [u8; N]> for FixedBytes<N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a [u8; N]) -> Self { FixedBytes(*v) } }
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<[u8; N]> for FixedBytes<N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; N]) -> Self { FixedBytes(v) } }
impl<'a, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a [u8; N]> for FixedString<N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a [u8; N]) -> Self { FixedString { contents: *v } } }
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<[u8; N]> for FixedString<N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; N]) -> Self { FixedString { contents: v } } }
impl<const N: usize> vstd::std_specs::convert::TryFromSpecImpl<String> for FixedString<N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: String) -> Result<Self, crate::error::WidthError> { arbitrary() } }
impl<'a, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'a str> for FixedString<N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'a str) -> Result<Self, crate::error::WidthError> { arbitrary() } }
impl<'a, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for FixedString<N> { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'a [u8]) -> Result<Self, crate::error::WidthError> { arbitrary() } }
=== in impl From<FixedBytes<N>> for Vec<u8>
=== fn from -> r twin
    ensures r@ == bytes.0@
=== rw bytes\.0\.into\(\) => crate::trusted::varr_to_vec(bytes.0)
=== in impl From<FixedBytes<N>> for [u8; N]
=== fn from -> r twin
    ensures r == bytes.0
=== in impl From<&[u8; N]> for FixedBytes<N>
=== fn from -> r twin
    ensures r.0 == *arr
=== in impl From<[u8; N]> for FixedBytes<N>
=== fn from -> r twin
    ensures r.0 == value
=== in impl TryFrom<&'a [u8]> for FixedBytes<N>
=== fn try_from -> r freeonly
    ensures r is Ok <==> value@.len() == N, r is Ok ==> (r->Ok_0).0@ == value@
=== rw value\.try_into\(\) => crate::trusted::vslice_to_array::<N>(value)
=== in impl FixedString<N>
=== fn from_array_unchecked -> r
    ensures r.contents == *arr
=== fn try_from_array -> r
    ensures r is Ok <==> is_utf8(arr@), r is Ok ==> (r->Ok_0).contents == *arr
=== rw (?:std|core)::str::from_utf8\( => crate::trusted::vfrom_utf8(
=== fn is_valid_utf8 -> r
    ensures r == is_utf8(self.contents@)
=== rw (?:std|core)::str::from_utf8\( => crate::trusted::vfrom_utf8(
=== fn as_str_unchecked -> r
    requires is_utf8(self.contents@)
    ensures vstd::utf8::encode_utf8(r@) == self.contents@
=== rw (?:std|core)::str::from_utf8_unchecked\( => crate::trusted::vfrom_utf8_unchecked(
=== fn as_string_lossy -> r external
=== fn try_from_bytes -> r
    ensures r is Ok <==> bytes@.len() == N, r is Ok ==> (r->Ok_0).contents@ == bytes@
=== rw bytes\.try_into\(\) => crate::trusted::vslice_to_array::<N>(bytes)
=== in impl TryFrom<String> for FixedString<N>
=== fn try_from -> r twin
    ensures r is Ok <==> vstd::utf8::encode_utf8(s@).len() == N, r is Ok ==> (r->Ok_0).contents@ == vstd::utf8::encode_utf8(s@)
=== in impl TryFrom<&str> for FixedString<N>
=== fn try_from -> r twin
    ensures r is Ok <==> vstd::utf8::encode_utf8(s@).len() == N, r is Ok ==> (r->Ok_0).contents@ == vstd::utf8::encode_utf8(s@)
=== in impl TryFrom<&[u8]> for FixedString<N>
=== fn try_from -> r twin
    ensures r is Ok <==> bytes@.len() == N, r is Ok ==> (r->Ok_0).contents@ == bytes@
=== in impl From<[u8; N]> for FixedString<N>
=== fn from -> r twin
    ensures r.contents == contents
=== in impl From<&[u8; N]> for FixedString<N>
=== fn from -> r twin
    ensures r.contents == *arr
=== in impl FromStr for FixedString<N>
=== fn from_str -> r freeonly
    ensures r is Ok <==> vstd::utf8::encode_utf8(s@).len() == N, r is Ok ==> (r->Ok_0).contents@ == vstd::utf8::encode_utf8(s@)
=== in impl AsRef<[u8; N]> for FixedBytes<N>
=== fn as_ref -> r freeonly
    ensures *r == self.0
=== in impl AsRef<[u8]> for FixedBytes<N>
=== fn as_ref -> r freeonly
    ensures r@ == self.0@
=== in impl Borrow<[u8; N]> for FixedBytes<N>
=== fn borrow -> r freeonly
    ensures *r == self.0
=== in impl Borrow<[u8]> for FixedBytes<N>
=== fn borrow -> r freeonly
    ensures r@ == self.0@
