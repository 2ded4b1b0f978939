=== mod builder
use crate::trusted::*;
use crate::hexstring::util::hexenc;
use vstd::utf8::encode_utf8;
=== in trait Builder
    /// bytes of a segment
    spec fn sv(s: &Self::Segment) -> Seq<u8>;
=== fn promote -> r
    ensures r.twf(), r.tv() == Self::sv(&seg)
=== fn word -> r
    ensures r.twf(), r.tv() == seq![b]
=== fn words -> r
    ensures r.twf(), r.tv() == arr@
=== fn finalize -> r
    ensures into_bytes(r) == self.tv()
=== fn into_vec -> r
    ensures r@ == self.tv()
=== rw \.into\(\) => .vinto_vec()
=== fn into_hex -> r
    ensures r@ == hexenc(self.tv())
=== fn empty -> r
    ensures r.twf(), r.tv().len() == 0
=== fn into_bin -> r
    ensures r is Ok <==> is_utf8(self.tv()), r is Ok ==> encode_utf8((r->Ok_0)@) == self.tv()
=== rw String::from_utf8\( => crate::trusted::vstring_from_utf8(
=== fn len -> r
    ensures r == self.tv().len()
=== fn is_empty -> r
    ensures r == (self.tv().len() == 0)
=== mod builder::strict
use crate::trusted::*;
use crate::builder::Builder;
impl vstd::std_specs::convert::FromSpecImpl<StrictBuilder> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: StrictBuilder) -> Self { v.0 } }
impl vstd::std_specs::convert::FromSpecImpl<Vec<u8>> for StrictBuilder { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Vec<u8>) -> Self { StrictBuilder(v) } }
=== in impl From<StrictBuilder> for Vec<u8>
=== fn from -> r twin
    ensures r == val.0
=== in impl From<Vec<u8>> for StrictBuilder
=== fn from -> r twin
    ensures r.0 == buf
=== in impl From<&[u8]> for StrictBuilder
=== fn from -> r freeonly
    ensures r.tv() == buf@
=== rw \b(\w+)\.into\(\) => \1.vto_vec()
=== in impl Borrow<[u8]> for StrictBuilder
=== fn borrow -> r freeonly
    ensures r@ == self.tv()
=== rw (self\.0)\.borrow\(\) => \1.as_slice()
=== in impl Write for StrictBuilder
=== fn write -> r freeonly
    ensures r is Ok, r->Ok_0 == buf@.len(), final(self).tv() == old(self).tv() + buf@
=== rw \b(\w+\.0)\.write\(buf\) => crate::trusted::viowrite(&mut \1, buf)
=== fn flush -> r freeonly
    ensures r is Ok, final(self).tv() == old(self).tv()
=== rw \b(\w+\.0)\.flush\(\) => crate::trusted::vioflush(&mut \1)
=== in impl Target for StrictBuilder
    open spec fn tv(&self) -> Seq<u8> { self.0@ }
    open spec fn twf(&self) -> bool { true }
    open spec fn keeps() -> bool { true }
=== fn anticipate
=== fn create
=== fn push_one
=== fn push_many
=== fn push_all
=== fn resolve
=== in impl Builder for StrictBuilder
    open spec fn sv(s: &Self) -> Seq<u8> { s.tv() }
=== fn promote
=== fn word
=== fn words
=== fn finalize
=== body
    broadcast use axiom_into_bytes_vec;
=== fn len
=== mod builder::memo
use crate::trusted::*;
impl vstd::std_specs::convert::FromSpecImpl<MemoBuilder> for Vec<u8> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: MemoBuilder) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Vec<u8>> for MemoBuilder { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: Vec<u8>) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<MemoBuffer> for Vec<u8> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: MemoBuffer) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<SplitVec<u8>> for MemoBuffer { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: SplitVec<u8>) -> Self { arbitrary() } }
/// what From<MemoBuffer> for Vec<u8> does, below
pub broadcast axiom fn axiom_into_bytes_memo(v: MemoBuffer) ensures #[trigger] into_bytes::<MemoBuffer>(v) == v.buf@;
proof fn cloned_bytes(a: Seq<u8>) ensures forall|x: Seq<u8>| #[trigger] cloned_seq(a, x) ==> x == a { assert forall|x: Seq<u8>| #[trigger] cloned_seq(a, x) implies x == a by { assert(a =~= x); } }
=== drop /^impl .*Hash
=== in impl MemoBuilder
=== fn new -> r
    ensures r.twf(), r.tv().len() == 0
=== in impl From<MemoBuilder> for Vec<u8>
=== fn from -> r twin
    ensures r@ == val.tv()
=== in impl From<Vec<u8>> for MemoBuilder
=== fn from -> r twin
    ensures r.twf(), r.tv() == buf@
=== in impl From<&[u8]> for MemoBuilder
=== fn from -> r freeonly
    ensures r.twf(), r.tv() == buf@
=== rw <&\[u8\]\s+as\s+Into<Vec<u8>>>::into\((\w+)\) => \1.vto_vec()
=== in impl From<SplitVec<u8>> for MemoBuffer
=== fn from -> r twin
    ensures r.buf@ == val.bytes(), r.lens@ == val.lens()
=== in impl From<MemoBuffer> for Vec<u8>
=== fn from -> r twin
    ensures r@ == val.buf@
=== in impl Write for MemoBuilder
=== fn write -> r freeonly
    requires old(self).twf()
    ensures r is Ok, r->Ok_0 == buf@.len(), final(self).twf(), final(self).tv() == old(self).tv() + buf@
=== body
    proof { cloned_bytes(buf@); }
=== fn flush -> r freeonly
    requires old(self).twf()
    ensures r is Ok, final(self).twf(), final(self).tv() == old(self).tv()
=== in impl Target for MemoBuilder
    open spec fn tv(&self) -> Seq<u8> { self.segs.bytes() }
    open spec fn twf(&self) -> bool { self.segs.inv() }
    open spec fn keeps() -> bool { true }
=== fn anticipate
=== fn create
=== fn push_one
=== body
    proof { assert(old(self).segs.bytes() + seq![b] =~= old(self).segs.bytes().push(b)); }
=== fn push_many
=== body
    proof { cloned_bytes(arr@); }
=== fn push_all
=== body
    proof { cloned_bytes(buf@); }
=== fn resolve
=== in impl Builder for MemoBuilder
    open spec fn sv(s: &Vec<u8>) -> Seq<u8> { s@ }
=== fn promote
=== fn word
=== rw \.into\(\) => .vinto()
=== fn words
=== rw \.into\(\) => .vinto()
=== rw \.to_vec\(\) => .vto_vec()
=== fn finalize
=== rw \.into\(\) => .vinto()
=== body
    broadcast use axiom_into_bytes_memo;
=== fn len
