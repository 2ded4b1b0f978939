=== mod hexstring
use crate::trusted::*;
use crate::hexstring::util::*;
use vstd::utf8::encode_utf8;
=== drop /^impl .*Hash\b
=== drop /^use .*(TryFrom|FromIterator)$
=== in impl HexString
    pub open spec fn hv(&self) -> Seq<u8> { self.bytes@ }
    pub open spec fn hexes(self, t: Seq<char>) -> bool { hexok(encode_utf8(t)) && hexdec(encode_utf8(t)) == self.hv() }
=== fn as_bytes -> r
    ensures r@ == self.hv()
=== fn as_mut_bytes -> r
    ensures r@ == old(self).hv(), final(self).hv() == final(r)@
=== fn as_mut_vec -> r
    ensures r@ == old(self).hv(), final(self).hv() == final(r)@
=== fn as_vec -> r
    ensures r@ == self.hv()
=== fn from_vec -> r
    ensures r.hv() == bytes@
=== fn into_inner -> r
    ensures r@ == self.hv()
=== fn is_empty -> r
    ensures r == (self.hv().len() == 0)
=== fn len -> r
    ensures r == self.hv().len()
=== fn new -> r
    ensures r.hv().len() == 0
=== fn clone_from_bytes -> r
    ensures r.hv() == asref::<T>(&src)
=== rw (\w+)\.as_ref\(\)\.to_vec\(\) => crate::trusted::vas_ref(&\1).vto_vec()
=== fn from_bytes -> r
    ensures call_ensures(<Vec<u8> as From<T>>::from, (bytes,), r.bytes)
=== fn to_hex -> r
    ensures r@ == hexenc(self.hv())
=== fn from_hex -> r
    ensures (r is Ok) == hexok(encode_utf8(astext::<S>(&hex))), r is Ok ==> r->Ok_0.hexes(astext::<S>(&hex))
=== rw (\w+)\.as_ref\(\) => crate::trusted::vas_text(&\1)
=== fn eq_hex -> r
    ensures r == self.hexes(astext::<S>(other))
=== rw (\w+)\.as_ref\(\) => crate::trusted::vas_text(\1)
=== fn iter -> r
    ensures iter_elems(r).map_values(|x: &u8| *x) == self.hv()
=== rw (self\.bytes)\.iter\(\) => crate::trusted::vslice_iter(self.bytes.as_slice())
=== in impl Target for HexString
    open spec fn tv(&self) -> Seq<u8> { self.hv() }
    open spec fn twf(&self) -> bool { true }
    open spec fn keeps() -> bool { true }
=== fn anticipate
=== fn create
=== fn push_one
=== fn push_many
=== fn push_all
=== fn resolve
=== in impl Write for HexString
=== fn write -> r freeonly
    ensures r is Ok, r->Ok_0 == buf@.len(), final(self).hv() == old(self).hv() + buf@
=== rw \b(\w+\.bytes)\.write\(buf\) => crate::trusted::viowrite(&mut \1, buf)
=== fn flush -> r freeonly
    ensures r is Ok, final(self).hv() == old(self).hv()
=== rw \b(\w+\.bytes)\.flush\(\) => crate::trusted::vioflush(&mut \1)
=== in impl FromIterator<u8> for HexString
=== fn from_iter -> r freeonly
    ensures r.hv() == iter_elems(iter)
=== rw Vec::from_iter\( => crate::trusted::vfrom_iter(
=== in impl FromIterator<&'a u8> for HexString
=== fn from_iter -> r freeonly
    ensures r.hv() == iter_elems(iter).map_values(|x: &'a u8| *x)
=== body
    proof { assert(Seq::<u8>::empty() + iter_elems(iter).map_values(|x: &'a u8| *x) =~= iter_elems(iter).map_values(|x: &'a u8| *x)); }
=== in impl Extend<u8> for HexString
=== fn extend freeonly
    ensures final(self).hv() == old(self).hv() + iter_elems(iter)
=== in impl Extend<&'a u8> for HexString
=== fn extend freeonly
    ensures final(self).hv() == old(self).hv() + iter_elems(iter).map_values(|x: &'a u8| *x)
=== in impl From<HexString> for Vec<u8>
=== fn from -> r twin
    ensures r@ == val.hv()
=== in impl From<Vec<u8>> for HexString
=== fn from -> r twin
    ensures r.hv() == bytes@
=== each S: &[u8] | Box<[u8]> | Rc<[u8]> | Arc<[u8]> | [u8;N] | &[u8;N] | Box<[u8;N]> | Rc<[u8;N]> | Arc<[u8;N]>
=== in impl From<${S}> for HexString
=== fn from -> r freeonly
    ensures r.hv() == src.vb()
=== rw (\w+)\.to_vec\(\) => \1.vto_vec()
=== end
=== in impl From<Cow<'_,[u8]>> for HexString
=== fn from -> r freeonly
    ensures r.hv() == src.vb()
=== rw (\w+)\.to_vec\(\) => \1.vto_vec()
=== in impl From<Cow<'_,[u8;N]>> for HexString
=== fn from -> r freeonly
    ensures r.hv() == src.vb()
=== rw (\w+)\.to_vec\(\) => \1.vto_vec()
=== in impl TryFrom<Cow<'_,str>> for HexString
=== fn try_from -> r freeonly
    ensures (r is Ok) == hexok(encode_utf8(s.vt())), r is Ok ==> r->Ok_0.hexes(s.vt())
=== rw bytes_of_hex\(&(\w+)\) => bytes_of_hex(crate::trusted::VText::vtext(&\1))
=== in impl PartialEq<HexString> for Cow<'_,str>
=== fn eq -> r freeonly
    ensures r == other.hexes(self.vt())
=== body
    broadcast use axiom_astext_str, axiom_astext_ref, axiom_astext_string, axiom_astext_cow;
=== in impl PartialEq<Cow<'_,str>> for HexString
=== fn eq -> r freeonly
    ensures r == self.hexes(other.vt())
=== body
    broadcast use axiom_astext_str, axiom_astext_ref, axiom_astext_string, axiom_astext_cow;
=== mod hexstring
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a str> for HexString { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'a str) -> Result<Self, HexConvError> { arbitrary() } }
=== in impl TryFrom<&str> for HexString
=== fn try_from -> r twin
    ensures (r is Ok) == hexok(encode_utf8(s.vt())), r is Ok ==> r->Ok_0.hexes(s.vt())
=== rw bytes_of_hex\(&(\w+)\) => bytes_of_hex(crate::trusted::VText::vtext(&\1))
=== in impl FromStr for HexString
=== fn from_str -> r freeonly
    ensures (r is Ok) == hexok(encode_utf8(s@)), r is Ok ==> r->Ok_0.hexes(s@)
=== each S: String | Box<str> | Rc<str> | Arc<str>
=== in impl TryFrom<${S}> for HexString
=== fn try_from -> r freeonly
    ensures (r is Ok) == hexok(encode_utf8(s.vt())), r is Ok ==> r->Ok_0.hexes(s.vt())
=== rw bytes_of_hex\(&(\w+)\) => bytes_of_hex(crate::trusted::VText::vtext(&\1))
=== end
=== each S: &'_ str | String
=== in impl PartialEq<HexString> for ${S}
=== fn eq -> r freeonly
    ensures r == other.hexes(self.vt())
=== body
    broadcast use axiom_astext_str, axiom_astext_ref, axiom_astext_string, axiom_astext_cow;
=== in impl PartialEq<${S}> for HexString
=== fn eq -> r freeonly
    ensures r == self.hexes(other.vt())
=== body
    broadcast use axiom_astext_str, axiom_astext_ref, axiom_astext_string, axiom_astext_cow;
=== end
=== mod hexstring
=== in impl AsRef<[u8]> for HexString
=== fn as_ref -> r freeonly
    ensures r@ == self.hv()
=== rw (self\.bytes)\.as_ref\(\) => \1.as_slice()
=== in impl AsMut<[u8]> for HexString
=== fn as_mut -> r freeonly
    ensures r@ == old(self).hv(), final(self).hv() == final(r)@
=== rw (self\.bytes)\.as_mut\(\) => \1.as_mut_slice()
=== in impl IntoIterator for HexString
=== fn into_iter -> r freeonly
    ensures iter_elems(r) == self.hv()
=== rw (self\.bytes)\.into_iter\(\) => crate::trusted::vvec_into_iter(\1)
=== in impl IntoIterator for &'a HexString
=== fn into_iter -> r freeonly
    ensures iter_elems(r).map_values(|x: &'a u8| *x) == self.hv()
=== mod error
=== only enum HexConvError
=== mod hexstring::util
use crate::trusted::*;
use vstd::utf8::{encode_utf8, is_ascii_chars, is_ascii_chars_encode_utf8};
/// value of a hex digit (ASCII code), either case
pub open spec fn hexval(d: u8) -> Option<u8> {
    if 48 <= d <= 57 { Some((d - 48) as u8) } else if 97 <= d <= 102 { Some((d - 87) as u8) } else if 65 <= d <= 70 { Some((d - 55) as u8) } else { None }
}
pub open spec fn hexpair(h: u8, l: u8) -> Option<u8> {
    match (hexval(h), hexval(l)) { (Some(a), Some(b)) => Some((a * 16 + b) as u8), _ => None }
}
/// what parses: an even number of hex digits
pub open spec fn hexok(t: Seq<u8>) -> bool { t.len() % 2 == 0 && forall|i: int| 0 <= i < t.len() ==> hexval(#[trigger] t[i]) is Some }
pub open spec fn hexat(t: Seq<u8>, i: int) -> u8 { hexpair(t[2 * i], t[2 * i + 1])->0 }
pub open spec fn hexdec(t: Seq<u8>) -> Seq<u8> { Seq::new((t.len() / 2) as nat, |i: int| hexat(t, i)) }
/// two lowercase digits per byte, high nibble first
pub open spec fn hexenc(b: Seq<u8>) -> Seq<char> {
    Seq::new((2 * b.len()) as nat, |i: int| hexchr(if i % 2 == 0 { (b[i / 2] / 16) as nat } else { (b[i / 2] % 16) as nat }, 'x'))
}
pub proof fn hexenc_push(b: Seq<u8>, x: u8)
    ensures hexenc(b.push(x)) == hexenc(b) + fmt_hex(10, 2, 'x', x), hexenc(Seq::<u8>::empty()).len() == 0
{
    let d = fmt_hex(10, 2, 'x', x);
    assert(d =~= seq![hexchr((x / 16) as nat, 'x'), hexchr((x % 16) as nat, 'x')]) by { hex_two(x); }
    assert(hexenc(b.push(x)) =~= hexenc(b) + d) by {
        assert forall|i: int| 0 <= i < 2 * b.len() + 2 implies hexenc(b.push(x))[i] == (hexenc(b) + d)[i] by {
            if i < 2 * b.len() { assert(b.push(x)[i / 2] == b[i / 2]); }
        }
    }
}
pub proof fn hexdec_step(t: Seq<u8>, i: int)
    requires 0 <= i, 2 * i + 2 <= t.len()
    ensures hexdec(t.take(2 * i + 2)) == hexdec(t.take(2 * i)).push(hexat(t, i)),
        hexok(t) ==> hexval(t[2 * i]) is Some && hexval(t[2 * i + 1]) is Some
{
    assert(hexdec(t.take(2 * i + 2)) =~= hexdec(t.take(2 * i)).push(hexat(t, i)));
}
/// every byte string: its hex text parses back to it
pub proof fn hex_roundtrip(b: Seq<u8>)
    ensures encode_utf8(hexenc(b)).len() == 2 * b.len(), hexok(encode_utf8(hexenc(b))), hexdec(encode_utf8(hexenc(b))) == b
{
    let s = hexenc(b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 && hexval(s[i] as u8) == Some(if i % 2 == 0 { (b[i / 2] / 16) as u8 } else { (b[i / 2] % 16) as u8 }) by { }
    assert(is_ascii_chars(s));
    is_ascii_chars_encode_utf8(s);
    let t = encode_utf8(s);
    assert forall|i: int| 0 <= i < t.len() implies hexval(#[trigger] t[i]) is Some by { assert(t[i] == s[i] as u8); }
    assert forall|i: int| 0 <= i < b.len() implies hexdec(t)[i] == b[i] by {
        assert(t[2 * i] == s[2 * i] as u8 && t[2 * i + 1] == s[2 * i + 1] as u8);
    }
    assert(hexdec(t) =~= b);
}
=== fn hex_of_bytes -> r
    ensures r@ == hexenc(bytes@)
=== body
    proof { axiom_byte_slice_len(bytes); assert(hexenc(bytes@.take(0)) =~= Seq::<char>::empty()); assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
=== loop 0
    invariant vit0.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] vit0.seq()[i]) == bytes@[i],
        hex@ == hexenc(bytes@.take(vit0.index@))
=== loopbody 0
    proof { let i = vit0.index@; assert(bytes@.take(i + 1) =~= bytes@.take(i).push(bytes@[i])); hexenc_push(bytes@.take(i), bytes@[i]); }
=== rw \(&mut (\w+)\)\.write_fmt\(format_args!\("\{0:(0?)(\d*)([xX])\}",\s*(\w+)\)\) => crate::trusted::vfmt_hex(&mut \1, 1\2, 0\3, '\4', \5)
=== fn value_of_digit -> r
    ensures r == hexval(digit)
=== fn byte_of_digits -> r
    ensures r == hexpair(high, low)
=== fn bytes_of_hex -> r
    ensures (r is Ok) == hexok(encode_utf8(src@)), r is Ok ==> r->Ok_0@ == hexdec(encode_utf8(src@))
=== body
    let ghost t = encode_utf8(src@);
    proof { assert(t.take(t.len( ) as int) =~= t); assert(t.len( ) == 0 ==> hexdec(t) =~= Seq::<u8>::empty()); assert(hexdec(t.take(0)) =~= Seq::<u8>::empty()); }
=== loop 0
    invariant t == encode_utf8(src@), digits@ == t, t.len( ) == 2 * bytes_len, t.len( ) <= usize::MAX, dst@ == hexdec(t.take(2 * ix)),
        forall|i: int| 0 <= i < 2 * ix ==> hexval(#[trigger] t[i]) is Some,
=== loopbody 0
    proof { hexdec_step(t, ix as int); }
=== rw (\w+)\.len\(\) => \1.vlen()
=== fn eq_hex_bytes -> r
    ensures r == (hexok(encode_utf8(src@)) && hexdec(encode_utf8(src@)) == tgt@)
=== body
    let ghost t = encode_utf8(src@);
    proof { axiom_byte_slice_len(tgt); assert(t.take(t.len( ) as int) =~= t); assert(tgt@.take(tgt@.len() as int) =~= tgt@); assert(hexdec(t.take(0)) =~= tgt@.take(0)); }
=== loop 0
    invariant t == encode_utf8(src@), digits@ == t, t.len( ) == 2 * bytes_len, t.len( ) <= usize::MAX, bytes_len == tgt@.len(), hexdec(t.take(2 * ix)) == tgt@.take(ix as int),
        forall|i: int| 0 <= i < 2 * ix ==> hexval(#[trigger] t[i]) is Some,
=== loopbody 0
    proof { hexdec_step(t, ix as int); assert(tgt@.take(ix + 1) =~= tgt@.take(ix as int).push(tgt@[ix as int])); assert(hexdec(t)[ix as int] == hexat(t, ix as int)); }
=== rw (\w+)\.len\(\) => \1.vlen()
