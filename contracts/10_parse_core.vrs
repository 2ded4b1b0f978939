=== mod internal::stack
use crate::trusted::*;
pub open spec fn top<T>(s: Seq<T>) -> Option<T> { if s.len() == 0 { None } else { Some(s.last()) } }
=== in trait Stack
    spec fn sview(&self) -> Seq<Self::Item>;
=== fn peek -> r
       ensures r == top(self.sview())
=== fn peek_or -> r
       ensures r == (if self.sview().len() == 0 { default } else { self.sview().last() })
=== fn peek_mut -> r
       ensures old(self).sview().len() == 0 ==> r is None && final(self).sview() == old(self).sview(),
         old(self).sview().len() > 0 ==> r is Some && *(r->0) == old(self).sview().last()
            && final(self).sview() == old(self).sview().drop_last().push(*final(r->0))
=== fn pop -> r
       ensures r == top(old(self).sview()),
         old(self).sview().len() == 0 ==> final(self).sview() == old(self).sview(),
         old(self).sview().len() > 0 ==> final(self).sview() == old(self).sview().drop_last()
=== fn pop_or -> r
       ensures r == (if old(self).sview().len() == 0 { default } else { old(self).sview().last() }),
         old(self).sview().len() == 0 ==> final(self).sview() == old(self).sview(),
         old(self).sview().len() > 0 ==> final(self).sview() == old(self).sview().drop_last()
=== fn push_unchecked
       ensures final(self).sview() == old(self).sview().push(item)
=== fn push_validated -> r
      requires validate.requires((top(old(self).sview()), item))
      ensures match r {
            Ok(_) => validate.ensures((top(old(self).sview()), item), None) && final(self).sview() == old(self).sview().push(item),
            Err(e) => validate.ensures((top(old(self).sview()), item), Some(e)) && final(self).sview() == old(self).sview(),
         }
=== in impl Stack for Vec<T>
    open spec fn sview(&self) -> Seq<T> { self@ }
=== fn peek
=== fn pop
=== fn push_unchecked
=== fn peek_mut
=== mod internal::offset
use crate::trusted::*;
=== drop impl std::fmt::Display for Index
=== each A,B,E: Index,usize,Index(v) | usize,Index,v.iv()
impl vstd::std_specs::convert::FromSpecImpl<${B}> for ${A} { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ${B}) -> ${A} { ${E} } }
=== end
=== in impl Index
    pub open spec fn iv(self) -> usize { self.0 }
=== fn new -> r
    ensures r.iv() == 0
=== fn increment_checked -> r
    ensures r.0 == old(self).iv(),
        r.1 == (old(self).iv() + n <= lim),
        final(self).iv() == old(self).iv() + (if r.1 { n as int } else { 0 }),
=== rw (?s)self\.0\.checked_add\(n\)\.map_or\(false, \|next\| (.*?)\) => match self.0.checked_add(n) { Some(next) => \1, None => false }
=== fn to_usize -> r
    ensures r == self.iv()
=== in impl AsRef<usize> for Index
=== fn as_ref -> r freeonly
    ensures *r == self.0
=== in impl From<usize> for Index
=== fn from -> r twin
    ensures r.iv() == ix
=== in impl From<Index> for usize
=== fn from -> r twin
    ensures r == ix.iv()
=== in trait IndexTracker
=== sized
=== in trait IndexTracker
    spec fn tcur(&self) -> nat;
    spec fn tabs(&self) -> nat;
    spec fn tlim(&self) -> nat;
    spec fn twf(&self) -> bool;
=== fn with_limit -> r
    ensures r.twf(), r.tcur() == 0, r.tabs() == abs, r.tlim() == abs
=== fn index -> r
    requires self.twf()
    ensures r == self.tcur()
=== fn absolute_limit -> r
    requires self.twf()
    ensures r == self.tabs()
=== fn limit -> r decl
    requires self.twf()
    ensures r == self.tlim(), self.tcur() <= self.tlim()
=== fn rem -> r
    requires self.twf()
    ensures r == self.tlim() - self.tcur(), self.tcur() <= self.tlim()
=== fn advance -> r
    requires old(self).twf()
    ensures final(self).twf(), r.0 == old(self).tcur(), r.1 == (old(self).tcur() + n <= old(self).tlim()),
        final(self).tcur() == old(self).tcur() + (if r.1 { n as int } else { 0 }),
        final(self).tabs() == old(self).tabs(), final(self).tlim() == old(self).tlim()
=== in -
=== fn detect_error -> r
    ensures r is Some <==> (innermost is Some && request > innermost->0)
=== in impl FrameStack
    pub open spec fn fv(&self) -> Seq<usize> { self.0@ }
=== fn new -> r
    ensures r.sview() == Seq::<usize>::empty()
=== fn push_frame -> r
    ensures r is Ok <==> (old(self).sview().len() == 0 || target <= old(self).sview().last()),
      r is Ok ==> final(self).sview() == old(self).sview().push(target),
      r is Err ==> final(self).sview() == old(self).sview()
=== in impl Stack for FrameStack
    open spec fn sview(&self) -> Seq<usize> { self.0@ }
=== fn peek
=== fn peek_mut external_body
=== fn pop
=== fn push_unchecked
=== in impl ContextOffset
    pub open spec fn frames(&self) -> Seq<usize> { self.frames.sview() }
    /// cur <= innermost frame <= ... <= outermost frame <= abs
    pub open spec fn inv(&self) -> bool {
        &&& self.cur.iv() <= self.abs
        &&& forall|i: int| 0 <= i < self.frames().len() ==> self.cur.iv() <= #[trigger] self.frames()[i] <= self.abs
        &&& forall|i: int, j: int| 0 <= i < j < self.frames().len() ==> self.frames()[j] <= self.frames()[i]
    }
=== fn set_fit -> r
    requires old(self).twf()
    ensures final(self).twf(), final(self).tcur() == old(self).tcur(), final(self).tabs() == old(self).tabs(),
       r is Ok <==> winsize <= old(self).tlim() - old(self).tcur(),
       r is Ok ==> final(self).frames() == old(self).frames().push((old(self).tcur() + winsize) as usize),
       r is Err ==> final(self).frames() == old(self).frames()
=== fn test_target -> r
    requires self.twf()
    ensures r is Ok, r->Ok_0 == (self.frames().len() > 0 && self.frames().last() == self.tcur())
=== fn enforce_target -> r
    requires old(self).twf()
    ensures final(self).twf(), final(self).tcur() == old(self).tcur(), final(self).tabs() == old(self).tabs(),
       r is Ok <==> (old(self).frames().len() > 0 && old(self).frames().last() == old(self).tcur()),
       r is Err && old(self).frames().len() == 0 ==> r->Err_0 == crate::parse::error::ParseError::Window(crate::parse::error::WindowError::CloseWithoutWindow),
       r is Ok ==> final(self).frames() == old(self).frames().drop_last(),
       r is Err ==> final(self).frames() == old(self).frames()
=== in impl IndexTracker for ContextOffset
    open spec fn tcur(&self) -> nat { self.cur.iv() as nat }
    open spec fn tabs(&self) -> nat { self.abs as nat }
    open spec fn tlim(&self) -> nat { (if self.frames().len() == 0 { self.abs } else { self.frames().last() }) as nat }
    open spec fn twf(&self) -> bool { self.inv() }
=== fn with_limit -> r
    ensures r.frames().len() == 0
=== fn index
=== fn absolute_limit
=== fn limit
=== fn advance
    ensures final(self).frames() == old(self).frames()
=== mod parse::error
use crate::trusted::*;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExExternalError(ExternalError);
=== each A,B,C: WindowError,ParseError,ParseError::Window | TokenError,ParseError,ParseError::Token | InternalError,ParseError,ParseError::Internal | std::array::TryFromSliceError,InternalError,InternalError::SliceCoerceFailure
impl vstd::std_specs::convert::FromSpecImpl<${A}> for ${B} { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ${A}) -> ${B} { ${C}(v) } }
=== end
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for ParseError where ExternalError: From<T> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: T) -> ParseError { arbitrary() } }
impl<T: TagType> vstd::std_specs::convert::FromSpecImpl<TagError<T>> for ParseError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: TagError<T>) -> ParseError { arbitrary() } }
impl<T: TagType> vstd::std_specs::convert::FromSpecImpl<T> for TagError<T> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: T) -> TagError<T> { arbitrary() } }
pub assume_specification<T>[std::any::type_name::<T>]() -> &'static str where T: std::marker::MetaSized + ?Sized;
/// the tag an error names, if it is an invalid-tag error
pub open spec fn named8(e: ParseError) -> Option<u8> { match e { ParseError::Token(TokenError::InvalidTagU8(t)) => Some(t.actual), _ => None } }
pub open spec fn named16(e: ParseError) -> Option<u16> { match e { ParseError::Token(TokenError::InvalidTagU16(t)) => Some(t.actual), _ => None } }
pub open spec fn named32(e: ParseError) -> Option<u32> { match e { ParseError::Token(TokenError::InvalidTagU30(t)) => Some(t.actual), _ => None } }
=== drop impl ParseError
=== keepext enum ExternalError
=== keepext /^impl From<.*> ?for ExternalError$
=== drop impl From<Infallible> for ParseError
=== in impl From<WindowError> for ParseError
=== fn from -> r twin
    ensures r == ParseError::Window(err)
=== in impl From<TokenError> for ParseError
=== fn from -> r twin
    ensures r == ParseError::Token(tok_e)
=== in impl From<InternalError> for ParseError
=== fn from -> r twin
    ensures r == ParseError::Internal(err)
=== in impl From<std::array::TryFromSliceError> for InternalError
=== fn from -> r twin
    ensures r is SliceCoerceFailure
=== in impl<T> From<T> for ParseError
=== fn from -> r twin
    ensures r is External
=== in impl From<TagError<T>> for ParseError
=== fn from -> r twin
    ensures T::named(r) == Some(val.actual)
=== in impl From<T> for TagError<T>
=== fn from -> r twin
    ensures r.actual == actual
=== in -
=== fn coerce_slice -> r
    ensures r is Ok <==> bytes@.len() == N, r is Ok ==> r->Ok_0@ == bytes@
=== rw <\[u8; N\]\s+as\s+std::convert::TryFrom<&'_ \[u8\]>>::try_from\( => crate::trusted::vslice_to_array::<N>(
=== in trait TagType
    spec fn named(e: ParseError) -> Option<Self>;
=== fn promote -> r
    ensures Self::named(r) == Some(val.actual)
=== each T,N: u8,8 | u16,16 | u32,32
=== in impl TagType for ${T}
    open spec fn named(e: ParseError) -> Option<${T}> { named${N}(e) }
=== fn promote
=== end
=== in trait TagValidator
    spec fn tags(&self) -> Seq<U>;
=== fn is_valid -> r
    ensures r == self.tags().contains(raw)
=== fn has_valid -> r
    ensures r == (self.tags().len() > 0)
=== fn into_valid -> r
    ensures r@ =~= self.tags()
=== in impl TagError<T>
=== fn new -> r
    ensures r.actual == actual
=== fn with_type -> r
    ensures r.actual == actual
=== mod parse::error::impls
use crate::trusted::*;
=== each T: u8 | u16 | u32
=== in -
=== fn contains_${T} -> r
    ensures r == haystack@.contains(needle)
=== in impl TagValidator<${T}> for [${T}; N]
    open spec fn tags(&self) -> Seq<${T}> { self@ }
=== fn is_valid
=== fn has_valid
=== fn into_valid
=== in impl TagValidator<${T}> for &'_ [${T}; N]
    open spec fn tags(&self) -> Seq<${T}> { self@ }
=== fn is_valid
=== fn has_valid
=== fn into_valid
=== in impl TagValidator<${T}> for &'_ [${T}]
    open spec fn tags(&self) -> Seq<${T}> { self@ }
=== fn is_valid
=== fn has_valid
=== fn into_valid
=== in impl TagValidator<${T}> for Vec<${T}>
    open spec fn tags(&self) -> Seq<${T}> { self@ }
=== fn is_valid
=== fn has_valid
=== fn into_valid
=== in impl TagValidator<${T}> for &'_ Vec<${T}>
    open spec fn tags(&self) -> Seq<${T}> { self@ }
=== fn is_valid
=== fn has_valid
=== fn into_valid
=== in impl TagValidator<${T}> for std::collections::HashSet<${T}>
    open spec fn tags(&self) -> Seq<${T}> { hs_seq(*self) }
=== fn is_valid
=== rw self\.contains\(&raw\) => crate::trusted::hs_contains(self, &raw)
=== fn has_valid
=== rw self\.is_empty\(\) => crate::trusted::hs_is_empty(self)
=== fn into_valid
=== rw self\.into_iter\(\)\.collect::<[^;{}]*>\(\) => crate::trusted::hs_into_vec(self)
=== end
=== mod parse::error::private
=== mod error
=== only enum BoundsError
=== only enum LengthError
=== only enum WidthError
=== mod parse::buffer
use crate::trusted::*;
=== in impl From<&'a[u8]> for SliceBuffer<'a>
=== fn from -> r freeonly
    ensures r.sb() == bytes@
=== each S: &[u8] | [u8;N] | &'_[u8;N]
=== in impl From<${S}> for VecBuffer
=== fn from -> r freeonly
    ensures r.bv() == bytes.vb()
=== rw (\w+)\.(to_vec|to_owned)\(\) => \1.vto_vec()
=== end
=== in impl From<Vec<u8>> for VecBuffer
=== fn from -> r freeonly
    ensures r.bv() == bytes@
=== in impl From<HexString> for VecBuffer
=== fn from -> r freeonly
    ensures r.bv() == hex.hv()
=== each S: &'a str | String | &'a String
=== in impl From<${S}> for crate::parse::buffer::VecBuffer
=== fn from -> r freeonly
    ensures r.bv() == vstd::utf8::encode_utf8(s.vt())
=== rw \bs\.as_bytes\(\) => s.vtext().as_bytes()
=== rw \.(to_vec|to_owned)\(\) => .vto_vec()
=== end
=== in impl From<std::borrow::Cow<'a, str>> for crate::parse::buffer::VecBuffer
=== fn from -> r freeonly
    ensures r.bv() == vstd::utf8::encode_utf8(s.vt())
=== rw \bs\.as_bytes\(\) => s.vtext().as_bytes()
=== rw \.(to_vec|to_owned)\(\) => .vto_vec()
=== in impl SliceBuffer<'_>
=== fn from_static -> r
    ensures r.0 == slice
=== in impl SliceBuffer<'a>
    pub open spec fn sb(&self) -> Seq<u8> { self.0@ }
=== fn as_slice -> r
    ensures r@ == self.sb()
=== fn into_slice -> r
    ensures r@ == self.sb()
=== fn is_empty -> r
    ensures r == (self.sb().len() == 0)
=== fn len -> r
    ensures r == self.sb().len()
=== fn new -> r
    ensures r.sb() == slice@
=== fn cut_first -> r
    ensures match r { Some((b, t)) => self.sb().len() > 0 && b == self.sb()[0] && t.sb() == self.sb().skip(1), None => self.sb().len() == 0 }
=== rw if let \[first, tail @ \.\.\] = self\.0 => if let Some((first, tail)) = self.0.split_first()
=== fn cut_first_unchecked -> r
    requires self.sb().len() > 0
    ensures r.0 == self.sb()[0], r.1.sb() == self.sb().skip(1)
=== fn split -> r
    requires mid <= self.sb().len()
    ensures r.0.sb() == self.sb().take(mid as int), r.1.sb() == self.sb().skip(mid as int)
=== fn split_unchecked -> r
    requires mid <= self.sb().len()
    ensures r.0.sb() == self.sb().take(mid as int), r.1.sb() == self.sb().skip(mid as int)
=== fn take -> r
    requires n <= self.sb().len()
    ensures r.0@ == self.sb().take(n as int), r.1.sb() == self.sb().skip(n as int)
=== fn take_unchecked -> r
    requires n <= self.sb().len()
    ensures r.0@ == self.sb().take(n as int), r.1.sb() == self.sb().skip(n as int)
=== in impl VecBuffer
    pub open spec fn bv(&self) -> Seq<u8> { self.0@ }
=== fn len -> r
    ensures r == self.bv().len()
=== fn is_empty -> r
    ensures r == (self.bv().len() == 0)
=== fn get_slice_unchecked -> r
    requires ix + len <= self.bv().len()
    ensures r@ == self.bv().subrange(ix as int, ix + len)
=== body
    proof { assert(self.0.len() == self.0@.len()); }
=== fn get_slice -> r
    requires ix + len <= self.bv().len()
    ensures r@ == self.bv().subrange(ix as int, ix + len)
=== fn get_byte_unchecked -> r
    requires ix < self.bv().len()
    ensures r == self.bv()[ix as int]
=== fn get_byte -> r
    requires ix < self.bv().len()
    ensures r == self.bv()[ix as int]
=== mod internal::view
use crate::trusted::*;
=== in impl ViewStack<'a>
    pub open spec fn vs(&self) -> Seq<SliceBuffer<'a>> { self.0@ }
=== fn window_count -> r
    ensures r == (if self.vs().len() == 0 { 0 } else { self.vs().len() - 1 })
=== in impl Stack for ViewStack<'a>
    open spec fn sview(&self) -> Seq<SliceBuffer<'a>> { self.0@ }
=== fn peek
=== fn peek_mut
=== fn pop
=== fn push_unchecked
=== mod internal::view::vec_viewstack
use crate::trusted::*;
=== in impl ViewStack<'a>
=== fn new -> r
    ensures r.0@ == Seq::<SliceBuffer<'a>>::empty()
=== fn from_buffer -> r
    ensures r.0@ == seq![sbuf]
