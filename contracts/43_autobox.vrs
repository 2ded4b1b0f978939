=== mod autobox
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
=== derive AutoBox
=== drop /^impl .*(Debug|Display)
impl<T: Layout> Layout for AutoBox<T> {
    type V = T::V;
    open spec fn lv(&self) -> T::V { (*self._box).lv() }
    open spec fn lok(v: T::V) -> bool { T::lok(v) }
    open spec fn lenc(v: T::V) -> Seq<u8> { T::lenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(T::V, nat)> { T::ldec(b) }
    open spec fn dterm() -> bool { T::dterm() }
    open spec fn ltail(v: T::V, k: nat) -> bool { T::ltail(v, k) }
    proof fn dec_bound(b: Seq<u8>) { T::dec_bound(b); }
    proof fn rt(v: T::V, t: Seq<u8>) { T::rt(v, t); }
}
=== in impl AutoBox<T>
=== fn new -> r
    ensures *r._box == x
=== fn from_boxed -> r
    ensures r._box == _box
=== fn into_box -> r
    ensures r == self._box
=== fn into_inner -> r
    ensures r == *self._box
=== fn as_inner -> r
    ensures *r == *self._box
=== rw <Box<T>\s+as AsRef<T>>::as_ref\(&self\._box\) => vbox_ref(&self._box)
=== in impl AsRef<T> for AutoBox<T>
=== inherent
=== fn as_ref -> r
    ensures *r == *self._box
=== rw self\._box\.as_ref\(\) => vbox_ref(&self._box)
=== in impl From<T> for AutoBox<T>
=== fn from -> r twin
    ensures *r._box == x
=== in impl From<Box<T>> for AutoBox<T>
=== fn from -> r twin
    ensures r._box == _box
=== in impl Encode for AutoBox<T>
=== fn write_to
=== rw self\._box\.as_ref\(\) => vbox_ref(&self._box)
=== in impl Decode for AutoBox<T>
=== fn parse
=== in impl Estimable for AutoBox<T>
=== fn KNOWN
=== fn unknown
=== rw self\._box\.as_ref\(\) => vbox_ref(&self._box)
=== in impl AutoBox<T>
=== fn as_mut_boxed -> r
    ensures *r == old(self)._box, *final(r) == final(self)._box
=== fn as_mut_inner -> r
    ensures *r == *old(self)._box, *final(r) == *final(self)._box
=== rw <Box<T>\s+as AsMut<T>>::as_mut\(&mut self\._box\) => vbox_mut(&mut self._box)
=== in impl AsRef<Box<T>> for AutoBox<T>
=== fn as_ref -> r freeonly
    ensures *r == self._box
=== in impl AsMut<T> for AutoBox<T>
=== fn as_mut -> r freeonly
    ensures *r == *old(self)._box, *final(r) == *final(self)._box
=== in impl Clone for AutoBox<T>
=== fn clone -> r freeonly
    ensures call_ensures(<Box<T> as Clone>::clone, (&self._box,), r._box)
=== in impl std::default::Default for AutoBox<T>
=== fn default -> r freeonly
    ensures call_ensures(<Box<T> as std::default::Default>::default, (), r._box)
