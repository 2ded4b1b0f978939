#![feature(sized_hierarchy, allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types, unused_parens, unused_braces, unreachable_code, non_snake_case, private_interfaces, unused_unsafe)]
use vstd::prelude::*;

pub mod trusted {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::PartialEqSpec;
    verus! {
    global size_of usize == 8;
    /// The failure branch of assert!, panic!, unreachable!: reachable code must prove it is not reached.
    #[verifier::external_body]
    pub fn vpanic() -> (r: !)
        requires false,
    { panic!() }
    #[verifier::external_body]
    pub fn vunreachable() -> (r: !)
        requires false,
    { panic!() }
    /// unreachable_unchecked in the initialiser of an associated constant: reaching it is a compile-time error, not a run
    #[verifier::external_body]
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vconstfail() -> (r: usize)
        ensures false,
    { panic!() }
    /// arithmetic in constants: rustc evaluates it and refuses a result that does not fit
    pub trait VConst: Sized {
        fn vcadd(self, o: Self) -> (r: Self);
        fn vcsub(self, o: Self) -> (r: Self);
        fn vcmul(self, o: Self) -> (r: Self);
    }
    impl VConst for usize {
        #[verifier::external_body] fn vcadd(self, o: usize) -> (r: usize) ensures r == self + o { self + o }
        #[verifier::external_body] fn vcsub(self, o: usize) -> (r: usize) ensures r == self - o { self - o }
        #[verifier::external_body] fn vcmul(self, o: usize) -> (r: usize) ensures r == self * o { self * o }
    }
    #[verifier::external_body]
    pub fn veprint() { }

    pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
        ensures o is None ==> r is None, o is Some ==> r == Some(*(o->0)),
    ;

    /// the elements an iterable yields, in order
    pub uninterp spec fn iter_elems<I: IntoIterator>(it: I) -> Seq<I::Item>;
    pub broadcast axiom fn axiom_iter_elems_vec<T>(v: Vec<T>)
        ensures #[trigger] iter_elems(v) == v@;
    pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut std::vec::Vec<T, A>, it: I)
        ensures final(v)@ == old(v)@ + iter_elems(it), final(v)@.len() <= usize::MAX;
    /// `Vec::from_iter(it)`
    #[verifier::external_body]
    pub fn vfrom_iter<T, I: IntoIterator<Item = T>>(it: I) -> (r: Vec<T>) ensures r@ == iter_elems(it) { Vec::from_iter(it) }
    /// `[x, ..].into_iter()`
    #[verifier::external_body]
    pub fn varr_into_iter<T, const N: usize>(a: [T; N]) -> (r: std::vec::IntoIter<T>) ensures iter_elems(r) == a@ { Vec::from(a).into_iter() }
    #[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(I)] pub struct ExCopied<I>(std::iter::Copied<I>);
    #[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] pub struct ExChain<A, B>(std::iter::Chain<A, B>);
    #[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExOptionIter<'a, T: 'a>(std::option::Iter<'a, T>);
    /// `a.iter().chain(o.iter()).copied()`
    pub type CC<'a> = std::iter::Copied<std::iter::Chain<std::slice::Iter<'a, usize>, std::option::Iter<'a, usize>>>;
    pub uninterp spec fn cc_left(it: CC) -> Seq<usize>;
    #[verifier::external_body]
    pub fn cc_new<'a>(a: &'a [usize], o: &'a Option<usize>) -> (r: CC<'a>)
        ensures cc_left(r) == (match *o { Some(x) => a@.push(x), None => a@ })
    { a.iter().chain(o.iter()).copied() }
    #[verifier::external_body]
    pub fn cc_next(it: &mut CC) -> (r: Option<usize>)
        ensures cc_left(*old(it)).len() == 0 ==> r is None && cc_left(*final(it)).len() == 0,
            cc_left(*old(it)).len() > 0 ==> r == Some(cc_left(*old(it))[0]) && cc_left(*final(it)) == cc_left(*old(it)).drop_first()
    { it.next() }
    #[verifier::external_body]
    pub fn cc_next_back(it: &mut CC) -> (r: Option<usize>)
        ensures cc_left(*old(it)).len() == 0 ==> r is None && cc_left(*final(it)).len() == 0,
            cc_left(*old(it)).len() > 0 ==> r == Some(cc_left(*old(it)).last()) && cc_left(*final(it)) == cc_left(*old(it)).drop_last()
    { it.next_back() }
    /// the elements of a hash set, in some order
    pub uninterp spec fn hs_seq<T>(h: std::collections::HashSet<T>) -> Seq<T>;
    #[verifier::external_body]
    pub fn hs_contains<T: Eq + std::hash::Hash>(h: &std::collections::HashSet<T>, x: &T) -> (r: bool) ensures r == hs_seq(*h).contains(*x) { h.contains(x) }
    #[verifier::external_body]
    pub fn hs_is_empty<T>(h: &std::collections::HashSet<T>) -> (r: bool) ensures r == (hs_seq(*h).len() == 0) { h.is_empty() }
    #[verifier::external_body]
    pub fn hs_into_vec<T>(h: std::collections::HashSet<T>) -> (r: Vec<T>) ensures r@ == hs_seq(h) { h.into_iter().collect() }
    /// an iterator about to be consumed: what it still yields
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct VIter<T>(std::marker::PhantomData<T>);
    impl<T> VIter<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        /// `by_ref().take(n)`, collected
        #[verifier::external_body]
        pub fn vtake(&mut self, n: usize) -> (r: Vec<T>)
            ensures ({ let k = if n <= old(self).view().len() { n as int } else { old(self).view().len() as int };
                r@ == old(self).view().take(k) && final(self).view() == old(self).view().skip(k) })
        { unimplemented!() }
        /// `map(f).collect()`
        #[verifier::external_body]
        pub fn vmap_collect<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
            requires forall|x: T| f.requires((x,))
            ensures r@.len() == self.view().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.view()[i],), #[trigger] r@[i])
        { unimplemented!() }
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
                old(self).view().len() > 0 ==> r == Some(old(self).view()[0]) && final(self).view() == old(self).view().skip(1)
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn viter<I: IntoIterator>(it: I) -> (r: VIter<I::Item>) ensures r.view() == iter_elems(it) { unimplemented!() }
    /// A documented refusal (panic): admissible exactly when the named condition fails to hold.
    #[verifier::external_body]
    pub fn vrefuse(Ghost(fits): Ghost<bool>) -> (r: !)
        requires !fits,
    { panic!() }
    /// `.expect(..)` / `.unwrap()` as a documented refusal: the value is there exactly when the named condition holds
    pub trait VExpect<T>: Sized {
        spec fn vgot(self) -> Option<T>;
        fn vexpect(self, Ghost(fits): Ghost<bool>) -> (r: T)
            requires (self.vgot() is Some) == fits
            ensures fits, Some(r) == self.vgot();
    }
    impl<T, E> VExpect<T> for Result<T, E> {
        open spec fn vgot(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
        #[verifier::external_body] fn vexpect(self, Ghost(fits): Ghost<bool>) -> (r: T) { unimplemented!() }
    }
    impl<T> VExpect<T> for Option<T> {
        open spec fn vgot(self) -> Option<T> { self }
        #[verifier::external_body] fn vexpect(self, Ghost(fits): Ghost<bool>) -> (r: T) { unimplemented!() }
    }
    /// the same when the condition is only known under an assumption
    #[verifier::external_body]
    pub fn vexpect_if<T, E>(r: Result<T, E>, Ghost(known): Ghost<bool>, Ghost(fits): Ghost<bool>) -> (x: T)
        requires known ==> (r is Ok) == fits
        ensures known ==> fits, r is Ok, x == r->Ok_0 { unimplemented!() }
    /// what `TryInto` makes of a value
    pub uninterp spec fn vtried<T, B>(t: T) -> Option<B>;
    #[verifier::external_body]
    pub fn vtry_into_any<T: TryInto<B>, B>(t: T) -> (r: Result<B, T::Error>)
        ensures (r is Ok) == (vtried::<T, B>(t) is Some), r is Ok ==> r->Ok_0 == vtried::<T, B>(t)->0 { t.try_into() }
    /// `Vec::<T>::try_from(&[T]).unwrap()`
    #[verifier::external_body]
    pub fn vclone_vec<T: Clone>(s: &[T]) -> (r: Vec<T>) ensures cloned_seq(s@, r@) { Vec::from(s) }
    /// `<Box<T> as AsRef<T>>::as_ref`
    pub fn vbox_mut<T>(b: &mut Box<T>) -> (r: &mut T) ensures *r == **old(b), *final(r) == **final(b) { &mut **b }
    pub fn vbox_ref<T>(b: &Box<T>) -> (r: &T) ensures *r == **b { &**b }
    pub assume_specification<T: Default> [std::mem::take] (v: &mut T) -> (r: T)
        ensures r == *old(v), call_ensures(T::default, (), *final(v));
    pub assume_specification<T> [std::mem::replace] (v: &mut T, x: T) -> (r: T)
        ensures r == *old(v), *final(v) == x;
    /// elementwise clones
    pub open spec fn cloned_seq<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> vstd::pervasive::cloned::<T>(#[trigger] a[i], b[i])
    }
    pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
        ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
    pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
        ensures cloned_seq(s@, r@);
    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExTryFromSliceError(std::array::TryFromSliceError);
    /// `<[u8; N]>::try_from(&[u8])` of the standard library
    #[verifier::external_body]
    pub fn vslice_to_array<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], std::array::TryFromSliceError>)
        ensures r is Ok <==> s@.len() == N, r is Ok ==> r->Ok_0@ == s@,
    { <[u8; N]>::try_from(s) }
    /// `Vec::<T>::from(&[T])`
    #[verifier::external_body]
    pub fn vvec_from_slice<T: Copy>(s: &[T]) -> (r: Vec<T>)
        ensures r@ == s@,
    { Vec::from(s) }

    /// `slice.iter().copied()` of a byte slice, as something to extend from
    #[verifier::external_body]
    pub fn vcopied(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }

    /// big-endian value of a byte string
    pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat } }
    pub uninterp spec fn f64_of_bits(b: u64) -> f64;
    pub uninterp spec fn bits_of_f64(f: f64) -> u64;
    pub open spec fn be_u8(s: Seq<u8>) -> u8 { s[0] }
    pub open spec fn be_i8(s: Seq<u8>) -> i8 { if s[0] < 128 { s[0] as i8 } else { (s[0] - 256) as i8 } }
    pub open spec fn be_f64(s: Seq<u8>) -> f64 { f64_of_bits(be_u64(s)) }
    pub open spec fn be_u16(s: Seq<u8>) -> u16 { be(s) as u16 }
    pub open spec fn be_i16(s: Seq<u8>) -> i16 { if be(s) < 0x8000 { be(s) as i16 } else { (be(s) - 0x8000 - 0x8000) as i16 } }
    #[verifier::external_body] pub fn from_be_u16(b: [u8; 2]) -> (r: u16) ensures r == be_u16(b@) { u16::from_be_bytes(b) }
    #[verifier::external_body] pub fn from_be_i16(b: [u8; 2]) -> (r: i16) ensures r == be_i16(b@) { i16::from_be_bytes(b) }
    pub open spec fn be_u32(s: Seq<u8>) -> u32 { be(s) as u32 }
    pub open spec fn be_i32(s: Seq<u8>) -> i32 { if be(s) < 0x8000_0000 { be(s) as i32 } else { (be(s) - 0x8000_0000 - 0x8000_0000) as i32 } }
    #[verifier::external_body] pub fn from_be_u32(b: [u8; 4]) -> (r: u32) ensures r == be_u32(b@) { u32::from_be_bytes(b) }
    #[verifier::external_body] pub fn from_be_i32(b: [u8; 4]) -> (r: i32) ensures r == be_i32(b@) { i32::from_be_bytes(b) }
    pub open spec fn be_u64(s: Seq<u8>) -> u64 { be(s) as u64 }
    pub open spec fn be_i64(s: Seq<u8>) -> i64 { if be(s) < 0x8000_0000_0000_0000 { be(s) as i64 } else { (be(s) - 0x8000_0000_0000_0000 - 0x8000_0000_0000_0000) as i64 } }
    #[verifier::external_body] pub fn from_be_u64(b: [u8; 8]) -> (r: u64) ensures r == be_u64(b@) { u64::from_be_bytes(b) }
    #[verifier::external_body] pub fn from_be_i64(b: [u8; 8]) -> (r: i64) ensures r == be_i64(b@) { i64::from_be_bytes(b) }
    #[verifier::external_body] pub fn from_be_f64(b: [u8; 8]) -> (r: f64) ensures r == be_f64(b@) { f64::from_be_bytes(b) }
    /// big-endian two's-complement digits of v in w bytes
    pub open spec fn tc(v: int, w: nat) -> Seq<u8> decreases w { if w == 0 { Seq::empty() } else { tc(v / 256, (w - 1) as nat).push((v % 256) as u8) } }
    pub open spec fn p256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * p256((w - 1) as nat) } }
    pub proof fn tc_len(v: int, w: nat) ensures tc(v, w).len() == w decreases w { if w > 0 { tc_len(v / 256, (w - 1) as nat); } }
    pub proof fn tc_be(v: int, w: nat)
        requires 0 <= v < p256(w)
        ensures be(tc(v, w)) == v, tc(v, w).len() == w
        decreases w
    {
        if w > 0 {
            assert(0 <= v / 256 < p256((w - 1) as nat)) by (nonlinear_arith) requires 0 <= v < 256 * p256((w - 1) as nat);
            tc_be(v / 256, (w - 1) as nat);
            assert(tc(v, w).drop_last() =~= tc(v / 256, (w - 1) as nat));
        }
    }
    pub proof fn tc_neg(v: int, w: nat)
        requires -(p256(w) as int) <= v < 0
        ensures tc(v, w) == tc(v + p256(w), w)
        decreases w
    {
        if w > 0 {
            let q = p256((w - 1) as nat) as int;
            assert((v + 256 * q) / 256 == v / 256 + q && (v + 256 * q) % 256 == v % 256) by (nonlinear_arith);
            assert(-q <= v / 256 < 0) by (nonlinear_arith) requires -256 * q <= v < 0;
            tc_neg(v / 256, (w - 1) as nat);
        }
    }
    pub proof fn p256_vals() ensures p256(0) == 1, p256(1) == 0x100, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000 { assert(p256(8) == 0x1_0000_0000_0000_0000 && p256(4) == 0x1_0000_0000 && p256(2) == 0x1_0000 && p256(1) == 0x100 && p256(0) == 1) by (compute); }
    pub proof fn be_bound(s: Seq<u8>) ensures be(s) < p256(s.len()) decreases s.len() { if s.len() > 0 { be_bound(s.drop_last()); } }
    pub broadcast axiom fn axiom_f64_bits(f: f64) ensures f64_of_bits(#[trigger] bits_of_f64(f)) == f;
    pub broadcast axiom fn axiom_bits_f64(b: u64) ensures bits_of_f64(#[trigger] f64_of_bits(b)) == b;
    pub trait ToBeU8 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 1]) ensures r@ == self.tb(); }
    impl ToBeU8 for u8 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 1) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 1]) { self.to_be_bytes() } }
    pub trait ToBeI8 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 1]) ensures r@ == self.tb(); }
    impl ToBeI8 for i8 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 1) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 1]) { self.to_be_bytes() } }
    pub trait ToBeU16 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 2]) ensures r@ == self.tb(); }
    impl ToBeU16 for u16 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 2) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 2]) { self.to_be_bytes() } }
    pub trait ToBeI16 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 2]) ensures r@ == self.tb(); }
    impl ToBeI16 for i16 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 2) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 2]) { self.to_be_bytes() } }
    pub trait ToBeU32 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 4]) ensures r@ == self.tb(); }
    impl ToBeU32 for u32 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 4) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 4]) { self.to_be_bytes() } }
    pub trait ToBeI32 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 4]) ensures r@ == self.tb(); }
    impl ToBeI32 for i32 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 4) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 4]) { self.to_be_bytes() } }
    pub trait ToBeU64 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 8]) ensures r@ == self.tb(); }
    impl ToBeU64 for u64 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 8) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 8]) { self.to_be_bytes() } }
    pub trait ToBeI64 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 8]) ensures r@ == self.tb(); }
    impl ToBeI64 for i64 { open spec fn tb(&self) -> Seq<u8> { tc(*self as int, 8) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 8]) { self.to_be_bytes() } }
    pub trait ToBeF64 { spec fn tb(&self) -> Seq<u8>; fn vto_be_bytes(&self) -> (r: [u8; 8]) ensures r@ == self.tb(); }
    impl ToBeF64 for f64 { open spec fn tb(&self) -> Seq<u8> { tc(bits_of_f64(*self) as int, 8) } #[verifier::external_body] fn vto_be_bytes(&self) -> (r: [u8; 8]) { self.to_be_bytes() } }
    #[verifier::external_body] pub fn from_be_u8(b: [u8; 1]) -> (r: u8) ensures r == be_u8(b@) { u8::from_be_bytes(b) }
    #[verifier::external_body] pub fn from_be_i8(b: [u8; 1]) -> (r: i8) ensures r == be_i8(b@) { i8::from_be_bytes(b) }

    /// the integers: the mathematical value and the range of a type
    pub trait VInt: Copy {
        spec fn vi(&self) -> int;
        spec fn vmin() -> int;
        spec fn vmax() -> int;
        proof fn vlaw(&self) ensures Self::vmin() <= self.vi() <= Self::vmax();
        proof fn vinj(&self, o: &Self) requires self.vi() == o.vi() ensures *self == *o;
    }
=== each T: u8 | i8 | u16 | i16 | u32 | i32 | u64 | i64 | i128 | usize | isize
    impl VInt for ${T} {
        open spec fn vi(&self) -> int { *self as int }
        open spec fn vmin() -> int { ${T}::MIN as int }
        open spec fn vmax() -> int { ${T}::MAX as int }
        proof fn vlaw(&self) { }
        proof fn vinj(&self, o: &Self) { }
    }
=== end
    pub open spec fn vin<T: VInt>(x: int) -> bool { T::vmin() <= x <= T::vmax() }
    /// the standard library's conversions between integer types
    #[verifier::external_body]
    pub fn vtry_into<A: VInt, B: VInt>(a: A) -> (r: Result<B, std::num::TryFromIntError>)
        ensures r is Ok <==> vin::<B>(a.vi()), r is Ok ==> (r->Ok_0).vi() == a.vi() { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto<A: VInt, B: VInt>(a: A) -> (r: B)
        requires vin::<B>(a.vi()) ensures r.vi() == a.vi() { unimplemented!() }

    /// IEEE 754 double order, read off the bit patterns
    pub open spec fn fmag(b: u64) -> int { (b as int) % 0x8000_0000_0000_0000 }
    pub open spec fn fkey(b: u64) -> int { if b < 0x8000_0000_0000_0000 { fmag(b) } else { -fmag(b) } }
    pub open spec fn fnan(x: f64) -> bool { fmag(bits_of_f64(x)) > 0x7ff0_0000_0000_0000 }
    pub open spec fn fle(a: f64, b: f64) -> bool { !fnan(a) && !fnan(b) && fkey(bits_of_f64(a)) <= fkey(bits_of_f64(b)) }
    pub open spec fn flt(a: f64, b: f64) -> bool { !fnan(a) && !fnan(b) && fkey(bits_of_f64(a)) < fkey(bits_of_f64(b)) }
    /// the processor's comparisons are that order
    pub broadcast axiom fn axiom_float_le(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::le_ensures::<f64>(a, b, r) ==> r == fle(a, b);
    pub broadcast axiom fn axiom_float_ge(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::ge_ensures::<f64>(a, b, r) ==> r == fle(b, a);
    pub broadcast axiom fn axiom_float_lt(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::lt_ensures::<f64>(a, b, r) ==> r == flt(a, b);
    pub broadcast axiom fn axiom_float_gt(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::gt_ensures::<f64>(a, b, r) ==> r == flt(b, a);
    pub proof fn fle_laws(a: f64, x: f64, b: f64) ensures fle(a, x) && fle(x, b) ==> fle(a, b) { }
    pub axiom fn axiom_float_zero() ensures bits_of_f64(0.0f64) == 0;
    pub assume_specification[f64::clamp](x: f64, a: f64, b: f64) -> (r: f64)
        requires fle(a, b)
        ensures r == (if flt(x, a) { a } else if flt(b, x) { b } else { x });
    /// what converts losslessly into an f64
    pub trait VFloat: Copy { spec fn fv(&self) -> f64; fn vinto_f64(self) -> (r: f64) ensures r == self.fv(); }
    impl VFloat for f64 { open spec fn fv(&self) -> f64 { *self } fn vinto_f64(self) -> (r: f64) { self } }
    pub uninterp spec fn f64_of_f32(x: f32) -> f64;
    impl VFloat for f32 { open spec fn fv(&self) -> f64 { f64_of_f32(*self) } #[verifier::external_body] fn vinto_f64(self) -> (r: f64) { self.into() } }
    #[verifier::external_body] pub const fn vtransmute_f64_u64(x: f64) -> (r: u64) ensures r == bits_of_f64(x) { x.to_bits() }
    #[verifier::external_body] pub const fn vtransmute_u64_f64(x: u64) -> (r: f64) ensures r == f64_of_bits(x) { f64::from_bits(x) }

    /// a raw pointer obtained from a byte slice and cast to an N-byte array: reading it needs N bytes behind it
    #[verifier::external_body]
    pub struct VPtr<const N: usize>(*const [u8; N]);
    impl<const N: usize> VPtr<N> {
        pub uninterp spec fn behind(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub const unsafe fn vread(&self) -> (r: [u8; N]) requires N <= self.behind().len() ensures r@ == self.behind().take(N as int) { unsafe { *self.0 } }
    }
    #[verifier::external_body]
    pub const fn vptr<const N: usize>(s: &[u8]) -> (r: VPtr<N>) ensures r.behind() == s@ { VPtr(s.as_ptr() as *const [u8; N]) }
    #[verifier::external_body]
    pub fn varr_to_vec<const N: usize>(s: [u8; N]) -> (r: Vec<u8>) ensures r@ == s@ { s.into() }
    pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| vstd::utf8::encode_utf8(s) == b }
    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8Error(std::str::Utf8Error);
    #[verifier::external_body]
    pub const fn vfrom_utf8(b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>) ensures r is Ok <==> is_utf8(b@), r is Ok ==> vstd::utf8::encode_utf8((r->Ok_0)@) == b@ { std::str::from_utf8(b) }
    /// safety condition of str::from_utf8_unchecked
    #[verifier::external_body]
    pub const unsafe fn vfrom_utf8_unchecked(b: &[u8]) -> (r: &str) requires is_utf8(b@) ensures vstd::utf8::encode_utf8(r@) == b@ { unsafe { std::str::from_utf8_unchecked(b) } }

    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExSink(std::io::Sink);
    pub assume_specification[f64::from_bits](b: u64) -> (r: f64) ensures r == f64_of_bits(b);
    pub assume_specification[f64::to_bits](f: f64) -> (r: u64) ensures r == bits_of_f64(f);
    /// safety condition of Result::unwrap_unchecked
    pub assume_specification<T, E>[std::result::Result::<T, E>::unwrap_unchecked](r: std::result::Result<T, E>) -> (x: T) requires r is Ok ensures x == r->Ok_0;
    pub assume_specification<T>[std::option::Option::<T>::unwrap_unchecked](r: std::option::Option<T>) -> (x: T) requires r is Some ensures x == r->0;
    pub assume_specification[std::io::sink]() -> (r: std::io::Sink);
    /// `Vec<T>: Extend<&T>`
    pub assume_specification<'a, T: Copy + 'a, A: std::alloc::Allocator, I: IntoIterator<Item = &'a T>> [<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend] (v: &mut std::vec::Vec<T, A>, it: I)
        ensures final(v)@ == old(v)@ + iter_elems(it).map_values(|x: &'a T| *x), final(v)@.len() <= usize::MAX;
    pub broadcast axiom fn axiom_iter_elems_arrref<'a, T, const N: usize>(v: &'a [T; N])
        ensures (#[trigger] iter_elems::<&'a [T; N]>(v)).len() == N, iter_elems::<&'a [T; N]>(v).map_values(|x: &'a T| *x) == v@;
    pub assume_specification[std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
        ensures r@ == vstd::utf8::encode_utf8(s@);
    /// `String::from_utf8_lossy(..).into_owned()`
    pub uninterp spec fn utf8_lossy(b: Seq<u8>) -> Seq<char>;
    pub broadcast axiom fn axiom_utf8_lossy(s: Seq<char>) ensures utf8_lossy(#[trigger] vstd::utf8::encode_utf8(s)) == s;
    #[verifier::external_body]
    pub fn vutf8_lossy_owned(b: &[u8]) -> (r: String) ensures r@ == utf8_lossy(b@) { String::from_utf8_lossy(b).into_owned() }

    /// a hex digit of a nibble, as the formatting traits write it
    pub open spec fn hexchr(n: nat, c: char) -> char { if n < 10 { (48 + n) as char } else if c == 'x' { (87 + n) as char } else { (55 + n) as char } }
    /// `{:x}` with a zero flag (10) or without (1) and a minimal width
    pub open spec fn fmt_hex(zero: int, width: nat, c: char, b: u8) -> Seq<char> {
        let d = if b < 16 { seq![hexchr(b as nat, c)] } else { seq![hexchr((b / 16) as nat, c), hexchr((b % 16) as nat, c)] };
        let pad = if d.len() < width { (width - d.len()) as nat } else { 0 };
        Seq::new(pad, |i: int| if zero == 10 { '0' } else { ' ' }) + d
    }
    pub proof fn hex_two(b: u8) ensures fmt_hex(10, 2, 'x', b) == seq![hexchr((b / 16) as nat, 'x'), hexchr((b % 16) as nat, 'x')] {
        assert(fmt_hex(10, 2, 'x', b) =~= seq![hexchr((b / 16) as nat, 'x'), hexchr((b % 16) as nat, 'x')]);
    }
    /// `write!(s, "{:02x}", b)` on a String
    #[verifier::external_body]
    pub fn vfmt_hex(s: &mut String, zero: u32, width: usize, c: char, b: u8) -> (r: Result<(), std::fmt::Error>)
        ensures r is Ok, final(s)@ == old(s)@ + fmt_hex(zero as int, width as nat, c, b)
    { unimplemented!() }
    pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String) ensures r@ == Seq::<char>::empty();
    /// `Vec::with_capacity` panics when the room asked for exceeds isize::MAX bytes
    #[verifier::external_body]
    pub fn vcap<T>(n: usize) -> (r: Vec<T>) requires n * vstd::layout::size_of::<T>() <= isize::MAX ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
    /// no object is larger than isize::MAX bytes
    pub axiom fn axiom_byte_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX;
    pub axiom fn axiom_byte_vec_len(s: &Vec<u8>) ensures s@.len() <= isize::MAX;
    /// `len` counts the bytes of a text, the elements of a slice
    pub trait VLen { spec fn vn(&self) -> nat; fn vlen(&self) -> (r: usize) ensures r == self.vn(); }
    impl VLen for str { open spec fn vn(&self) -> nat { vstd::utf8::encode_utf8(self@).len() } #[verifier::external_body] fn vlen(&self) -> (r: usize) { self.len() } }
    impl VLen for [u8] { open spec fn vn(&self) -> nat { self@.len() } fn vlen(&self) -> (r: usize) { self.len() } }
    impl VLen for String { open spec fn vn(&self) -> nat { vstd::utf8::encode_utf8(self@).len() } #[verifier::external_body] fn vlen(&self) -> (r: usize) { self.len() } }

    /// what dereferences to bytes, to text (slices, arrays, boxes, counted pointers, Cow)
    pub trait VBytes { spec fn vb(&self) -> Seq<u8>; fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vb(); }
    impl<'a, T: VBytes + ?Sized> VBytes for &'a mut T { open spec fn vb(&self) -> Seq<u8> { (**self).vb() } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { (**self).vto_vec() } }
    #[verifier::external_body] pub fn vvec_into_iter<T>(v: Vec<T>) -> (r: std::vec::IntoIter<T>) ensures iter_elems(r) == v@ { v.into_iter() }
    #[verifier::external_body] pub fn vslice_iter<'a, T>(v: &'a [T]) -> (r: std::slice::Iter<'a, T>) ensures iter_elems(r).map_values(|x: &'a T| *x) == v@ { v.iter() }
    pub assume_specification<T, A: std::alloc::Allocator>[Vec::<T, A>::into_boxed_slice](v: Vec<T, A>) -> (r: Box<[T], A>) ensures r@ == v@;
    pub trait VText { spec fn vt(&self) -> Seq<char>; fn vtext(&self) -> (r: &str) ensures r@ == self.vt(); }
    impl VBytes for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
    impl<const N: usize> VBytes for [u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
    impl<'a, T: VBytes + ?Sized> VBytes for &'a T { open spec fn vb(&self) -> Seq<u8> { (**self).vb() } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { (**self).vto_vec() } }
    impl<T: VBytes + ?Sized> VBytes for Box<T> { open spec fn vb(&self) -> Seq<u8> { (**self).vb() } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { (**self).vto_vec() } }
    impl<T: VBytes + ?Sized> VBytes for std::rc::Rc<T> { open spec fn vb(&self) -> Seq<u8> { (**self).vb() } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { (**self).vto_vec() } }
    impl<T: VBytes + ?Sized> VBytes for std::sync::Arc<T> { open spec fn vb(&self) -> Seq<u8> { (**self).vb() } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { (**self).vto_vec() } }
    impl<'a, T: VBytes + ToOwned + ?Sized> VBytes for std::borrow::Cow<'a, T> { uninterp spec fn vb(&self) -> Seq<u8>; #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { (**self).vto_vec() } }
    impl VText for str { open spec fn vt(&self) -> Seq<char> { self@ } fn vtext(&self) -> (r: &str) { self } }
    impl VText for String { open spec fn vt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vtext(&self) -> (r: &str) { self } }
    impl<'a, T: VText + ?Sized> VText for &'a T { open spec fn vt(&self) -> Seq<char> { (**self).vt() } fn vtext(&self) -> (r: &str) { (**self).vtext() } }
    impl VText for Box<str> { open spec fn vt(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn vtext(&self) -> (r: &str) { self } }
    impl VText for std::rc::Rc<str> { open spec fn vt(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn vtext(&self) -> (r: &str) { self } }
    impl VText for std::sync::Arc<str> { open spec fn vt(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn vtext(&self) -> (r: &str) { self } }
    impl<'a> VText for std::borrow::Cow<'a, str> { uninterp spec fn vt(&self) -> Seq<char>; #[verifier::external_body] fn vtext(&self) -> (r: &str) { self } }
    /// `AsRef::as_ref`
    pub uninterp spec fn asref<T: AsRef<[u8]> + ?Sized>(t: &T) -> Seq<u8>;
    pub uninterp spec fn astext<T: AsRef<str> + ?Sized>(t: &T) -> Seq<char>;
    #[verifier::external_body] pub fn vas_ref<T: AsRef<[u8]> + ?Sized>(t: &T) -> (r: &[u8]) ensures r@ == asref(t) { t.as_ref() }
    #[verifier::external_body] pub fn vas_text<T: AsRef<str> + ?Sized>(t: &T) -> (r: &str) ensures r@ == astext(t) { t.as_ref() }
    pub broadcast axiom fn axiom_astext_str(t: &str) ensures #[trigger] astext::<str>(t) == t@;
    pub broadcast axiom fn axiom_astext_ref(t: &&str) ensures #[trigger] astext::<&str>(t) == t@;
    pub broadcast axiom fn axiom_astext_string(t: &String) ensures #[trigger] astext::<String>(t) == t@;
    pub broadcast axiom fn axiom_astext_cow<'a>(t: &std::borrow::Cow<'a, str>) ensures #[trigger] astext::<std::borrow::Cow<'a, str>>(t) == t.vt();

    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error);
    /// `<Vec<u8> as io::Write>`
    #[verifier::external_body] pub fn viowrite(v: &mut Vec<u8>, b: &[u8]) -> (r: std::io::Result<usize>) ensures r is Ok, r->Ok_0 == b@.len(), final(v)@ == old(v)@ + b@ { std::io::Write::write(v, b) }
    #[verifier::external_body] pub fn vioflush(v: &mut Vec<u8>) -> (r: std::io::Result<()>) ensures r is Ok, final(v)@ == old(v)@ { std::io::Write::flush(v) }

    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    #[verifier::external_body]
    pub fn vstring_from_utf8(b: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>) ensures r is Ok <==> is_utf8(b@), r is Ok ==> vstd::utf8::encode_utf8((r->Ok_0)@) == b@ { String::from_utf8(b) }

    /// `x.into()` as the conversion `T::from(x)`
    pub trait VIntoT: Sized { fn vinto<T: From<Self>>(self) -> (r: T) ensures call_ensures(<T as From<Self>>::from, (self,), r); }
    impl<S> VIntoT for S { fn vinto<T: From<S>>(self) -> (r: T) { T::from(self) } }
    /// the bytes `Into<Vec<u8>>` takes out
    pub uninterp spec fn into_bytes<F: std::convert::Into<Vec<u8>>>(f: F) -> Seq<u8>;
    pub trait VIntoVec: Sized + std::convert::Into<Vec<u8>> { fn vinto_vec(self) -> (r: Vec<u8>) ensures r@ == into_bytes(self); }
    impl<S: std::convert::Into<Vec<u8>>> VIntoVec for S { #[verifier::external_body] fn vinto_vec(self) -> (r: Vec<u8>) { self.into() } }
    pub broadcast axiom fn axiom_into_bytes_vec(v: Vec<u8>) ensures #[trigger] into_bytes::<Vec<u8>>(v) == v@;

    /// base-r digits of n, least significant first (no trailing zeros, [0] for zero)
    pub open spec fn digs(n: nat, r: nat) -> Seq<u8> decreases n via digs_dec { if r < 2 { Seq::empty() } else if n < r { seq![n as u8] } else { seq![(n % r) as u8] + digs(n / r, r) } }
    #[via_fn] proof fn digs_dec(n: nat, r: nat) { if r >= 2 && n >= r { assert(n / r < n) by (nonlinear_arith) requires r >= 2, n >= r; } }
    pub open spec fn leval(s: Seq<u8>, r: nat) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + r * leval(s.skip(1), r) } }
    pub open spec fn bitlen(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + bitlen(n / 2) } }
    pub open spec fn p2(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * p2((k - 1) as nat) } }
    /// num_bigint's integers: what their documentation promises, assumed
    #[verifier::external_body] pub struct BigUint(usize);
    #[verifier::external_body] pub struct BigInt(usize);
    pub enum Sign { Minus, NoSign, Plus }
    impl BigUint {
        pub uninterp spec fn nv(&self) -> nat;
        #[verifier::external_body] pub fn from_radix_le(b: &[u8], r: u32) -> (o: Option<BigUint>)
            requires 2 <= r <= 256
            ensures o is Some <==> forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]) < r, o is Some ==> (o->0).nv() == leval(b@, r as nat) { unimplemented!() }
        #[verifier::external_body] pub fn to_radix_le(&self, r: u32) -> (o: Vec<u8>)
            requires 2 <= r <= 256
            ensures o@ == digs(self.nv(), r as nat) { unimplemented!() }
        #[verifier::external_body] pub fn bits(&self) -> (o: u64) ensures o == bitlen(self.nv()) { unimplemented!() }
        #[verifier::external_body] pub fn from(b: u8) -> (o: BigUint) ensures o.nv() == b { unimplemented!() }
        #[verifier::external_body] pub fn vshl_assign(&mut self, k: u32) ensures final(self).nv() == old(self).nv() * p2(k as nat) { unimplemented!() }
        /// or-ing into cleared low bits adds
        #[verifier::external_body] pub fn vor_assign(&mut self, o: BigUint) ensures forall|k: nat| #![trigger p2(k)] old(self).nv() % p2(k) == 0 && o.nv() < p2(k) ==> final(self).nv() == old(self).nv() + o.nv() { unimplemented!() }
    }
    impl BigInt {
        pub uninterp spec fn zv(&self) -> int;
        #[verifier::external_body] pub fn from_biguint(s: Sign, n: BigUint) -> (o: BigInt) ensures o.zv() == (match s { Sign::Plus => n.nv() as int, Sign::Minus => -(n.nv() as int), Sign::NoSign => 0 }) { unimplemented!() }
        #[verifier::external_body] pub fn into_parts(self) -> (o: (Sign, BigUint))
            ensures o.1.nv() == (if self.zv() < 0 { -self.zv() } else { self.zv() }), o.0 is Minus <==> self.zv() < 0, o.0 is NoSign <==> self.zv() == 0 { unimplemented!() }
        #[verifier::external_body] pub fn bits(&self) -> (o: u64) ensures o == bitlen(if self.zv() < 0 { (-self.zv()) as nat } else { self.zv() as nat }) { unimplemented!() }
    }
    impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (o: BigInt) ensures o == *self { unimplemented!() } }
    impl Clone for BigUint { #[verifier::external_body] fn clone(&self) -> (o: BigUint) ensures o == *self { unimplemented!() } }
    pub struct TryFromBigIntError;
    pub trait VBig { spec fn bigv(&self) -> int; }
    impl VBig for BigUint { open spec fn bigv(&self) -> int { self.nv() as int } }
    impl VBig for BigInt { open spec fn bigv(&self) -> int { self.zv() } }
    /// num_bigint's conversions to the machine integers
    #[verifier::external_body]
    pub fn vbig_try<B: VBig, T: VInt>(x: B) -> (r: Result<T, TryFromBigIntError>)
        ensures (r is Ok) == vin::<T>(x.bigv()), r is Ok ==> (r->Ok_0).vi() == x.bigv() { unimplemented!() }
    /// num_integer's `Integer::div_ceil` at usize
    pub struct Integer;
    impl Integer { #[verifier::external_body] pub fn div_ceil(a: &usize, b: &usize) -> (r: usize) requires *b > 0 ensures r == (*a + *b - 1) / (*b as int) { unimplemented!() } }
    #[verifier::external_body] pub fn vmax_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { std::cmp::max(a, b) }

    /// Safety conditions of slice::get_unchecked as the standard library documents them.
    pub trait GetUnchecked<T> {
        spec fn gview(&self) -> Seq<T>;
        unsafe fn vget_at(&self, i: usize) -> (r: &T)
            requires i < self.gview().len(),
            ensures *r == self.gview()[i as int];
        unsafe fn vget_mut_at(&mut self, i: usize) -> (r: &mut T)
            requires i < old(self).gview().len(),
            ensures *r == old(self).gview()[i as int], final(self).gview() == old(self).gview().update(i as int, *final(r));
        unsafe fn vget_range(&self, a: usize, b: usize) -> (r: &[T])
            requires a <= b <= self.gview().len(),
            ensures r@ == self.gview().subrange(a as int, b as int);
        unsafe fn vget_to(&self, b: usize) -> (r: &[T])
            requires b <= self.gview().len(),
            ensures r@ == self.gview().subrange(0, b as int);
        unsafe fn vget_from(&self, a: usize) -> (r: &[T])
            requires a <= self.gview().len(),
            ensures r@ == self.gview().subrange(a as int, self.gview().len() as int);
    }
    impl<T> GetUnchecked<T> for [T] {
        open spec fn gview(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        unsafe fn vget_at(&self, i: usize) -> (r: &T) { self.get_unchecked(i) }
        #[verifier::external_body]
        unsafe fn vget_mut_at(&mut self, i: usize) -> (r: &mut T) { self.get_unchecked_mut(i) }
        #[verifier::external_body]
        unsafe fn vget_range(&self, a: usize, b: usize) -> (r: &[T]) { self.get_unchecked(a..b) }
        #[verifier::external_body]
        unsafe fn vget_to(&self, b: usize) -> (r: &[T]) { self.get_unchecked(..b) }
        #[verifier::external_body]
        unsafe fn vget_from(&self, a: usize) -> (r: &[T]) { self.get_unchecked(a..) }
    }
    }
}
#[allow(unused_imports)] use trusted::*;
