=== prelude
/// contracts of standard-library functions that vstd leaves out (trusted; transcribed from the library's documentation)
pub mod vstdx {
    use vstd::prelude::*;
    verus! {
    // Option
    pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
        requires o is Some ==> f.requires((o->0,))
        ensures o is Some ==> f.ensures((o->0,), r), o is None ==> r == d;
    pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
        requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(())
        ensures o is Some ==> f.ensures((o->0,), r), o is None ==> d.ensures((), r);
    pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
        ensures r == (if o is Some { o } else { p });
    pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
        requires o is None ==> f.requires(())
        ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
    pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
        ensures r == (if o is Some { p } else { None::<U> });
    pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
        ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });
    pub assume_specification<T, U> [Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
        ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None::<(T, U)> });
    pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: F) -> (r: Option<T>)
        requires o is Some ==> f.requires((&o->0,))
        ensures o is None ==> r is None, o is Some ==> (r == o && f.ensures((&o->0,), true)) || (r is None && f.ensures((&o->0,), false));
    pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
        requires o is Some ==> f.requires((o->0,))
        ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
    pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
        requires o is Some ==> f.requires((o->0,))
        ensures o is None ==> r, o is Some ==> f.ensures((o->0,), r);
    pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>)
        ensures r == *old(o), *final(o) == Some(x);
    // Result
    pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
        requires o is Ok ==> f.requires((o->Ok_0,))
        ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> r == Err::<U, E>(o->Err_0);
    pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>> [Result::<T, E>::or_else] (o: Result<T, E>, f: O) -> (r: Result<T, F>)
        requires o is Err ==> f.requires((o->Err_0,))
        ensures o is Err ==> f.ensures((o->Err_0,), r), o is Ok ==> r == Ok::<T, F>(o->Ok_0);
    pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
        ensures r == (if o is Ok { o->Ok_0 } else { d });
    pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
        requires o is Err ==> f.requires((o->Err_0,))
        ensures o is Ok ==> r == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
    pub assume_specification<T, E, U, F: FnOnce(T) -> U> [Result::<T, E>::map_or] (o: Result<T, E>, d: U, f: F) -> (r: U)
        requires o is Ok ==> f.requires((o->Ok_0,))
        ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> r == d;
    pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [Result::<T, E>::map_or_else] (o: Result<T, E>, d: D, f: F) -> (r: U)
        requires o is Ok ==> f.requires((o->Ok_0,)), o is Err ==> d.requires((o->Err_0,))
        ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> d.ensures((o->Err_0,), r);
    pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
        requires o is Ok ==> f.requires((o->Ok_0,))
        ensures o is Err ==> !r, o is Ok ==> f.ensures((o->Ok_0,), r);
    pub assume_specification<T, E, F: FnOnce(E) -> bool> [Result::<T, E>::is_err_and] (o: Result<T, E>, f: F) -> (r: bool)
        requires o is Err ==> f.requires((o->Err_0,))
        ensures o is Ok ==> !r, o is Err ==> f.ensures((o->Err_0,), r);
    pub assume_specification<T, E, F> [Result::<T, E>::or] (o: Result<T, E>, p: Result<T, F>) -> (r: Result<T, F>)
        ensures r == (if o is Ok { Ok::<T, F>(o->Ok_0) } else { p });
    pub assume_specification<T, E, U> [Result::<T, E>::and] (o: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
        ensures r == (if o is Ok { p } else { Err::<U, E>(o->Err_0) });
    // slices and vectors
    pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
        ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *((r->0).0) == s@.last() && (r->0).1@ == s@.drop_last();
    pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
        ensures final(s)@ == old(s)@.reverse();
    pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
        requires i < old(s)@.len(), j < old(s)@.len()
        ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
    /// the room a vector has is any number no smaller than its length
    pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::capacity] (v: &Vec<T, A>) -> (r: usize)
        ensures r >= v@.len();
    pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::reserve_exact] (v: &mut Vec<T, A>, n: usize)
        ensures final(v)@ == old(v)@;
    pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>)
        ensures final(v)@ == old(v)@;
    pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>)
        ensures crate::trusted::cloned_seq(s@, r@);
    // integers
    pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
    pub open spec fn wrapu(x: int, m: int) -> int { x % m }
    pub assume_specification[u8::abs_diff](a: u8, b: u8) -> (r: u8) ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[u16::abs_diff](a: u16, b: u16) -> (r: u16) ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[u32::abs_diff](a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[u64::abs_diff](a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[u32::div_ceil](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == (a + b - 1) / (b as int);
    pub assume_specification[u64::div_ceil](a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == (a + b - 1) / (b as int);
    pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a + b - 1) / (b as int);
    pub assume_specification[u8::overflowing_add](a: u8, b: u8) -> (r: (u8, bool)) ensures r.0 as int == wrapu(a + b, 0x100), r.1 == (a + b > u8::MAX);
    pub assume_specification[u16::overflowing_add](a: u16, b: u16) -> (r: (u16, bool)) ensures r.0 as int == wrapu(a + b, 0x1_0000), r.1 == (a + b > u16::MAX);
    pub assume_specification[u32::overflowing_add](a: u32, b: u32) -> (r: (u32, bool)) ensures r.0 as int == wrapu(a + b, 0x1_0000_0000), r.1 == (a + b > u32::MAX);
    pub assume_specification[u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 as int == wrapu(a + b, 0x1_0000_0000_0000_0000), r.1 == (a + b > u64::MAX);
    pub assume_specification[usize::overflowing_add](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 as int == wrapu(a + b, usize::MAX + 1), r.1 == (a + b > usize::MAX);
    pub assume_specification[u8::overflowing_sub](a: u8, b: u8) -> (r: (u8, bool)) ensures r.0 as int == wrapu(a - b, 0x100), r.1 == (a < b);
    pub assume_specification[u16::overflowing_sub](a: u16, b: u16) -> (r: (u16, bool)) ensures r.0 as int == wrapu(a - b, 0x1_0000), r.1 == (a < b);
    pub assume_specification[u32::overflowing_sub](a: u32, b: u32) -> (r: (u32, bool)) ensures r.0 as int == wrapu(a - b, 0x1_0000_0000), r.1 == (a < b);
    pub assume_specification[u64::overflowing_sub](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 as int == wrapu(a - b, 0x1_0000_0000_0000_0000), r.1 == (a < b);
    pub assume_specification[usize::overflowing_sub](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 as int == wrapu(a - b, usize::MAX + 1), r.1 == (a < b);
    pub assume_specification[i8::unsigned_abs](a: i8) -> (r: u8) ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[i16::unsigned_abs](a: i16) -> (r: u16) ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[i32::unsigned_abs](a: i32) -> (r: u32) ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[i64::unsigned_abs](a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[i8::is_negative](a: i8) -> (r: bool) ensures r == (a < 0);
    pub assume_specification[i16::is_negative](a: i16) -> (r: bool) ensures r == (a < 0);
    pub assume_specification[i32::is_negative](a: i32) -> (r: bool) ensures r == (a < 0);
    pub assume_specification[i64::is_negative](a: i64) -> (r: bool) ensures r == (a < 0);
    pub assume_specification[i32::abs](a: i32) -> (r: i32) requires a != i32::MIN ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[i64::abs](a: i64) -> (r: i64) requires a != i64::MIN ensures r == (if a < 0 { -a } else { a as int });
    // characters
    pub assume_specification[u8::is_ascii_digit](c: &u8) -> (r: bool) ensures r == (0x30 <= *c <= 0x39);
    pub assume_specification[u8::is_ascii_hexdigit](c: &u8) -> (r: bool) ensures r == (0x30 <= *c <= 0x39 || 0x41 <= *c <= 0x46 || 0x61 <= *c <= 0x66);
    pub assume_specification[u8::is_ascii_lowercase](c: &u8) -> (r: bool) ensures r == (0x61 <= *c <= 0x7a);
    pub assume_specification[u8::is_ascii_uppercase](c: &u8) -> (r: bool) ensures r == (0x41 <= *c <= 0x5a);
    pub assume_specification[u8::is_ascii_alphabetic](c: &u8) -> (r: bool) ensures r == (0x41 <= *c <= 0x5a || 0x61 <= *c <= 0x7a);
    pub assume_specification[u8::is_ascii](c: &u8) -> (r: bool) ensures r == (*c < 0x80);
    pub assume_specification[u8::to_ascii_lowercase](c: &u8) -> (r: u8) ensures r == (if 0x41 <= *c <= 0x5a { *c + 0x20 } else { *c as int });
    pub assume_specification[u8::to_ascii_uppercase](c: &u8) -> (r: u8) ensures r == (if 0x61 <= *c <= 0x7a { *c - 0x20 } else { *c as int });
    /// value of a digit in a radix up to 36
    pub open spec fn digit_of(c: char, radix: u32) -> Option<u32> {
        let n = c as u32;
        let d = if 0x30 <= n <= 0x39 { n - 0x30 } else if 0x41 <= n <= 0x5a { n - 0x41 + 10 } else if 0x61 <= n <= 0x7a { n - 0x61 + 10 } else { 99 };
        if d < radix { Some(d as u32) } else { None }
    }
    pub assume_specification[char::to_digit](c: char, radix: u32) -> (r: Option<u32>) requires 2 <= radix <= 36 ensures r == digit_of(c, radix);
    } // verus
}
