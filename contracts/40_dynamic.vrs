=== mod error
=== only enum WidthError
=== mod dynamic
use vstd::std_specs::convert::TryFromSpecImpl;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
=== only struct Dynamic
=== only struct VPadded
=== only impl Dynamic<S,T>
=== only impl Encode for Dynamic<S,T>
=== only impl Decode for Dynamic<S,T>
=== only impl Estimable for Dynamic<S,T>
=== only impl VPadded<T,N>
=== only impl Encode for VPadded<T,N>
=== only impl Decode for VPadded<T,N>
=== only impl Estimable for VPadded<T,N>
=== only impl PartialOrd for Dynamic<S,T>
=== only impl Ord for Dynamic<S,T>
=== only impl PartialEq for Dynamic<S,T>
=== only impl Borrow<T> for Dynamic<S,T>
=== only impl AsRef<T> for Dynamic<S,T>
=== only impl AsMut<T> for Dynamic<S,T>
=== only impl From<T> for Dynamic<S,T>
=== only impl From<T> for VPadded<T,N>
=== derive Dynamic
=== derive VPadded
/// the prefix stating n bytes
pub open spec fn pref<S: LenPref>(n: nat) -> S::V { (<S as TryFromSpec<usize>>::try_from_spec(n as usize)->Ok_0).lv() }
pub proof fn pref_ok<S: LenPref>(n: nat)
    requires n <= S::plim()
    ensures S::lok(pref::<S>(n)), S::plen(pref::<S>(n)) == n, S::lenc(pref::<S>(n)).len() == S::pwidth(), n <= usize::MAX,
{ S::plaws(); assert((<S as TryFromSpec<usize>>::try_from_spec(n as usize)) is Ok); }
impl<S: LenPref, T: Layout> Layout for Dynamic<S, T> {
    type V = T::V;
    open spec fn lv(&self) -> T::V { self.contents.lv() }
    open spec fn lok(v: T::V) -> bool { T::lok(v) && T::lenc(v).len() <= S::plim() }
    open spec fn lenc(v: T::V) -> Seq<u8> { S::lenc(pref::<S>(T::lenc(v).len())) + T::lenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(T::V, nat)> {
        match S::ldec(b) {
            Some((pv, n)) => {
                let l = S::plen(pv);
                if n + l <= b.len() {
                    match T::ldec(b.skip(n as int).take(l as int)) { Some((v, k)) => if k == l { Some((v, n + l)) } else { None }, None => None }
                } else { None }
            }
            None => None,
        }
    }
    open spec fn dterm() -> bool { T::dterm() }
    open spec fn ltail(v: T::V, k: nat) -> bool { T::ltail(v, 0) }
    proof fn dec_bound(b: Seq<u8>) { S::plaws(); }
    proof fn rt(v: T::V, t: Seq<u8>) {
        let l = T::lenc(v).len();
        let p = S::lenc(pref::<S>(l));
        let b = Self::lenc(v) + t;
        S::plaws();
        pref_ok::<S>(l);
        assert(b =~= p + (T::lenc(v) + t));
        S::rt(pref::<S>(l), T::lenc(v) + t);
        assert(b.skip(p.len() as int).take(l as int) =~= T::lenc(v) + Seq::<u8>::empty());
        T::rt(v, Seq::<u8>::empty());
    }
}
/// the type the layout itself refers to
impl<T: Layout, const N: usize> Layout for VPadded<T, N> {
    type V = T::V;
    open spec fn lv(&self) -> T::V { self.0.lv() }
    open spec fn lok(v: T::V) -> bool { T::lok(v) }
    open spec fn lenc(v: T::V) -> Seq<u8> { T::lenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(T::V, nat)> {
        if b.len() < N { None } else {
            match T::ldec(b.take(b.len() - N)) { Some((v, k)) => if k == b.len() - N { Some((v, k)) } else { None }, None => None }
        }
    }
    open spec fn dterm() -> bool { T::dterm() }
    open spec fn ltail(v: T::V, k: nat) -> bool { k == N && T::ltail(v, 0) }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: T::V, t: Seq<u8>) {
        assert((T::lenc(v) + t).take(T::lenc(v).len() as int) =~= T::lenc(v) + Seq::<u8>::empty());
        T::rt(v, Seq::<u8>::empty());
    }
}
=== in impl Dynamic<S,T>
=== fn new -> r
    ensures r.contents == contents
=== fn into_inner -> r
    ensures r == self.contents
=== fn length_prefix -> r
    requires T::lok(self.contents.lv()), T::lenc(self.contents.lv()).len() <= usize::MAX
    ensures r is Ok <==> T::lenc(self.contents.lv()).len() <= S::plim(),
        r is Ok ==> S::lok(r->Ok_0.lv()) && S::plen(r->Ok_0.lv()) == T::lenc(self.contents.lv()).len(),
=== body
    proof { S::plaws(); }
=== in impl Encode for Dynamic<S,T>
=== fn write_to
=== body
    proof { S::plaws(); pref_ok::<S>(T::lenc(self.contents.lv()).len()); }
    let ghost b0 = buf.tv();
=== in impl Decode for Dynamic<S,T>
=== fn parse
=== body
    proof {
        S::plaws();
        let s0 = p.segs(); let b = s0.last();
        if S::ldec(b) is Some {
            let (pv, n) = S::ldec(b)->0; let l = S::plen(pv);
            crate::parse::adv_adv(s0, n as int); crate::parse::win(adv(s0, n as int));
            if n + l <= b.len() { T::dec_bound(b.skip(n as int).take(l as int)); }
        }
    }
=== in impl Estimable for Dynamic<S,T>
=== fn KNOWN
=== body
    proof {
        S::plaws();
        assert forall|v: T::V, m: nat, n: nat| #![trigger Self::lenc(v), crate::conv::len::unif::<S>(m), crate::conv::len::unif::<T>(n)]
            crate::conv::len::unif::<S>(m) && crate::conv::len::unif::<T>(n) && Self::lok(v) implies Self::lenc(v).len() == m + n by { pref_ok::<S>(T::lenc(v).len()); }
    }
=== fn unknown
=== body
    proof { S::plaws(); pref_ok::<S>(T::lenc(self.contents.lv()).len()); }
=== in impl VPadded<T,N>
=== fn new -> r
    ensures r.0 == val
=== fn into_inner -> r
    ensures r == self.0
=== in impl Encode for VPadded<T,N>
=== fn write_to
=== in impl Decode for VPadded<T,N>
=== fn parse
=== body
    proof {
        let s0 = p.segs(); let b = s0.last();
        crate::parse::win(s0);
        if N <= b.len() { T::dec_bound(b.take(b.len() - N)); }
    }
=== in impl Estimable for VPadded<T,N>
=== fn unknown
=== mod dynamic
=== in impl PartialEq for Dynamic<S,T>
=== fn eq -> r freeonly
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == self.contents.eq_spec(&other.contents)
=== in impl PartialOrd for Dynamic<S,T>
=== fn partial_cmp -> r freeonly
    ensures <T as PartialOrdSpec>::obeys_partial_cmp_spec() ==> r == self.contents.partial_cmp_spec(&other.contents)
=== in impl Ord for Dynamic<S,T>
=== fn cmp -> r freeonly
    ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == self.contents.cmp_spec(&other.contents)
=== in impl Borrow<T> for Dynamic<S,T>
=== fn borrow -> r freeonly
    ensures *r == self.contents
=== in impl AsRef<T> for Dynamic<S,T>
=== fn as_ref -> r freeonly
    ensures *r == self.contents
=== in impl AsMut<T> for Dynamic<S,T>
=== fn as_mut -> r freeonly
    ensures *r == old(self).contents, *final(r) == final(self).contents
=== in impl From<T> for Dynamic<S,T>
=== fn from -> r freeonly
    ensures r.contents == val
=== in impl From<T> for VPadded<T,N>
=== fn from -> r freeonly
    ensures r.0 == val
