=== mod dynamic
use crate::trusted::*;
use crate::parse::{ParserTag, ParserView, pok, adv};
use crate::conv::Layout;
use vstd::std_specs::convert::{IntoSpec, TryFromSpec};
=== only trait LenPref
=== only impl LenPref for u8
=== only impl LenPref for u16
=== drop fn trait:LenPref::suffix
=== in trait LenPref
=== hoist parse_as_usize into LenPrefParse
=== in trait LenPref
    /// the lengths a prefix can state, and the length each prefix value states
    spec fn plim() -> nat;
    spec fn plen(v: Self::V) -> nat;
    proof fn plaws()
        ensures
            Self::dterm(), 1 <= Self::pwidth() <= 8, Self::plim() < 0x1_0000_0000,
            exists|v: Self::V| Self::lok(v),
            crate::conv::len::unif::<Self>(Self::pwidth()),
            <Self as IntoSpec<usize>>::obeys_into_spec(),
            forall|s: Self| Self::lok(s.lv()) ==> #[trigger] <Self as IntoSpec<usize>>::into_spec(s) == Self::plen(s.lv()),
            <Self as TryFromSpec<usize>>::obeys_try_from_spec(),
            forall|n: usize| (#[trigger] <Self as TryFromSpec<usize>>::try_from_spec(n)) is Ok <==> n <= Self::plim(),
            forall|n: usize| (#[trigger] <Self as TryFromSpec<usize>>::try_from_spec(n)) is Ok ==> Self::lok((Self::try_from_spec(n)->Ok_0).lv()) && Self::plen((Self::try_from_spec(n)->Ok_0).lv()) == n,
            forall|v: Self::V, k: nat| Self::lok(v) ==> #[trigger] Self::ltail(v, k),
            forall|v: Self::V| #[trigger] Self::lok(v) ==> Self::plen(v) <= Self::plim(),
            forall|b: Seq<u8>| #![trigger Self::ldec(b)] match Self::ldec(b) {
                Some((v, n)) => n == Self::pwidth() && b.len() >= n && Self::lok(v) && Self::plen(v) <= Self::plim() && Self::praw(b.take(n as int)) == Some(Self::plen(v)),
                None => b.len() < Self::pwidth() || Self::praw(b.take(Self::pwidth() as int)) is None,
            };
=== fn parse_as_usize -> r
    requires pok(old(p))
    ensures pok(final(p)),
        ({ let b = old(p).segs().last(); let w = Self::pwidth();
           &&& r is Ok <==> w <= b.len() && Self::praw(b.take(w as int)) is Some
           &&& r is Ok ==> r->Ok_0 == Self::praw(b.take(w as int))->0 && final(p).segs() == adv(old(p).segs(), w as int) })
=== body
    proof { Self::plaws(); }
    let vl = Self::LEN();
    proof { let v = choose|v: Self::V| Self::lok(v); assert(Self::lenc(v).len() == vl); assert(vl == Self::pwidth()); }
=== rw p\.consume\(Self::LEN\(\)\) => p.consume(vl)
=== fn max_len -> r
    ensures r == Self::plim()
=== each T,N,M: u8,1,0xff | u16,2,0xffff
=== in impl LenPref for ${T}
    open spec fn plim() -> nat { ${M} }
    open spec fn plen(v: ${T}) -> nat { v as nat }
    proof fn plaws() {
        assert(Self::lok(0));
        assert forall|v: ${T}| (#[trigger] Self::lenc(v)).len() == ${N} by { tc_len(v as int, ${N}); }
    }
=== fn max_len
=== end
=== mod dynamic::private
use crate::trusted::*;
=== in trait Sealed
    spec fn pwidth() -> nat;
    spec fn praw(b: Seq<u8>) -> Option<nat>;
=== fn marshall_usize -> r
    requires bytes@.len() == Self::pwidth()
    ensures r is Ok <==> Self::praw(bytes@) is Some, r is Ok ==> r->Ok_0 == Self::praw(bytes@)->0
=== each T,N: u8,1 | u16,2
=== in impl Sealed for ${T}
    open spec fn pwidth() -> nat { ${N} }
    open spec fn praw(b: Seq<u8>) -> Option<nat> { Some(be_${T}(b) as nat) }
=== fn marshall_usize
=== rw <\[u8; \d+\]>::try_from\( => crate::trusted::vslice_to_array::<${N}>(
=== rw Self::from_be_bytes => crate::trusted::from_be_${T}
=== end
