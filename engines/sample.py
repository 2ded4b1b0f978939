"""Instances of the crate's generative macros and derives (cstyle!, data!, derive(Encode, Decode, Estimable,
FixedLength)), with contracts.

The macros cannot be put under contract themselves; what the compiler makes of them can.  The table below
declares types in the shapes the code generator emits.  From each declaration this file derives (1) the macro
invocation, which /repo's macros expand on every run, and (2) the contract, from the declaration alone."""
import os, re, subprocess

# kind, name, ...
DECLS = [
    ("enum", "EByte", "u8", [("Two", 2), ("Three", 3), ("Zero", 0), ("Top", 255)]),
    ("enum", "EOne", "u8", [("Only", 17)]),
    ("enum", "EShort", "u16", [("A", 258), ("B", 1), ("C", 65535)]),
    ("enum", "EWide", "u32", [("Lo", 0), ("Hi", 4294967295), ("Mixed", 16909060)]),
    ("union", "UMsg", "u8", "umsg", [
        (7, "Unit", None),
        (0, "Num", ("tuple", ["u16"])),
        (255, "Pair", ("tuple", ["u8", "super::EByte"])),
        (3, "Rec", ("record", [("flag", "bool"), ("body", "Dynamic<u30, Bytes>"), ("n", "i64")])),
        (4, "Flt", ("record", [("x", "f64")])),
    ]),
    ("union", "UShort", "u16", "ushort", [
        (513, "Big", ("tuple", ["N"])),
        (2, "Nested", ("tuple", ["super::UMsg"])),
        (65535, "Empty", None),
    ]),
    ("record", "RHeader", ("record", [("level", "i32"), ("proto", "u8"), ("hash", "FixedBytes<32>"), ("when", "i64")])),
    ("record", "RBlock", ("record", [("kind", "EByte"), ("header", "Dynamic<u16, RHeader>"), ("maybe", "Option<N>"), ("ops", "Sequence<Dynamic<u30, Bytes>>")])),
    ("record", "RWrap", ("tuple", ["Dynamic<u8, UShort>"])),
    ("record", "RTriple", ("tuple", ["u16", "Z", "u8"])),
    ("record", "RNothing", None),
    ("fixed", "RFixed", ("record", [("b", "u16"), ("a", "u64"), ("c", "EWide")])),
]
MODULE = "vsample"


def fields(shape):
    """[(accessor, type)]"""
    if shape is None:
        return []
    return [(str(i), t) for i, t in enumerate(shape[1])] if shape[0] == "tuple" else list(shape[1])


def decl_shape(shape):
    if shape is None:
        return ""
    if shape[0] == "tuple":
        return "(" + ", ".join("pub " + t for t in shape[1]) + ")"
    return " { " + ", ".join("pub %s: %s" % f for f in shape[1]) + " }"


def lib():
    out = ["#![allow(dead_code)]\nuse tedium::{cstyle, data, Bytes, Decode, Dynamic, Encode, Estimable, FixedBytes, FixedLength, Sequence, u30, N, Z};\n"]
    for d in DECLS:
        if d[0] == "enum":
            out.append("cstyle!(%s, %s, { %s });\n" % (d[1], d[2], ", ".join("%s = %d" % v for v in d[3])))
        elif d[0] == "union":
            out.append("data!(%s, %s, %s, { %s });\n" % (d[1], d[2], d[3], " ".join("%d => %s%s," % (t, n, decl_shape(s)) for t, n, s in d[4])))
        else:
            out.append("#[derive(Encode, Decode, %s)]\npub struct %s%s%s\n" % (
                "Estimable" if d[0] == "record" else "FixedLength", d[1], decl_shape(d[2]), "" if d[2] and d[2][0] == "record" else ";"))
    return "".join(out)


# ------------------------------------------------------------------ contracts from the declarations

ROOT = """=== mod 
=== only enum NoneHere
=== drop /^use ::(decode_derive|encode_derive|estimable_derive|lazy_static)::
=== drop /^use .*rust_2021
"""
HEAD = """
use crate::trusted::*;
use crate::conv::*;
use crate::parse::{ParserTag, pok, adv};
=== drop /^use .*(cstyle|data)$
=== drop /^impl Hash
"""

CAT = HEAD + """
/// two layouts one after the other
pub struct Cat<A, B>(pub A, pub B);
impl<A: Layout, B: Layout> Layout for Cat<A, B> {
    type V = (A::V, B::V);
    open spec fn lv(&self) -> (A::V, B::V) { (self.0.lv(), self.1.lv()) }
    open spec fn lok(v: (A::V, B::V)) -> bool { A::lok(v.0) && B::lok(v.1) }
    open spec fn lenc(v: (A::V, B::V)) -> Seq<u8> { A::lenc(v.0) + B::lenc(v.1) }
    open spec fn ldec(b: Seq<u8>) -> Option<((A::V, B::V), nat)> {
        match A::ldec(b) {
            Some((x, n)) => match B::ldec(b.skip(n as int)) { Some((y, m)) => Some(((x, y), n + m)), None => None },
            None => None,
        }
    }
    open spec fn dterm() -> bool { A::dterm() && B::dterm() }
    open spec fn ltail(v: (A::V, B::V), k: nat) -> bool { A::ltail(v.0, B::lenc(v.1).len() + k) && B::ltail(v.1, k) }
    proof fn dec_bound(b: Seq<u8>) {
        A::dec_bound(b);
        if A::ldec(b) is Some { B::dec_bound(b.skip((A::ldec(b)->0).1 as int)); }
    }
    proof fn rt(v: (A::V, B::V), t: Seq<u8>) {
        assert(A::lenc(v.0) + B::lenc(v.1) + t =~= A::lenc(v.0) + (B::lenc(v.1) + t));
        A::rt(v.0, B::lenc(v.1) + t);
        assert((A::lenc(v.0) + (B::lenc(v.1) + t)).skip(A::lenc(v.0).len() as int) =~= B::lenc(v.1) + t);
        B::rt(v.1, t);
    }
}
/// the layout of no bytes
pub struct Nil;
impl Layout for Nil {
    type V = ();
    open spec fn lv(&self) -> () { () }
    open spec fn lok(v: ()) -> bool { true }
    open spec fn lenc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn ldec(b: Seq<u8>) -> Option<((), nat)> { Some(((), 0)) }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: (), k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { }
    proof fn rt(v: (), t: Seq<u8>) { }
}
/// reading the first part, then the second from where it left off
pub proof fn cat_dec<A: Layout, B: Layout>(s: Seq<Seq<u8>>)
    requires s.len() > 0, A::dterm(), B::dterm()
    ensures A::ldec(s.last()) is Some ==> ({ let n = (A::ldec(s.last())->0).1; let b = s.last();
        &&& n <= b.len() && adv(s, n as int).last() == b.skip(n as int) && adv(s, n as int).len() == s.len()
        &&& B::ldec(b.skip(n as int)) is Some ==> ({ let m = (B::ldec(b.skip(n as int))->0).1; m <= b.len() - n && adv(adv(s, n as int), m as int) == adv(s, (n + m) as int) }) })
{
    A::dec_bound(s.last());
    if A::ldec(s.last()) is Some {
        let n = (A::ldec(s.last())->0).1;
        crate::parse::adv_adv(s, n as int);
        B::dec_bound(s.last().skip(n as int));
    }
}
"""


def cat(ts):
    if not ts:
        return "crate::vsample::Nil"
    return ts[0] if len(ts) == 1 else "crate::vsample::Cat<%s, %s>" % (ts[0], cat(ts[1:]))


def nest(es):
    if not es:
        return "()"
    return es[0] if len(es) == 1 else "(%s, %s)" % (es[0], nest(es[1:]))


def record(name, shape, kind):
    fs = fields(shape)
    ts = [t for _, t in fs]
    L = cat(ts)
    o = []
    o.append("""impl Layout for %(n)s {
    type V = <%(L)s as Layout>::V;
    open spec fn lv(&self) -> Self::V { %(lv)s }
    open spec fn lok(v: Self::V) -> bool { <%(L)s as Layout>::lok(v) }
    open spec fn lenc(v: Self::V) -> Seq<u8> { <%(L)s as Layout>::lenc(v) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Self::V, nat)> { <%(L)s as Layout>::ldec(b) }
    open spec fn dterm() -> bool { <%(L)s as Layout>::dterm() }
    open spec fn ltail(v: Self::V, k: nat) -> bool { <%(L)s as Layout>::ltail(v, k) }
    proof fn dec_bound(b: Seq<u8>) { <%(L)s as Layout>::dec_bound(b); }
    proof fn rt(v: Self::V, t: Seq<u8>) { <%(L)s as Layout>::rt(v, t); }
}
""" % {"n": name, "L": L, "lv": nest(["self.%s.lv()" % a for a, _ in fs])})
    # encode
    o.append("=== in impl Encode for %s\n=== fn write_to\n" % name)
    o.append("=== body\n    proof { assert(buf.tv()%s =~= buf.tv() + Self::lenc(self.lv())); }\n" % "".join(
        " + <%s as Layout>::lenc(self.%s.lv())" % (t, a) for a, t in fs))
    # decode: where each field starts
    o.append("=== in impl Decode for %s\n=== fn parse\n" % name)
    if not fs:
        o.append("=== body\n    proof { assert forall|s: Seq<Seq<u8>>| s.len() > 0 implies #[trigger] adv(s, 0) == s by { assert(s.last().skip(0) =~= s.last()); assert(adv(s, 0) =~= s); } }\n")
    if len(fs) > 1:
        o.append("=== body\n    proof { let s0 = p.segs(); let b = s0.last(); ")
        for i in range(len(ts) - 1):
            o.append("crate::vsample::cat_dec::<%s, %s>(s%d); " % (ts[i], cat(ts[i + 1:]), i))
            if i < len(ts) - 2:
                o.append("if <%s as Layout>::ldec(s%d.last()) is Some { let s%d = adv(s%d, (<%s as Layout>::ldec(s%d.last())->0).1 as int); " % (ts[i], i, i + 1, i, ts[i], i))
        o.append("}" * max(0, len(ts) - 2) + " }\n")
    if kind == "fixed" or not fs:
        o.append("=== in impl FixedLength for %s\n=== fn LEN\n" % name)
    else:
        o.append("=== in impl Estimable for %s\n=== fn KNOWN\n=== fn unknown\n" % name)
    return "".join(o)


def queries(name, w, vs, pat):
    """vs: [(variant, tag)]"""
    n = len(vs)
    return """impl %(n)s {
    /// the declared tag of the variant
    pub open spec fn vtag(&self) -> %(w)s { match *self { %(tag)s } }
    pub open spec fn vdeclared(t: %(w)s) -> bool { %(decl)s }
    pub open spec fn vname(t: %(w)s) -> Seq<char> { %(nm)s }
    pub open spec fn vtags() -> Seq<%(w)s> { seq![%(tags)s] }
}
=== in impl %(n)s
=== fn get_tagval -> r
    ensures r == self.vtag()
=== fn iter_tags -> r
    ensures iter_elems(r) =~= Self::vtags()
=== rw (\\[[^\\]]*\\])\\.into_iter\\(\\) => varr_into_iter(\\1)
=== fn is_valid_tag -> r
    ensures r == Self::vdeclared(val)
=== fn get_name -> r
    ensures r is Some <==> Self::vdeclared(val), r is Some ==> r->0@ == Self::vname(val)
""" % {"n": name, "w": w, "tag": ", ".join("%s::%s%s => %d" % (name, v, pat, t) for v, t in vs),
       "decl": " || ".join("t == %d" % t for v, t in vs),
       "nm": " else ".join("if t == %d { \"%s\"@ }" % (t, v) for v, t in vs) + " else { Seq::empty() }",
       "tags": ", ".join("%d%s" % (t, w) for v, t in vs)}


def taghint(w, n):
    return "proof { assert forall|va: [%s; %d]| #![trigger va@] va@.len() == %d && %s by { } }" % (
        w, n, n, " && ".join("va@.contains(va@[%d])" % i for i in range(n)))


def enum(name, w, vs):
    d = {"n": name, "w": w, "hint": taghint(w, len(vs)),
         "of": " else ".join("if t == %d { Some(%s::%s) }" % (t, name, v) for v, t in vs) + " else { None }"}
    return """impl %(n)s {
    pub open spec fn vof(t: %(w)s) -> Option<Self> { %(of)s }
}
impl Layout for %(n)s {
    type V = Self;
    open spec fn lv(&self) -> Self { *self }
    open spec fn lok(v: Self) -> bool { true }
    open spec fn lenc(v: Self) -> Seq<u8> { <%(w)s as Layout>::lenc(v.vtag()) }
    open spec fn ldec(b: Seq<u8>) -> Option<(Self, nat)> {
        match <%(w)s as Layout>::ldec(b) { Some((t, n)) => match Self::vof(t) { Some(v) => Some((v, n)), None => None }, None => None }
    }
    open spec fn dterm() -> bool { true }
    open spec fn ltail(v: Self, k: nat) -> bool { true }
    proof fn dec_bound(b: Seq<u8>) { <%(w)s as Layout>::dec_bound(b); }
    proof fn rt(v: Self, t: Seq<u8>) { <%(w)s as Layout>::rt(v.vtag(), t); }
}
=== in impl TryFrom<%(w)s> for %(n)s
=== fn try_from -> r freeonly
    ensures r is Ok <==> %(n)s::vof(val) is Some, r is Ok ==> %(n)s::vof(val) == Some(r->Ok_0), r is Err ==> r->Err_0.actual == val
=== in impl Decode for %(n)s
=== fn parse
=== body
    %(hint)s
=== in impl Encode for %(n)s
=== fn write_to
=== in impl FixedLength for %(n)s
=== fn LEN
""" % d


def union(name, w, mod, vs):
    P = lambda v: "%s::%s" % (mod, v)
    d = {"n": name, "w": w, "hint": taghint(w, len(vs)),
         "vars": ", ".join("%s(<%s as Layout>::V)" % (v, P(v)) for t, v, s in vs),
         "lv": ", ".join("%s::%s(x) => %sV::%s(x.lv())" % (name, v, name, v) for t, v, s in vs),
         "lok": ", ".join("%sV::%s(x) => <%s as Layout>::lok(x)" % (name, v, P(v)) for t, v, s in vs),
         "lenc": ", ".join("%sV::%s(x) => <%s as Layout>::lenc(%d%s) + <%s as Layout>::lenc(x)" % (name, v, w, t, w, P(v)) for t, v, s in vs),
         "ltail": ", ".join("%sV::%s(x) => <%s as Layout>::ltail(x, k)" % (name, v, P(v)) for t, v, s in vs),
         "dterm": " && ".join("<%s as Layout>::dterm()" % P(v) for t, v, s in vs),
         "ldec": " else ".join("if t == %d { match <%s as Layout>::ldec(b.skip(n as int)) { Some((x, m)) => Some((%sV::%s(x), n + m)), None => None } }" % (
             t, P(v), name, v) for t, v, s in vs),
         "db": " ".join("<%s as Layout>::dec_bound(c);" % P(v) for t, v, s in vs),
         "rt": ", ".join("""%sV::%s(x) => {
                let e = <%s as Layout>::lenc(%d%s); let y = <%s as Layout>::lenc(x);
                assert(e + y + t =~= e + (y + t)); <%s as Layout>::rt(%d, y + t); assert((e + (y + t)).skip(e.len() as int) =~= y + t); <%s as Layout>::rt(x, t);
            }""" % (name, v, w, t, w, P(v), w, t, P(v)) for t, v, s in vs),
         "asc": ", ".join("%sV::%s(x) => assert(buf.tv() + <%s as Layout>::lenc(%d%s) + <%s as Layout>::lenc(x) =~= buf.tv() + Self::lenc(self.lv()))" % (
             name, v, w, t, w, P(v)) for t, v, s in vs),
         "cd": " ".join("crate::vsample::cat_dec::<%s, %s>(s0);" % (w, P(v)) for t, v, s in vs)}
    o = ["=== mod %s\n" % MODULE, queries(name, w, [(v, t) for t, v, s in vs], "(_)"), "=== mod %s\n" % MODULE]
    o.append("""/// the values: a variant with its payload's value
pub enum %(n)sV { %(vars)s }
impl Layout for %(n)s {
    type V = %(n)sV;
    open spec fn lv(&self) -> Self::V { match self { %(lv)s } }
    open spec fn lok(v: Self::V) -> bool { match v { %(lok)s } }
    open spec fn lenc(v: Self::V) -> Seq<u8> { match v { %(lenc)s } }
    open spec fn ldec(b: Seq<u8>) -> Option<(Self::V, nat)> {
        match <%(w)s as Layout>::ldec(b) { Some((t, n)) => %(ldec)s else { None }, None => None }
    }
    open spec fn dterm() -> bool { %(dterm)s }
    open spec fn ltail(v: Self::V, k: nat) -> bool { match v { %(ltail)s } }
    proof fn dec_bound(b: Seq<u8>) {
        <%(w)s as Layout>::dec_bound(b);
        if <%(w)s as Layout>::ldec(b) is Some { let c = b.skip((<%(w)s as Layout>::ldec(b)->0).1 as int); %(db)s }
    }
    proof fn rt(v: Self::V, t: Seq<u8>) { match v { %(rt)s } }
}
=== in impl Decode for %(n)s
=== fn parse
=== body
    %(hint)s
    proof { let s0 = p.segs(); %(cd)s }
=== in impl Encode for %(n)s
=== fn write_to
=== body
    proof { match self.lv() { %(asc)s } }
=== in impl Estimable for %(n)s
=== fn KNOWN
=== fn unknown
""" % d)
    o.append("=== mod %s::%s\n" % (MODULE, mod) + HEAD)
    for t, v, s in vs:
        o += ["=== mod %s::%s\n" % (MODULE, mod), record(v, s, "record")]
    return o


def contracts():
    out = [ROOT, "=== mod %s\n" % MODULE, CAT]
    out.append("/// decoding the samples is within the contracts' reach\nproof fn terminating() ensures %s { <u30 as crate::dynamic::LenPref>::plaws(); assert(crate::seq::grows::<Dynamic<u30, Bytes>>()); }\n" % ", ".join(
        "%s::dterm()" % d[1] for d in DECLS))
    for d in DECLS:
        if d[0] == "enum":
            out += ["=== mod %s\n" % MODULE, queries(d[1], d[2], d[3], ""), "=== mod %s\n" % MODULE, enum(*d[1:])]
        elif d[0] == "union":
            out += union(*d[1:])
        else:
            out += ["=== mod %s\n" % MODULE, record(d[1], d[2], d[0])]
    return "".join(out)


# ------------------------------------------------------------------ expansion


def expand(repo, work, env):
    """text of the module the macros expand to, paths into the crate made crate-relative"""
    d = os.path.join(work, "sample")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "src", "lib.rs"), "w").write(lib())
    open(os.path.join(d, "Cargo.toml"), "w").write("""[package]
name = "vsample"
version = "0.0.0"
edition = "2021"
publish = false
[dependencies]
tezos-data-model = { path = "%s" }
[workspace]
""" % repo)
    lock = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "Cargo.lock")
    open(os.path.join(d, "Cargo.lock"), "w").write(open(lock).read())
    p = subprocess.run(["cargo", "+stable", "rustc", "--offline", "--quiet", "--lib", "--profile", "dev", "--", "-Zunpretty=expanded"],
                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not p.stdout.strip():
        return None, p.stderr[-1500:]
    t = re.sub(r"^\s*(//!.*|#!\[.*\]|extern crate .*;|#\[prelude_import\]|use std::prelude::.*;)$", "", p.stdout, flags=re.M)
    t = re.sub(r"(?<![\w:])(?:::\s*)?tedium\s*::", "crate::", t)
    t = re.sub(r"(?<=\s)::\s*tedium\s*::", "crate::", t)
    return "\npub mod %s {\n%s\n}\n" % (MODULE, t), None
