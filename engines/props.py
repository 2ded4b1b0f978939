"""Which property a function's contract states.  First match wins.  A function listed for a property is an
obligation of that property: its failing clause is that property's violation.  SUPPORT: lemma-like
dependencies, reported in the evidence, whose failure leaves the property undecided."""
import re

TABLE = [
    # what the macros and derives generate
    (r"^vsample::.*Encode for [EU]\w+::write_to$", "C16 C02 C01 C03"),
    (r"^vsample::.*Decode for [EU]\w+::parse$", "C16 C02 C01 C04"),
    (r"^vsample::.*(Fixed|Scalar)Length for|^vsample::.*Estimable for", "C03"),
    (r"^vsample::(\w+::)?Encode for", "C02 C01 C03"),
    (r"^vsample::(\w+::)?Decode for", "C02 C01 C04"),
    (r"^vsample::", "C16"),
    # parsing core
    (r"^internal::stack::", "C05 C06"),
    (r"^internal::offset::IndexTracker::rem$", "C18 C05 C06 C04"),
    (r"^internal::offset::", "C05 C06 C04"),
    (r"^internal::view::", "C05 C06 C04"),
    (r"^internal::splitvec::", "C15"),
    (r"^parse::buffer::", "C05 C07 C04"),
    (r"^parse::error::.*TagValidator|^parse::error::TagError|^parse::error::impls", "C16 C04"),
    (r"^parse::error::", "C05 C04"),
    (r"^parse::cleanup::", "C17"),
    (r"^parse::\w+parser::.*::cleanup$", "C17 C06 C04"),
    (r"^parse::\w+parser::.*::(skip|skip_exactly)$", "C18 C06 C04"),
    (r"^parse::\w+parser::.*::dump_state$", "C06"),
    (r"^parse::\w+parser::", "C05 C06 C04"),
    (r"^parse::ParserExt::process_prefix$", "C11 C18 C04"),
    (r"^parse::ParserExt::skip_dynamic$", "C18 C11 C04"),
    (r"^parse::ParserExt::", "C18 C04"),
    (r"^parse::Parser::take_tagword$", "C16 C04"),
    (r"^parse::Parser::take_dynamic$", "C11 C05 C04"),
    (r"^parse::Parser::take_self_terminating$", "C13 C05 C04"),
    (r"^parse::Parser::take_(u|i)(8|16|32|64)$|^parse::Parser::take_(bool|f64)$", "C02 C05 C04"),
    (r"^parse::TryIntoParser", "C06 C05 C04"),
    (r"^parse::", "C05 C04"),
    # text form and destinations
    (r"^hexstring::(Target|Write|Extend|FromIterator)\b.* ?for", "C14"),
    (r"^hexstring::util::hex_of_bytes$|^hexstring::HexString::to_hex$", "C12 C14"),
    (r"^hexstring::util::(bytes_of_hex|byte_of_digits|value_of_digit|eq_hex_bytes)$|^hexstring::.*TryFrom<|^hexstring::HexString::from_hex$", "C12 C04"),
    (r"^hexstring::", "C12"),
    (r"^builder::", "C14"),
    # codecs
    (r"^conv::len::", "C03"),
    (r"^conv::target::", "C14 C03"),
    (r"^conv::Decode::|^conv::error::|^prim::Decode for\(\)::(try_decode|decode|decode_memo)$", "C01 C06 C04"),
    (r"^conv::Encode::", "C14 C03"),
    (r"^conv::EncodeLength::", "C03 C14"),
    (r"^conv::Encode for .*::(write_to_vec|encode|to_bytes)$|^prim::Encode for.*::(write_to_vec|encode|to_bytes)$", "C14 C02 C03"),
    (r"^(conv|prim|int::__impls)::Encode for", "C02 C01 C03 C14"),
    (r"^(conv|prim|int::__impls)::Decode for", "C02 C01 C04"),
    (r"^float::.*for f64", "C09 C02 C01"),
    (r"^error::BoundsError<f64>::", "C09 C04"),
    (r"^error::(BoundsError<|From<TryFromIntError>)", "C08 C04"),
    (r"^float::Encode for RangedFloat", "C09 C02 C01 C03"),
    (r"^float::Decode for RangedFloat", "C09 C02 C01 C04"),
    (r"^float::(to|from)_const_generic$|^float::.*RangedFloat<", "C09 C04"),
    (r"^int::.*::Encode for RangedInt", "C08 C02 C01 C03"),
    (r"^int::.*::Decode for RangedInt", "C08 C02 C01 C04"),
    (r"^[\w:]+::Estimable for |^[\w:]+::(Fixed|Scalar)Length for ", "C03"),
    (r"^int::(ranged_int_impls::)?[^:]*RangedInt<", "C08 C04"),
    (r"^(dynamic|schema)::Encode for (Dynamic|VPadded|Padded)", "C11 C02 C01 C03"),
    (r"^(dynamic|schema)::Decode for (Dynamic|VPadded|Padded)", "C11 C02 C01 C04"),
    (r"^dynamic::(PartialEq|PartialOrd|Ord|From|AsRef|AsMut|Borrow)", "C01 C11"),
    (r"^dynamic::|^schema::Padded|^schema::From<T>for Padded", "C11 C04"),
    (r"^schema::Encode for Bytes::(write_to_vec|encode|to_bytes)$", "C14 C02 C03"),
    (r"^fixed::Encode for .*::(write_to_vec|encode|to_bytes)$", "C14 C02 C03"),
    (r"^fixed::Encode for", "C02 C01 C03 C14"),
    (r"^fixed::Decode for", "C02 C01 C04"),
    (r"^fixed::", "C01 C04"),
    (r"^(schema|autobox)::Encode for", "C02 C01 C03 C14"),
    (r"^(schema|autobox)::Decode for", "C02 C01 C04"),
    (r"^(schema|autobox)::", "C01 C02"),
    (r"^zarith::.*Encode for", "C13 C02 C01 C03"),
    (r"^zarith::.*Decode for", "C13 C02 C01 C04"),
    (r"^zarith::.*::serialize$", "C13 C02 C01 C03 C07"),
    (r"^zarith::.*::deserialize$", "C13 C02 C01 C04"),
    (r"^zarith::", "C13"),
    (r"^seq::.*Encode for", "C10 C02 C01 C03"),
    (r"^seq::.*Decode for", "C10 C02 C01 C04"),
    (r"^seq::", "C10 C04"),
]
# contracts that must hold for the unchecked accesses to be in bounds (structural invariants)
MEMSUPPORT = r"^(internal::offset|internal::view|internal::stack|parse::buffer|parse::\w+parser|dynamic::private)::"

_T = [(re.compile(a), b.split()) for a, b in TABLE]


def props(fn):
    for r, ps in _T:
        if r.search(fn):
            return ps
    return []


def route(fn, kind):
    """properties violated when an obligation of this kind fails in this function"""
    ps = props(fn)
    if kind == "mem":
        return ["C07"]
    if kind in ("arith", "panic", "term"):
        return ["C04"] if "C04" in ps else ps
    return [p for p in ps if p not in ("C04", "C07")] or ps


def covers(prop, fn, mem):
    """is this function's contract an obligation of the property? mem: the body has unchecked accesses"""
    if prop == "C07":
        return mem or bool(re.search(MEMSUPPORT, fn))
    return prop in props(fn)
