#!/usr/bin/env python3
# One-off generator for properties.jsonl (kept so that the file's source is readable).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

CODEC=["src/conv/mod.rs","src/prim.rs","src/int.rs","src/float.rs","src/fixed.rs","src/schema.rs","src/dynamic.rs","src/seq/mod.rs","src/seq/fix.rs","src/seq/lim.rs","src/autobox.rs","src/zarith.rs","src/adt.rs"]
prop("C01","Encoding then decoding any representable value gives the value back",
 "For every type the library can both encode and decode, and every value of that type that satisfies the type's own documented limits, decoding the encoded bytes yields an equal value and consumes exactly the encoded bytes, with whatever follows left unread; this holds for elements and payloads of at least one byte nested to any depth through length prefixes, options, lists, records and tagged unions. For types whose layout is the remainder of their context (raw byte strings, text, lists, nullable values) it holds when the encoded bytes are the whole context.",
 ["inputs","programs"],"every value of every codec type built from the library's primitives and combinators, whatever bytes follow it",
 "The unit tests round-trip a few dozen literals of u8..i64, u30, i31, f64, fixed bytes/strings and three enum examples; nested compositions, boundary lengths and trailing input are never sampled.",
 CODEC,[("encoders and decoders of every codec type","src/conv/mod.rs, src/prim.rs, src/int.rs, src/float.rs, src/fixed.rs, src/schema.rs, src/dynamic.rs, src/seq/*.rs, src/autobox.rs, src/zarith.rs"),("generated codecs","src/adt.rs, encode_derive/src/lib.rs, decode_derive/src/lib.rs")],
 ["result of decoding the bytes an encoder produced","parser position after the decode"])
prop("C02","Encoded bytes follow the data-encoding binary layout",
 "Encoding a value appends exactly the bytes the OCaml data-encoding layout prescribes: fixed-width integers and floats big-endian two's-complement or IEEE, booleans ff/00, options a presence byte then the payload, byte strings verbatim, length prefixes in the declared width counting the payload bytes, padding as zero bytes, lists as concatenated elements, records as concatenated fields in declaration order, unions as the tag then the payload. Conversely decoding reads those same layouts, rejecting booleans other than 00/ff and presence bytes other than 00/ff.",
 ["inputs","programs"],"every value and every codec type",
 "Tests compare a handful of literal encodings per primitive; no test covers all widths, all byte values or composed layouts.",
 CODEC+["encode_derive/src/lib.rs","decode_derive/src/lib.rs"],[("primitive writers and readers","src/int.rs, src/prim.rs, src/float.rs, src/parse/mod.rs"),("combinator writers and readers","src/conv/mod.rs, src/schema.rs, src/dynamic.rs, src/seq/*.rs"),("derived codecs","encode_derive/src/lib.rs, decode_derive/src/lib.rs")],
 ["bytes appended to the output","value returned by a decode"])
prop("C03","Reported lengths equal the number of bytes actually written",
 "Encoding a value returns exactly the number of bytes it appended to the destination and leaves what was there before untouched. The length computed without keeping the bytes, and the length estimated from the type and value alone, equal that same number for every value, including the statically known length when there is one.",
 ["inputs","programs"],"every value of every codec type, any destination and any prior contents",
 "Tests compare the estimate with the real length for one record; a wrong count only shows up in prefix bytes of enclosing values.",
 ["src/conv/len.rs","src/conv/mod.rs","src/conv/target.rs","src/schema.rs","src/dynamic.rs","src/seq/mod.rs","src/seq/fix.rs","src/seq/lim.rs","src/autobox.rs","src/zarith.rs","src/adt.rs","estimable_derive/src/lib.rs"],
 [("byte counts returned by writers","src/conv/target.rs and every encoder"),("length estimates","src/conv/len.rs, estimable_derive/src/lib.rs")],
 ["returned count","destination length before and after","encoded-length query","length estimate"])
prop("C04","Decoding arbitrary bytes always ends with a value or an error, never a panic",
 "Decoding any byte sequence as any codec type returns a value or an error after finitely many steps: it never panics, overflows or loops, whatever the bytes and however large the length prefixes or requested sizes in them. The same holds for every parser operation called with any argument in any reachable parser state.",
 ["inputs","histories"],"every byte string, every codec type whose list elements take at least one byte, every sequence of parser calls with any arguments",
 "Tests feed well-formed inputs plus one deliberately failing over-read; malformed, truncated or adversarial inputs and extreme sizes are not sampled.",
 ["src/parse/mod.rs","src/parse/buffer.rs","src/internal/offset.rs","src/internal/view.rs","src/dynamic.rs","src/seq/fix.rs","src/seq/lim.rs","src/seq/mod.rs","src/zarith.rs","src/int.rs","src/error.rs"],
 [("bounds checks before every advance","src/internal/offset.rs, src/parse/mod.rs"),("error returns of decoders","src/dynamic.rs, src/seq/*.rs, src/zarith.rs, src/int.rs")],
 ["return of a decode call","termination and absence of panics"])
prop("C05","Parser consumes exactly what is asked and honours nested context windows",
 "A read of n bytes succeeds exactly when n bytes remain in the innermost open window (or the whole input), returns precisely the next n bytes and advances by n; otherwise it fails and changes nothing. Opening a window of n succeeds exactly when n bytes remain in the current one and limits later reads to it; closing succeeds exactly when a window is open and fully consumed, removing only that window, while any failure leaves every window and the position unchanged.",
 ["inputs","histories"],"every input, every sequence of read/open/test/close operations, any nesting depth and any sizes",
 "The unit tests exercise a few straight-line call sequences; the property is over all call histories and sizes.",
 ["src/parse/mod.rs","src/internal/offset.rs","src/internal/stack.rs","src/internal/view.rs","src/parse/buffer.rs"],
 [("cursor and frame stack","src/internal/offset.rs (Index, FrameStack, ContextOffset)"),("view stack","src/internal/view.rs"),("parsers","src/parse/mod.rs")],
 ["bytes returned","bytes remaining","success or failure of each call"],
 [("position","bytes consumed so far","src/internal/offset.rs"),("windows","open context windows, innermost last","src/internal/offset.rs, src/internal/view.rs")])
prop("C06","All provided parsers behave identically on the same input and calls",
 "Given the same bytes and the same sequence of operations, the owning parser, the recording parser and the borrowing parser return the same values, succeed or fail at the same points, report the same number of remaining bytes and leave the same leftovers. Decoding any type therefore gives the same result whichever parser is used, and the recording parser's log of reads is exactly the sequence of successful reads and skips.",
 ["inputs","histories","programs"],"every input, every call sequence, every codec type",
 "No test runs two parsers on the same input.",
 ["src/parse/mod.rs","src/internal/offset.rs","src/internal/view.rs"],
 [("three Parser implementations","src/parse/mod.rs (byteparser, memoparser, sliceparser)")],
 ["results of each parser operation","decode results per parser","the recording parser's printed log"])
prop("C07","Unchecked memory accesses stay inside their buffers",
 "Every access the library makes without a runtime bounds check, an unchecked conversion or an assumed-unreachable branch is only reached when it is valid: indices lie inside the buffer, slice lengths match, and the branch really is unreachable. No sequence of safe calls, with any arguments, can read outside the bytes supplied.",
 ["inputs","histories"],"every input, argument and call history of the safe public interface",
 "Out-of-bounds reads do not necessarily fail a test; tests only use in-range arguments.",
 ["src/parse/buffer.rs","src/parse/mod.rs","src/dynamic.rs","src/fixed.rs","src/seq/boundedseq_impl.rs","src/internal/stack.rs","src/zarith.rs"],
 [("unchecked slicing","src/parse/buffer.rs"),("unchecked array conversion","src/dynamic.rs (marshall_usize), src/fixed.rs (try_from_slice)"),("unreachable_unchecked","src/parse/mod.rs (cleanup)"),("unchecked first/last byte","src/zarith.rs")],
 ["bytes returned by buffer accessors","panic or failure for out-of-range requests"])
prop("C08","Range-limited integers stay in range and keep their value through conversion",
 "A range-limited integer is constructible from an integer exactly when that value lies within the declared bounds (for a strictly positive minimum, the stored and transmitted number is the offset from the minimum), and decoding accepts exactly the stored numbers that correspond to in-range values. Converting to and from any integer type that can represent the value, and encoding then decoding, preserves the value; out-of-range input is an error, never a wrap-around or panic in the fallible operations.",
 ["inputs","configurations"],"every backing integer type, every declared range that the backing type can hold, every input integer of every source type",
 "Tests cover two aliases at their end points; the bounds are const parameters and the inputs range over 64-bit integers.",
 ["src/int.rs","src/error.rs"],
 [("range restriction","src/error.rs (BoundsError::restrict)"),("constructors and conversions","src/int.rs")],
 ["Ok/Err of construction and decode","numeric value after conversion"])
prop("C09","Range-limited floats only ever hold values within their bounds",
 "Constructing a range-limited float from a number, or decoding one, succeeds exactly when the number is not NaN and lies between the declared inclusive bounds, and then keeps it bit for bit; every other input, including NaN and infinities outside the bounds, is an error. Plain floats encode and decode every bit pattern unchanged.",
 ["inputs","configurations"],"every 64-bit and 32-bit float bit pattern and every pair of bounds",
 "Tests use four literals in [0,1]; NaN, signed zero, subnormals and infinities are untested.",
 ["src/float.rs","src/error.rs"],
 [("range restriction","src/error.rs (restrict_float)"),("constructors, decode, encode","src/float.rs")],
 ["Ok/Err of construction and decode","bits of the stored value"])
prop("C10","Bounded lists never exceed their limit and never lose or reorder elements",
 "A list bounded by N elements never holds more than N after any constructor, extension or decode, and a list of exactly N elements is only encoded or decoded with exactly N. Operations that would exceed the limit fail without silently truncating, and every successful construction, extension, decode or conversion back to a plain list keeps all given elements in order.",
 ["inputs","histories"],"every N, every element sequence and every sequence of constructions and extensions",
 "Tests cover only a couple of fixed sizes; the limit and element counts are unbounded parameters.",
 ["src/seq/fix.rs","src/seq/lim.rs","src/seq/boundedseq_impl.rs","src/seq/mod.rs"],
 [("guarded push","src/seq/boundedseq_impl.rs"),("constructors/extend/decode","src/seq/fix.rs, src/seq/lim.rs")],
 ["length and contents after each operation","errors or panics on overflow"])
prop("C11","Length-prefixed and padded payloads are confined to their declared extent",
 "Decoding a length-prefixed value reads the prefix in its declared width, gives the payload exactly that many bytes and fails unless the payload uses all of them; a prefix that is out of range or larger than what remains is an error. A payload that must leave its last N bytes untouched is offered everything but those N bytes, padded values consume exactly N bytes after the payload, and encoding refuses payloads too long for the prefix.",
 ["inputs","programs"],"every prefix width, payload type, prefix value and surrounding input",
 "Tests decode well-formed prefixed values only.",
 ["src/dynamic.rs","src/schema.rs","src/parse/mod.rs"],
 [("prefix decode + window","src/dynamic.rs (Dynamic, VPadded)"),("padding","src/schema.rs (Padded)"),("prefix processing helpers","src/parse/mod.rs (process_prefix, skip_dynamic), src/dynamic.rs (LenPref)")],
 ["decode result","bytes left after decode","encoded prefix bytes"])
prop("C12","Hex text and bytes convert back and forth exactly",
 "Rendering bytes as hex gives two lowercase digits per byte, high nibble first, and parsing that text gives the bytes back. Parsing accepts exactly the even-length strings of hex digits in either case and returns an error for every other string without panicking, and comparing bytes with a hex string is true exactly when parsing it yields those bytes.",
 ["inputs"],"every byte string and every Unicode string",
 "Tests convert a few ASCII literals; odd lengths, non-hex and multi-byte characters are barely sampled.",
 ["src/hexstring.rs","src/builder/mod.rs","src/fixed.rs"],
 [("hex conversion helpers","src/hexstring.rs (util)"),("writers of hex","src/fixed.rs (LowerHex), src/builder/mod.rs (into_hex)")],
 ["hex text produced","bytes or error returned from parsing","comparison result"])
prop("C13","Arbitrary-precision integers use the Zarith layout and round-trip",
 "Naturals are written as base-128 digits, least significant first, and signed integers with the sign in bit 6 of the first byte and six value bits there; every byte but the last has its top bit set and the encoding is the shortest one. Decoding reads up to and including the first byte with a clear top bit, fails if there is none, and recovers the number encoded.",
 ["inputs"],"every natural number and every integer of any size, every input byte string",
 "Tests cover seven literals below 2^14; carries and sign across byte boundaries are unbounded.",
 ["src/zarith.rs","src/parse/mod.rs"],
 [("serialize/deserialize","src/zarith.rs"),("self-terminating read","src/parse/mod.rs (take_self_terminating)")],
 ["encoded bytes","decoded number","bytes consumed"])
prop("C14","Every output destination receives the same bytes",
 "Encoding a value into a plain byte vector, either builder, a hex string or a counting sink produces the same byte sequence (or count) whichever is used, and the shortcut methods that produce bytes agree with them. Writing into a destination that already holds data only appends, and a builder's finished output, hex and text forms are views of those same bytes.",
 ["inputs","programs","configurations"],"every value of every codec type and every destination",
 "Tests use mostly one builder and never compare destinations.",
 ["src/conv/target.rs","src/conv/mod.rs","src/builder/mod.rs","src/builder/strict.rs","src/builder/memo.rs","src/hexstring.rs","src/fixed.rs","src/schema.rs","src/prim.rs"],
 [("Target implementations","src/conv/target.rs, src/builder/*.rs, src/hexstring.rs"),("overridden shortcut encoders","src/conv/mod.rs, src/fixed.rs, src/schema.rs, src/prim.rs")],
 ["bytes produced per destination"])
prop("C15","Segmented buffers keep spans and bytes consistent",
 "After any sequence of appends, splits, forced splits and concatenations, a segmented buffer's bytes are the appended bytes in order and its segment lengths add up to the number of bytes, with a boundary exactly at each split. Iterating the segments from either end yields consecutive slices that concatenate to the whole buffer.",
 ["histories","inputs"],"every sequence of operations and all contents",
 "One test with ten segments and one operation order.",
 ["src/internal/splitvec.rs","src/builder/memo.rs"],
 [("span bookkeeping","src/internal/splitvec.rs (SpanBuffer, SplitVec, Spans)")],
 ["segments reported","display of the segmented builder","flattened bytes"],
 [("spans","closed segment lengths plus the open one","src/internal/splitvec.rs")])
prop("C16","Enumerations and tagged unions accept exactly their declared tags",
 "Decoding an enumeration or tagged union reads one tag of the declared width and succeeds only for declared tags, choosing the declared variant (and then its payload); any other tag is an error naming the tag, and a union with no valid tags is an error. Encoding writes the declared tag of the variant, and tag queries (value, name, validity, listing) agree with the declaration.",
 ["inputs","programs"],"every tag value of 8, 16 or 32 bits, every declared set of tags and variants",
 "Tests decode a few declared tags of small enumerations; undeclared tags and wide tags are untested.",
 ["src/adt.rs","src/parse/mod.rs","src/parse/error.rs"],
 [("tag reading","src/parse/mod.rs (take_tagword)"),("tag validation","src/parse/error.rs (TagValidator)"),("generated enums and unions","src/adt.rs (cstyle!, data!)")],
 ["decoded variant or error","encoded tag bytes","tag query results"])
prop("C17","Finishing a parse reports exactly the unread bytes, window by window",
 "Finishing a parser never fails and reports the unread bytes exactly once and in order, separated by the boundaries of the windows still open; it reports nothing left over exactly when every byte was read. Adding bytes to a leftover report moves all of them out of the source.",
 ["inputs","histories"],"every input and every reachable parser state",
 "No test inspects leftovers except the empty case.",
 ["src/parse/mod.rs","src/internal/splitvec.rs"],
 [("cleanup loops","src/parse/mod.rs (cleanup of each parser)"),("leftover bookkeeping","src/parse/mod.rs (LeftoverState)")],
 ["leftover report"])
prop("C18","Skipping and searching move the cursor exactly like reading",
 "Skipping n bytes advances by the smaller of n and what remains and reports that number; skipping exactly n or a length-prefixed block succeeds precisely when reading it would, and leaves the same position. Searching fixed-width key/value pairs returns the value of the first matching key, leaving the cursor right after it, or nothing after consuming all whole pairs, and fails when the remainder is not a whole number of pairs before a match.",
 ["inputs","histories"],"every input, parser, size, key and window state",
 "Tests search one two-entry table and skip within range.",
 ["src/parse/mod.rs","src/dynamic.rs"],
 [("skip, skip_exactly, skip_dynamic, fast_kv_search","src/parse/mod.rs (ParserExt)")],
 ["returned count or value","remaining bytes afterwards"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
