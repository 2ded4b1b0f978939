T = "contract-based deductive verification of the real code (Verus on functions extracted from /repo on every run)"
X = (" Besides, the same contracts run as executable assertions on the real crate (bounded, never counted as proved); they decide alone, and "
     "the run says UNDECIDED, when changed code is outside the verifier's reach.")
G = (" Code made by the macros and derives is verified instance by instance (the 12 declarations of engines/sample.py, expanded on every run), not for all declarations.")
P = "proof"
LEVELS = {
    "C01": (P, T, "Encoders and decoders of every codec type are verified against one layout (enc, dec) per type, and a lemma rt per type proves dec(enc(v)+tail) = (v, |enc(v)|) for every value within its limits." + G + X),
    "C02": (P, T, "Each encoder appends exactly, and each decoder reads exactly, the layout written down as spec functions in contracts/*.vrs." + G + X),
    "C03": (P, T, "Return value of every write_to and of every length estimate equals |enc(v)|, for all values whose encoding fits usize." + G + X),
    "C04": (P, T, "Overflow, panic, index and termination obligations of every decoder and parser operation are discharged for all inputs (list elements of at least one byte)." + G + X),
    "C05": (P, T, "Every operation of the three parsers is verified against one model of nested windows, for all states and arguments." + X),
    "C06": (P, T, "The three parsers are verified against the same contracts on the same abstract state; decoders are generic over those contracts. The printed form of the recording parser's log is only checked bounded." + X),
    "C07": (P, T, "Every unchecked access, conversion and assumed-unreachable branch carries its safety condition as a precondition that each call discharges." + X),
    "C08": (P, T, "Construction, decoding, encoding and conversion of range-limited integers are verified for all bounds that fit the backing type; i32/i64/... conversions per backing type." + X),
    "C09": (P, T, "Construction, decoding and encoding are verified over an axiomatised IEEE order (NaN unordered); the order axioms of f64 are assumed." + X),
    "C10": (P, T, "Every constructor, extension, decode and conversion of bounded and exact lists is verified for all N and element types." + X),
    "C11": (P, T, "Prefix, payload window, padding and virtual padding are verified for every prefix width and payload type." + X),
    "C12": (P, T, "Rendering, parsing and comparing are verified for all texts and bytes; format!(\"{:02x}\") itself is assumed and checked bounded for all 256 bytes." + X),
    "C13": (P, T, "Both encoders and decoders are verified over mathematical integers; num-bigint's arithmetic is assumed." + X),
    "C14": (P, T, "Every destination is verified against one contract, every encoder is generic over it, every shortcut against the same bytes." + X),
    "C15": (P, T, "Every operation of span and segmented buffers is verified against the sequence of segments; std's chain/copied iterators are assumed." + X),
    "C16": (P, T, "Tag reading and validation are verified for every width and every tag set." + G + X),
    "C17": (P, T, "cleanup of the three parsers and the leftover report are verified for all states." + X),
    "C18": (P, T, "skip, skip_exactly, skip_dynamic and fast_kv_search are verified for all states and sizes." + X),
}
