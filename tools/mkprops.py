#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Whatever is read is written back as exactly the same bytes",
 "For every byte string the reader accepts as a data item, writing the value it returned (as borrowed data, as owned data, through the typed write for its kind, or through the generic encode/decode entry points) produces exactly the bytes that were consumed. This includes non-shortest integer, length and tag headers, definite versus indefinite form, chunk boundaries and float widths, at every nesting level, whether an inner element is kept raw or is itself decoded and rebuilt.",
 ["inputs"], "every well-formed CBOR item (any nesting, header width, chunking) and every path borrowed/owned/typed/generic from reading to writing",
 "The tests write one constant and one shortest integer; no test re-encodes anything that was read, and none uses a non-shortest or indefinite encoding on the write path.",
 ["src/reader.rs", "src/writer.rs", "src/types/structure.rs", "src/types/streamable.rs", "src/types/mod.rs", "src/types/scalar.rs", "src/encode.rs", "src/decode.rs", "src/lowlevel/header.rs"],
 [("header width kept next to the value (Imm/U8/U16/U32/U64)", "src/lowlevel/header.rs HeaderValue"), ("length form kept with the elements", "src/types/structure.rs len_encoding"), ("chunk list with one header per chunk", "src/types/streamable.rs Bytes::Chunks/Text::Chunks"), ("width-directed write", "src/writer.rs write_value/write_value_stream")],
 ["Reader::data/… -> Writer::data/…", "Data::owned / DataOwned::borrow", "encode_to_bytes / decode_from_bytes"])

prop("C02", "Accepts exactly the well-formed items, with their exact extent",
 "The validator, the extraction of a nested item (array element, map key or value, tag content, raw typed slice) and the generic reader accept the bytes at a position if and only if a well-formed CBOR item of RFC 8949 starts there, and then consume exactly that item. Notably, chunks of an indefinite string are definite strings of the same kind, an indefinite map has an even number of items, a break only closes an indefinite container, and reserved header codes are refused. Two deliberate leniencies are part of the contract: any value is allowed in a two-byte simple value, and UTF-8 is only checked when text is read as text.",
 ["inputs"], "every byte string and start position, with any nesting of definite/indefinite containers, strings, tags",
 "Eight validator tests and nine state tests walk a handful of accepted sequences; almost no rejection case and no mixture of tags, maps, chunks and breaks is tried, whereas the language is infinite.",
 ["src/validate.rs", "src/state.rs", "src/reader.rs", "src/lowlevel/lead.rs", "src/context.rs"],
 [("push-down state of open containers", "src/state.rs State::{simple,text,bytes,array,map,tag,brk,advance,check_reduce}"), ("lead byte classification", "src/lowlevel/lead.rs Lead::from_byte"), ("whole-item scan", "src/reader.rs cbor_slice_neutral, src/validate.rs Validator::next")],
 ["Validator::next", "Reader::data/array/map/tag", "Reader::exact_decodable_slice"],
 [("ctx", "stack of open containers with remaining counts", "src/state.rs State.ctx")])

prop("C03", "Untrusted bytes never cause a panic, a hang or outsized memory use",
 "For every input, including the empty one, and every sequence of calls on readers, validators and the values they hand out (including calls after an error), each call returns a value or an error: no panic, no arithmetic overflow, no unbounded recursion or loop. Bytes consumed plus bytes remaining always equals the input length and the position never moves backwards. Time and memory are bounded by the bytes actually present, whatever lengths, counts or nesting depth the input claims.",
 ["inputs", "histories"], "every byte string (hostile lengths up to 2^64-1, deep nesting) and every sequence of read/validate/decode calls, continuing after errors",
 "Tests use well-behaved short inputs; no test claims a length near 2^64, nests deeply, keeps calling after an error or passes empty input.",
 ["src/context.rs", "src/reader.rs", "src/validate.rs", "src/state.rs", "src/prim.rs", "src/decode.rs"],
 [("bounds-checked peek/consume", "src/context.rs CborDataReader::peek"), ("iterative scan with heap stack", "src/state.rs, src/reader.rs cbor_slice_neutral"), ("no allocation sized from an unverified count", "src/reader.rs array/map")],
 ["every public Reader/Validator/CborSlice/CborData call under overflow checks, a counting allocator and a watchdog"])

prop("C04", "Truncated input asks for no more than is missing, and refilling works",
 "Reading or validating any proper prefix (possibly empty) of a well-formed item fails with a missing-data report and no other error. The reported shortfall (bytes needed minus bytes available) is at least one and never more than what the complete item still needs. Hence a caller that appends just the shortfall and retries from the start always succeeds after finitely many rounds, having fetched exactly the item and nothing beyond it.",
 ["inputs", "histories"], "every well-formed item, every cut position, and every refill history that follows the reports",
 "Three prefixes are tried for the validator, none for the reader, and no refill loop at all; the guarantee is about all cut points of all items.",
 ["src/context.rs", "src/reader.rs", "src/validate.rs"],
 [("missing-data report", "src/context.rs CborDataMissing, CborDataReader::peek"), ("error propagation", "src/reader.rs ReaderError::DataMissing, src/validate.rs ValidateError::DataMissing")],
 ["ReaderError::DataMissing", "ValidateError::DataMissing", "refill loop over Reader::data and Validator::next"])

prop("C05", "A typed read takes only its own kind; a refused read consumes nothing",
 "Each typed read succeeds only on an item of exactly the kind it names: null only on null, undefined only on undefined, bool only on true/false, constant only on those four, positive, negative, byte, float, bytes, text, array, map and tag each only on theirs, scalar on either integer sign. When the next item is of another kind, or its header is malformed or incomplete, the read reports an error and the position does not move, so the matching read afterwards returns the item. Peeking reports the kind of the next item and never consumes.",
 ["inputs", "histories"], "every next item kind crossed with every typed read, in any call order on one reader",
 "One test tries one wrong read (negative on a positive); 13 kinds times 15 reads times header widths are not covered.",
 ["src/reader.rs", "src/types/mod.rs", "src/lowlevel/lead.rs", "src/lowlevel/header.rs"],
 [("header examined before advancing", "src/reader.rs matches_type! then reader.advance"), ("kind of a header", "src/lowlevel/header.rs Header::to_type, src/types/mod.rs Type::from_lead")],
 ["every Reader typed read with consumed_bytes before/after", "Reader::peek_type"])

prop("C06", "Values handed out equal the numbers, text and bytes on the wire",
 "Integers, tags and simple values expose the unsigned value encoded by their header for any header width; signed conversion yields the mathematically correct number exactly when it fits and nothing otherwise. Bytes and text expose, as a whole and per chunk, exactly the payload in order, and their length is the payload's length; text is accepted exactly when every chunk is valid UTF-8. The canonical flag is true exactly when the header is the shortest possible for that value.",
 ["inputs"], "every header width and 64-bit value, every payload and chunking",
 "Only a few small shortest integers are read in tests; 64-bit boundaries, negative conversion, chunk concatenation, UTF-8 refusal and the canonical flag are never exercised.",
 ["src/lowlevel/header.rs", "src/types/scalar.rs", "src/types/streamable.rs", "src/types/structure.rs", "src/reader.rs"],
 [("big-endian header argument", "src/reader.rs resolve_indirect"), ("value and canonicity of a header", "src/lowlevel/header.rs HeaderValue::{to_u64,canonical,is_canonical}"), ("checked negation", "src/types/scalar.rs Negative::to_i64, Scalar::to_i64"), ("chunk folding", "src/types/streamable.rs Bytes::to_vec/len, Text::to_string/to_str_chunks")],
 ["Positive/Negative/Scalar/Byte/TagValue accessors", "Bytes/Text (borrowed and owned) accessors"])

prop("C07", "Native values encode in shortest form and decode back to themselves",
 "Encoding a boolean, an unsigned integer of any width, a string, a byte vector, a fixed byte array, a signed scalar, a simple byte value or a list of these yields the one definite-length shortest CBOR encoding of that value, and decoding that encoding as the same type gives the value back. Decoding the same type from any other well-formed encoding of the value (wider header, indefinite or chunked form) gives the same value.",
 ["inputs"], "every value of every natively supported type, in every equivalent encoding",
 "Only u64, bool and one array are decoded from fixed bytes; no native type is round-tripped, and width boundaries (23/24, 255/256, 65535/65536, 2^32) are not touched.",
 ["src/encode.rs", "src/decode.rs", "src/lowlevel/header.rs", "src/writer.rs", "src/types/scalar.rs", "src/types/streamable.rs"],
 [("shortest header choice", "src/lowlevel/header.rs HeaderValue::canonical, HeaderValue8::canonical"), ("native impls", "src/encode.rs, src/decode.rs"), ("encode_vec/decode_vec", "src/encode.rs, src/decode.rs")],
 ["encode_to_bytes", "decode_from_bytes", "encode_vec / decode_vec"])

prop("C08", "Decoding into a narrower native type never truncates or wraps",
 "Decoding an integer item into an 8, 16, 32 or 64 bit unsigned type succeeds if and only if the item is a non-negative integer whose value fits, whatever the width of its header, and then yields exactly that value. A fixed-size byte array is decoded if and only if the byte string's total length is exactly the array's size. Anything else is an error.",
 ["inputs"], "every integer item (all header widths, both signs, boundary values) crossed with every target width; every byte string length against array sizes",
 "No test decodes an out-of-range integer or a byte array.",
 ["src/decode.rs"],
 [("range assertion", "src/decode.rs assert_range!"), ("length comparison before copy", "src/decode.rs impl Decode for [u8; N]")],
 ["decode_from_bytes::<u8/u16/u32/u64/[u8; N]>"])

prop("C09", "Arrays, maps and tags hand out exactly their parts, in order",
 "Reading an array, map or tag yields each contained item as the exact slice of its bytes, in wire order and pairing, with the element count and length form of the wire; header, parts and closing break together are exactly the bytes consumed. Every view of the same value (index, iteration, keys, values, conversion to a list, owned copy, borrow of the owned copy, reader on a part) shows the same parts.",
 ["inputs"], "every array/map/tag of any size, form and content, through every accessor",
 "One fixed document is walked through indexes only; iterators, keys/values, list conversion and owned forms are untested.",
 ["src/reader.rs", "src/types/structure.rs", "src/prim.rs"],
 [("one slice per scanned item", "src/reader.rs array/map/tag + src/context.rs slice_from"), ("owned/borrow conversions", "src/types/structure.rs owned/borrow, src/prim.rs ToOwned/Borrow"), ("accessors", "src/types/structure.rs iter/keys/values/to_vec/Index")],
 ["Array/ArrayOwned/Map/MapOwned/Tag/TagOwned accessors"])

prop("C10", "The writer emits exactly the requested items, in call order",
 "Any sequence of write calls, with array, map and tag builders nested arbitrarily, produces the concatenation in call order of the encodings asked for: each scalar, string, constant or float with the requested header width, each builder as its header of the requested form, the content, and a break exactly when the form is indefinite. Bytes present in a caller-supplied initial buffer are kept in front, unchanged. Builders that collect elements produce the same bytes as writing the array directly.",
 ["histories", "inputs"], "every sequence and nesting of write calls with every argument",
 "Tests issue at most two write calls and one indefinite array without checking its bytes.",
 ["src/writer.rs", "src/types/structure.rs", "src/encode.rs", "src/lowlevel/lead.rs"],
 [("header emission", "src/writer.rs write_value/write_value_stream/write_structure_length"), ("break at builder end", "src/writer.rs array_build/map_build/array/map/bytes/text"), ("ArrayBuilder", "src/types/structure.rs ArrayBuilder")],
 ["Writer::finalize after a program of calls", "ArrayBuilder::finite/indefinite", "Writer::new_from_vec"])

prop("C11", "Whole-value decoding refuses trailing bytes",
 "Decoding a complete buffer, a raw element, a tag's content or a validated piece of data as some type succeeds only if that type's value uses up all of the bytes; any remaining byte makes the call fail. This holds for every entry point that promises a whole value (from bytes, decode-one, raw slices and raw data, tag content, validation as a type), and a call whose value ends exactly at the last byte does not fail for trailing data.",
 ["inputs"], "every well-formed value of a type followed by any suffix, through every whole-value entry point",
 "No test decodes an input with trailing bytes through any of these entry points.",
 ["src/lib.rs", "src/prim.rs", "src/reader.rs", "src/types/structure.rs"],
 [("finished check after decode", "src/lib.rs decode_from_bytes, src/prim.rs decode/validate_as, src/reader.rs decode_one, src/types/structure.rs read_data/decode_data")],
 ["decode_from_bytes, Reader::decode_one, CborSlice/CborData::decode, validate_as, Tag::read_data/decode_data"])

prop("C12", "Data kept raw as a type stays exact and always decodes as that type",
 "A raw typed slice or raw typed data is only ever obtained when its bytes are exactly one encoding of that type; it keeps those bytes unchanged through copying, owning, borrowing and untyping. Turning it into the value never fails and gives the same value as decoding the original bytes, and writing it emits the original bytes, non-canonical encodings included.",
 ["inputs"], "every input and type, through every way of obtaining and using raw typed data",
 "Raw typed slices and data are not used by any test.",
 ["src/prim.rs", "src/reader.rs", "src/encode.rs", "src/decode.rs"],
 [("validate then wrap", "src/prim.rs validate_as, src/reader.rs exact_decodable_slice/exact_decodable_data"), ("raw write", "src/encode.rs impl Encode for CborDataOf/CborSliceOf/CborData/CborSlice")],
 ["exact_decodable_slice/data, CborDataOf::{unserialize,untype,from}, Encode for raw types"])

prop("C13", "Derived structs encode to their declared layout and decode back",
 "For every supported struct derivation (array, array with optional last field, flat, integer-keyed map; with or without a tag, map start index, skipped keys, mandatory and optional fields), encoding produces exactly the declared layout and decoding it returns an equal value. Decoding accepts any well-formed spelling of that layout (map entries in any order, wider headers, indefinite form) and refuses everything else: a wrong element count, wrong or missing tag, a missing mandatory key, an unknown or duplicated key of any size, or a field of the wrong type, always with an error and never a panic.",
 ["programs", "inputs"], "every derivable struct definition (layout x attributes x field types), every value of it, and every spelling or mutation of its encoding",
 "No test derives anything; the examples crate only compiles three types.",
 ["cbored-derive/src/product.rs", "cbored-derive/src/attr.rs", "cbored-derive/src/common.rs", "cbored-derive/src/lib.rs"],
 [("generated encoder", "cbored-derive/src/product.rs derive_struct_se"), ("generated decoder", "cbored-derive/src/product.rs derive_struct_de"), ("attribute parsing", "cbored-derive/src/attr.rs")],
 ["encode_to_bytes / decode_from_bytes of generated types"])

prop("C14", "Derived enums encode to their declared layout and decode back",
 "For every supported enum derivation (tagged variant array, plain integer, selection by CBOR type; with a start index and skipped numbers), each variant is encoded with its declared number or type and its fields in order, distinct variants never share a number, and decoding returns an equal value. Numbering starts at the declared start index (0 by default), increases by one per variant and jumps over skipped numbers. Unknown numbers or types, a wrong field count or a field of the wrong type are refused with an error.",
 ["programs", "inputs"], "every derivable enum definition (kind x start x skips x variant shapes), every value of it, and every mutation of its encoding",
 "No test derives an enum, and the documented type-selected enum with a null variant is never compiled.",
 ["cbored-derive/src/sum.rs", "cbored-derive/src/attr.rs", "cbored-derive/src/common.rs"],
 [("variant numbering", "cbored-derive/src/sum.rs enumerate_variant_indices"), ("generated encoder/decoder", "cbored-derive/src/sum.rs derive_enum_se/derive_enum_de")],
 ["encode_to_bytes / decode_from_bytes of generated types"])

prop("C15", "Standard tagged types accept only their form and re-encode exactly",
 "Each standard tagged type (date/time text, positive and negative big number, embedded CBOR, rational number) decodes exactly the items carrying its tag number, in any header width, around content of its required form; a rational is a two-element array of an integer or big number of either sign over a positive integer or positive big number. Anything else is refused. A decoded value exposes its content and encodes back to exactly the bytes it came from.",
 ["inputs"], "every item as candidate for every tagged type, with every tag/length header width, definite or indefinite, and every numerator/denominator shape",
 "No test reads or writes a tagged type.",
 ["src/tagged.rs", "src/types/structure.rs"],
 [("tag number match", "src/tagged.rs matches_tag!"), ("content read to the end", "src/types/structure.rs Tag::read_data"), ("kept tag and length encodings", "src/tagged.rs RationalNumber, StandardDateTime, …")],
 ["decode_from_bytes / encode_to_bytes of tagged::*", "accessors to_be_bytes/to_bytes/numerator/denominator"])

prop("C16", "Float conversion gives the IEEE 754 value of the stored bits",
 "Half, single and double precision items convert to 32 and 64 bit floats with the IEEE 754 value of their bits: widening is exact for all normal, subnormal, zero (with sign) and infinite values, narrowing rounds to nearest even, and NaN stays NaN. The stored bits themselves are never altered by reading or writing.",
 ["inputs"], "all 65536 half-precision patterns, and all single/double patterns by class and boundary",
 "No test converts a float.",
 ["src/types/float.rs", "src/reader.rs", "src/writer.rs"],
 [("half to single bit conversion", "src/types/float.rs ieee754_u16_to_u32"), ("to_f32/to_f64", "src/types/float.rs")],
 ["Float::to_f32, Float::to_f64"])

prop("C17", "Errors state what was actually found and where",
 "A refused read names the kind, tag number, length or value that is really present next to what was expected; a refusal for trailing data gives the true position, remaining count and next byte; a missing-data report gives the true available count; a reserved header names the offending byte. A decode that fails in a list element or in a named struct field carries that element's index or that field's name in its path, the path being listed from innermost to outermost and printed from outermost to innermost.",
 ["inputs"], "every failing read or decode on every input",
 "Only three missing-data reports of the validator are inspected; no other error content and no decode path is tested.",
 ["src/reader.rs", "src/validate.rs", "src/decode.rs", "src/context.rs", "src/tagged.rs", "cbored-derive/src/product.rs", "cbored-derive/src/sum.rs"],
 [("error construction", "src/reader.rs ReaderError, src/decode.rs DecodeErrorKind"), ("context stack", "src/decode.rs DecodeError::{push,push_str,push_string,context,context_as_path}")],
 ["ReaderError/ValidateError/DecodeError contents"])

prop("C18", "Repeated validation tiles the input; nothing malformed is ever validated",
 "Calling the validator repeatedly yields adjacent slices that are exactly the successive well-formed items of the input, each with its true length, the remaining count shrinking by that length, and then a missing-data report at the end. Whatever calls were made before, including calls that failed, every slice handed out as validated is one complete well-formed item located in the input.",
 ["inputs", "histories"], "every concatenation of items and garbage, and every history of validator calls including after errors",
 "Every test creates a fresh validator and calls it once.",
 ["src/validate.rs", "src/state.rs"],
 [("per-item state reset", "src/validate.rs Validator::next, State::acceptable"), ("slice between start and index", "src/context.rs slice_from")],
 ["Validator::next sequences, Validator::remaining_bytes"],
 [("state", "open containers kept across calls", "src/validate.rs Validator.state")])

prop("C19", "The event acceptor is complete exactly between whole items",
 "Fed with item events (simple, text, bytes, array, map, tag, break), the public CBOR event acceptor refuses an event exactly when no well-formed item sequence continues that way, and reports an acceptable position exactly when every started item is complete. This holds for any count encoding of a length, including zero and counts up to 2^64-1, and any nesting depth.",
 ["histories", "inputs"], "every sequence of acceptor events",
 "Nine fixed accepted sequences are tried; no refusal, no mid-item acceptability query, no tag/indefinite mixture.",
 ["src/state.rs"],
 [("push-down transitions", "src/state.rs State methods"), ("acceptable", "src/state.rs State::acceptable")],
 ["cbored::state::State event results and acceptable() after each event"],
 [("ctx", "stack of open containers", "src/state.rs State.ctx")])

prop("C20", "Two decoded values are equal exactly when their encodings are equal",
 "Equality of values obtained from the reader (borrowed or owned, whole data or individual parts) is representational: two values compare equal if and only if their original encodings are byte-for-byte identical. Copying, owning and borrowing never change what a value is equal to.",
 ["inputs"], "every pair of accepted items, in particular pairs with the same meaning but different encodings",
 "No test compares two decoded structures.",
 ["src/types/mod.rs", "src/types/structure.rs", "src/types/streamable.rs", "src/types/scalar.rs", "src/types/float.rs", "src/prim.rs"],
 [("structural equality over kept encoding", "PartialEq on Data/DataOwned/Array/Map/Tag/Bytes/Text/CborSlice/CborData")],
 ["== on Data, DataOwned and parts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
