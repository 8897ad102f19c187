"""writes properties.jsonl (the hand-written source of the property list)"""
import json, os

P = "bondrewd-derive/src/structs/"
E = "bondrewd-derive/src/enums/"
INTO, FROM, COMMON, PARSE, SFNS = P + "into_bytes.rs", P + "from_bytes.rs", P + "common.rs", P + "parse.rs", P + "struct_fns.rs"
out = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    out.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None},
    })


LAY = "every accepted structure definition (field types, bit lengths, bit offsets, endianness, byte reversal, lsb0/msb0, arrays, nesting)"

prop("C01", "Encoding then decoding a structure gives the structure back",
     "For every structure that derives Bitfields and every value of it whose fields fit their declared bit lengths, decoding the bytes it encodes to gives back an equal value. Only reserve fields (which decode to their default) and read-only or redundant views (which are not stored) are exempt, and neither call panics.",
     ["inputs", "programs"], LAY + " x every field value that fits, including negative values of signed fields, floats by bit pattern and every char.",
     "The tests round-trip a handful of values of about forty structures, and few signed ones; the defect space is type x width x bit offset x endianness x reversal x value.",
     [INTO, FROM, COMMON], [("into_bytes generation", INTO), ("from_bytes generation", FROM), ("bit masks and shifts", COMMON + " BitMath/get_left_and_mask/get_right_and_mask")],
     ["S::from_bytes(s.into_bytes())"])
prop("C02", "Encoded bytes follow the declared bit layout exactly",
     "Encoding a structure yields a byte array in which each stored field occupies exactly its declared bit range - big endian fields most significant bit first, little endian fields least significant byte first with the last partial byte last - counted from the first byte, or from the last byte under reverse, or mirrored under lsb0. A value wider than its field is truncated to the field's low bits, and every bit owned by no stored field is zero.",
     ["inputs", "programs"], LAY + " x every combination of field values, including values wider than the field.",
     "Byte images are asserted for few values per layout; interoperability needs the image for every value and every layout.",
     [INTO, COMMON, PARSE], [("field quotes per endianness", INTO + " get_field_quote/apply_*_math_to_field_access_quote"), ("bit range assignment", COMMON + " parse_fields"), ("range attributes", PARSE)],
     ["S::into_bytes"])
prop("C03", "A field read decodes exactly that field's bits",
     "Reading one field from a byte array returns the value encoded by that field's bits - sign extended if the type is signed - for every content of the array. It never panics and does not depend on any bit outside the field.",
     ["inputs", "programs"], LAY + " x every content of the byte array.",
     "Tests read fields back from arrays an encoder produced; arbitrary bytes and negative values hardly occur.",
     [FROM, COMMON], [("get_field_quote and the le/be/ne read math", FROM), ("masks", COMMON)], ["S::read_<field>"])
prop("C04", "A field write stores exactly that field's bits and nothing else",
     "Writing one field into a byte array makes the field's bits encode the low bits of the value and leaves every bit outside the field as it was, for every previous content of the array and every value. It never panics.",
     ["inputs", "programs"], LAY + " x every previous content of the array x every value, including values wider than the field.",
     "Tests write into arrays whose other bits are known and few; clobbered neighbours and bits that are not cleared show only for particular old contents.",
     [INTO, COMMON], [("get_field_quote / get_clear_quote", INTO), ("masks", COMMON)], ["S::write_<field>"])
prop("C05", "Decoding accepts every byte array and agrees with the field reads",
     "Decoding any byte array of the structure's size succeeds without panicking, and every stored field of the result equals what reading that field from the same bytes returns. Encoding the result again reproduces every stored bit of the array and has zero everywhere else.",
     ["inputs", "programs"], LAY + " x every byte array of the structure's size (for structures without reserve fields the re-encoding covers all stored bits).",
     "Tests decode few arrays per structure, nearly all produced by the encoder.",
     [FROM, INTO], [("from_bytes generation", FROM + " create_fields_quotes"), ("peek fns", FROM)], ["S::from_bytes", "S::read_<field>", "S::into_bytes"])
prop("C06", "Array elements each own their consecutive share of the field's bits",
     "In an array field with an element bit length, element i occupies the i-th consecutive group of that many bits; in a block array, the declared bits are shared out in order, the first element taking the remainder when the length is not a multiple of the element size and the others full size. Encoding, decoding, reading and writing the array follow that layout for every element value, also when elements are nested structures or enums.",
     ["inputs", "programs"], "every element type, array length, element or block bit length, bit offset, endianness and reversal x every content.",
     "Five array tests use one or two contents each; off-by-one element placement and element-crossing writes are layout specific.",
     [INTO, FROM, COMMON], [("ElementSubFieldIter / BlockSubFieldIter", COMMON), ("array quotes", INTO + ", " + FROM)], ["S::into_bytes", "S::from_bytes", "S::read_<array>", "S::write_<array>"])
prop("C07", "Nested structures and enums use exactly the bits of their field",
     "A nested Bitfields field occupies its declared bits with the leading bits of the inner type's own encoding, and reads back as the inner type's decoding of those bits. If no stored bit of the inner encoding lies past them, outer values round-trip with the nested value unchanged, and writing the nested field alone changes no bit outside it.",
     ["inputs", "programs"], "every inner type (structure, Bitfields enum, primitive enum, arrays of them), declared size, bit offset and reversal of outer and inner x every content.",
     "Nested layouts are tested at two or three offsets with one value each.",
     [INTO, FROM], [("struct and enum field quotes", INTO + ", " + FROM)], ["S::into_bytes", "S::from_bytes", "S::read_<nested>", "S::write_<nested>"])
prop("C08", "A Bitfields enum encodes its id and decodes by it",
     "Encoding an enum value writes its variant's id in the id bits and the variant's fields after it, zero elsewhere; decoding looks only at the id bits to choose the variant, and every id with no variant of its own decodes to the catch-all variant. Every variant value round-trips, a captured id comes back as the id that was in the bytes, and reading or writing the id alone touches only the id bits.",
     ["inputs", "programs"], "every enum (id width, explicit/implicit ids, catch-all position, payloads, endianness, reversal) x every byte array and every variant value.",
     "Tests decode a few ids; unassigned ids and the full payload space are not covered.",
     [INTO, FROM, COMMON, "bondrewd-derive/src/lib.rs"], [("enum into_bytes/from_bytes quotes", INTO + ", " + FROM + " create_*_field_quotes_enum"), ("match on the variant id", "bondrewd-derive/src/lib.rs")],
     ["E::into_bytes", "E::from_bytes", "E::read_variant_id", "E::write_variant_id", "E::id"])
prop("C09", "Variant ids are unique and assigned to the lowest free numbers in order",
     "A variant keeps an id given explicitly (as attribute or discriminant); the others receive, in declaration order, the lowest numbers not used by any variant. A definition that repeats an id, has an id that does not fit the id bits, or names two catch-all variants is rejected at compile time.",
     ["programs"], "every enum definition: any mix of explicit and implicit ids, any number of variants, any position of the catch-all.",
     "Two or three enums are compiled by the tests; an assignment error shows only for particular mixes, and rejection is not tested.",
     [COMMON], [("id assignment and conflict checks", COMMON + " ObjectInfo::parse")], ["E::id", "E::from_bytes", "compile errors"])
prop("C10", "Slice field functions check the length exactly, then behave like array ones",
     "Reading or writing a field through a slice succeeds exactly when the slice contains every byte the field uses; a shorter slice gives a length error that reports the slice's length and the needed length and leaves the slice untouched, and no slice makes it panic. On success the result and the effect equal those of the array function on the same bytes.",
     ["inputs", "programs", "configurations"], "every field of every layout with dynamic functions enabled x every slice length from 0 to beyond the structure's size x every content.",
     "The stable tests never enable the dynamic functions at all.",
     [FROM, INTO], [("make_peek_slice_fn", FROM), ("make_write_slice_fn", INTO), ("BitfieldLengthError", "bondrewd/src/error.rs")], ["S::read_slice_<field>", "S::write_slice_<field>"])
prop("C11", "A checked slice gives panic-free access identical to the array functions",
     "Checking a slice succeeds exactly when it has at least the structure's size, and otherwise reports both lengths. Through the checked wrapper every field read returns what the array read returns and every field write has exactly the effect of the array write, without panicking, and changes nothing beyond the structure's bytes.",
     ["inputs", "programs", "configurations"], "every layout with dynamic functions enabled x every slice length x every content x every value.",
     "Not exercised by the stable tests.",
     [FROM, INTO, SFNS], [("get_check_slice_fn", FROM), ("checked structures", "bondrewd-derive/src/lib.rs")], ["S::check_slice", "S::check_slice_mut", "<S>Checked", "<S>CheckedMut"])
prop("C12", "Decoding from slices and vectors equals decoding the leading bytes",
     "Decoding from a slice or vector at least as long as the structure gives the same value as decoding its leading bytes as an array, and the vector form removes exactly those bytes, keeping the rest in order. A shorter input yields a length error with both lengths, is left untouched, and nothing panics.",
     ["inputs", "programs", "configurations"], "every structure and enum with dynamic functions enabled x every input length x every content.",
     "Not exercised by the stable tests; the doc examples use single inputs.",
     [FROM, "bondrewd/src/lib.rs", "bondrewd-derive/src/lib.rs"], [("from_vec / from_slice generation", FROM), ("BitfieldsDyn", "bondrewd/src/lib.rs")], ["S::from_vec", "S::from_slice"])
prop("C13", "Fixed-size hex encoding and decoding are inverse and report bad characters",
     "Hex encoding writes two digits per encoded byte, high nibble first, in the requested letter case. Decoding accepts digits of either case and returns the structure decoded from those bytes; any other character yields an error naming the first offending position and character, and nothing panics.",
     ["inputs", "programs"], "every structure x every value and every string of twice its size, including non-hex bytes.",
     "One hex test uses one structure and one value.",
     ["bondrewd/src/hex.rs", "bondrewd/src/lib.rs", "bondrewd-derive/src/lib.rs"], [("encode/decode", "bondrewd/src/hex.rs")], ["S::from_hex", "S::into_hex_upper", "S::into_hex_lower"])
prop("C14", "Dynamic hex decoding agrees with the fixed-size one for every input length",
     "Decoding hex from a slice or vector long enough gives the result or error of the fixed-size decoding of its leading characters. A shorter input yields a length error with both lengths, and nothing panics.",
     ["inputs", "programs", "configurations"], "every structure with hex and dynamic functions enabled x every input length x every content.",
     "Not exercised by the stable tests.",
     ["bondrewd/src/hex.rs", "bondrewd/src/lib.rs", "bondrewd/src/error.rs", "bondrewd-derive/src/lib.rs"], [("BitfieldHexDyn", "bondrewd/src/lib.rs")], ["S::from_hex_slice", "S::from_hex_vec"])
prop("C15", "A primitive enum maps numbers to variants totally and consistently",
     "Each variant of a BitfieldEnum converts to its number - the given discriminant, or in declaration order the lowest number not given to another, where a catching variant with a field uses up a number too - and that number converts back to the variant. Every other number converts to the catch-all variant (the marked one, else the last), or is kept in a catching variant with a field, so conversion never panics.",
     ["inputs", "programs"], "every BitfieldEnum definition (explicit and implicit discriminants, catch-all in any position, capturing variants) x all 256 numbers.",
     "The tests check a few numbers of three enums.",
     [E + "parse.rs", E + "from_bytes.rs", E + "into_bytes.rs"], [("literal assignment", E + "parse.rs"), ("match generation", E + "from_bytes.rs, " + E + "into_bytes.rs")], ["E::from_primitive", "E::into_primitive"])
prop("C16", "Sizes are computed exactly and size enforcement accepts only matching layouts",
     "The reported bit size of a structure is the sum of its fields' declared bits (plus padding up to fill_bytes), that of an enum is its largest variant with id, and the byte size is that number rounded up to bytes and equals the array length used by every conversion. A structure whose size contradicts an enforcement attribute, an enum whose variants exceed its enforced size, and fields larger than fill_bytes are rejected; a matching definition is accepted.",
     ["programs"], "every accepted layout, every enforcement attribute and value.",
     "Only the passing direction of enforcement is compiled by the tests, for a few sizes.",
     [COMMON, SFNS, "bondrewd-derive/src/lib.rs"], [("total_bits/total_bytes", COMMON), ("enforcement", COMMON + " parse_fields")], ["S::BIT_SIZE", "S::BYTE_SIZE", "compile errors"])
prop("C17", "Reserve, read-only and redundant fields never change stored bits",
     "A reserve field decodes to its default value and its bits are zero in an encoding; read-only and redundant fields decode from their bits but encoding ignores their value; a redundant field takes no room in the layout. The single-field read and write functions still reach these bits like those of any field.",
     ["inputs", "programs"], "every layout with such fields at any offset, endianness and reversal x every value and content.",
     "Two tests use one such field each with one value.",
     [INTO, FROM, COMMON], [("ReserveFieldOption / OverlapOptions", COMMON), ("skipping fields", INTO + ", " + FROM)], ["S::into_bytes", "S::from_bytes", "S::read_<field>", "S::write_<field>"])
prop("C18", "Definitions whose fields overlap are rejected unless overlap is declared",
     "Two fields of one structure or variant that share a bit are rejected at compile time, unless one of them is declared redundant or as overlapping. Fields that share no bit are never rejected as overlapping, whatever their order.",
     ["programs"], "every pair of bit ranges of two fields, in either declaration order, with every overlap option.",
     "No test compiles a rejected definition.",
     [COMMON], [("FieldInfo::overlapping", COMMON), ("from_syn_field", COMMON)], ["compile errors"])
prop("C19", "Floats, bools and chars survive bit for bit and decode totally",
     "A float field carries its full bit pattern, signed zeros, infinities and every NaN payload included, at any bit offset, endianness and reversal. A char field round-trips every char and decodes bytes that are no char to the replacement character, a bool decodes from exactly its bit, and no content panics.",
     ["inputs", "programs"], "f32, f64, char and bool fields at every bit offset, endianness and reversal x all bit patterns.",
     "One float test uses two numbers; NaN payloads and invalid chars are never read.",
     [INTO, FROM], [("Float/Char/Boolean quotes", INTO + ", " + FROM)], ["S::read_<field>", "S::write_<field>", "S::into_bytes", "S::from_bytes"])
prop("C20", "Comparing a primitive enum or its id with a number agrees with the conversion",
     "A BitfieldEnum value of an ordinary variant equals a number exactly when it is the number the variant converts to, and a catch-all variant equals no number. A Bitfields enum value equals a number exactly when the number is its id.",
     ["inputs", "programs", "configurations"], "every enum definition with the comparison feature x every variant value x every number of the id type.",
     "Not exercised by the stable tests.",
     [E + "partial_eq.rs", "bondrewd-derive/src/lib.rs"], [("PartialEq generation", E + "partial_eq.rs, bondrewd-derive/src/lib.rs")], ["PartialEq"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
