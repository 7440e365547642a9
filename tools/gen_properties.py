#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in (state or [])],
                               observe_at=observe, hook_needed=hook)))
S = "src/mfast/"
V1E = [S+"coder/encoder/fast_encoder.cpp", S+"coder/encoder/encoder_field_operator.cpp", S+"coder/encoder/fast_ostream.h", S+"coder/encoder/fast_ostreambuf.h", S+"coder/encoder/fast_ostreambuf.cpp", S+"coder/encoder/encoder_presence_map.h"]
V1D = [S+"coder/decoder/fast_decoder.cpp", S+"coder/decoder/decoder_field_operator.cpp", S+"coder/decoder/fast_istream.h", S+"coder/decoder/fast_istream.cpp", S+"coder/decoder/decoder_presence_map.h", S+"coder/decoder/decoder_presence_map.cpp", S+"coder/decoder/check_overflow.h"]
V2E = [S+"coder/encoder_v2/fast_encoder_core.h", S+"coder/encoder_v2/fast_encoder_core.cpp", S+"coder/fast_encoder_v2.h"]
V2D = [S+"coder/decoder_v2/fast_decoder_core.h", S+"coder/decoder_v2/fast_istream_extractor.h", S+"coder/fast_decoder_v2.h"]
COM = [S+"coder/common/codec_helper.h", S+"coder/common/codec_helper.cpp", S+"coder/common/dictionary_builder.cpp", S+"coder/common/template_repo.h", S+"instructions/"]
prop("C01", "Run-time codec round trip over message histories",
 "Whatever the templates (every field type, presence, operator and initial value; groups, sequences, nested templates) and whatever the sequence of messages sent on one stream, decoding with the run-time-template decoder what the run-time-template encoder produced yields, message by message, the same template with the same present/absent status and value for every field. The decoder consumes exactly the bytes the encoder emitted for that message, and encoding leaves the message itself unchanged. The one documented departure is an absent optional field with the default operator and an initial value, which the encoders send as 'not set' and which therefore arrives as the initial value (the run-time codec: only for fields at the top level of a message; elsewhere it arrives absent).",
 ["inputs","histories","programs"], "all templates x all message sequences on one encoder/decoder pair (resets at the same places on both sides)",
 "The operators are stateful: what a field looks like on the wire depends on all previous messages. The tests check about one or two hand-written messages per operator with hand-written bytes; the interaction of presence, previous value and initial value is sampled at a handful of points.",
 V1E+V1D+COM, [("previous value update on encode", S+"coder/encoder/encoder_field_operator.cpp"),("previous value update on decode", S+"coder/decoder/decoder_field_operator.cpp"),("segment traversal", S+"coder/encoder/fast_encoder.cpp and "+S+"coder/decoder/fast_decoder.cpp")],
 ["fast_encoder::encode", "fast_decoder::decode"], [("prev_value of each instruction","previous-value dictionary entry shared by the fields with the same key")])
prop("C02", "Generated-code codec round trip over message histories",
 "For code generated from any templates file the generated codec supports (integer vectors are outside it) and any sequence of messages on one stream, the generated-code decoder (whatever its number of tokens) returns for the bytes of the generated-code encoder the same templates with the same presence and values. It consumes exactly the bytes that were emitted, and encoding leaves the message itself unchanged. The one documented departure is an absent optional field with the default operator and an initial value, which is sent as 'not set' and therefore arrives as the initial value.",
 ["inputs","histories","programs"], "all generated templates x all message sequences on one encoder_v2/decoder_v2 pair",
 "The v2 codecs select their code per field at compile time from type/operator/presence properties; the tests instantiate only a few combinations and send one to three messages through each.",
 V2E+V2D+COM+[S+"ext_ref.h","src/fast_type_gen/"], [("compile-time operator dispatch", S+"coder/encoder_v2/fast_encoder_core.h, "+S+"coder/decoder_v2/fast_decoder_core.h"),("property traits", S+"ext_ref.h")],
 ["fast_encoder_v2::encode", "fast_decoder_v2::decode"])
prop("C03", "Encoders emit FAST-conformant bytes",
 "Every byte sequence produced by either encoder for a history of messages is a well-formed FAST 1.1 stream whose meaning, by the FAST specification's decoding rules (presence map, nullability, operators, dictionaries), is exactly the encoded messages (apart from the departure for absent optional fields with a default stated in C01/C02, and differences of 64-bit delta fields that do not fit 64 bits).",
 ["inputs","histories","programs"], "all templates x all message histories, for both encoders, judged by an independently written FAST 1.1 decoder",
 "The tests compare a few encodings with literal bytes; an encoder/decoder pair that is wrong in the same way on both sides passes any round trip but cannot talk to a real exchange feed.",
 V1E+V2E+COM, [("stop-bit/nullable output", S+"coder/encoder/fast_ostream.h"),("operator encoding", S+"coder/encoder/encoder_field_operator.cpp")], ["bytes returned by encode"])
prop("C04", "Decoders give every byte stream its FAST meaning",
 "For every byte stream, both decoders either return the message that the FAST 1.1 decoding rules give for the stream and the history before it, or, where those rules define no value (value missing for a mandatory field, integer out of range, delta subtraction too long, unknown template, ...), report an error by throwing; they never silently return different values. Streams that are conformant but not what mFAST's own encoders emit (redundant operators values sent explicitly, other tail/delta splits, overlong presence maps) are included. For overlong integers and strings, exponents outside -63..63 and delta results outside the range of the field, either the error or the exact value is acceptable.",
 ["inputs","histories","programs"], "all byte streams up to a length bound, from every dictionary state reachable in few messages, per template",
 "Tests feed only streams produced by hand for the happy path of each operator; peers may choose any legal encoding, which no sample of mFAST-encoded streams covers.",
 V1D+V2D+COM, [("operator decoding", S+"coder/decoder/decoder_field_operator.cpp, "+S+"coder/decoder_v2/fast_decoder_core.h"),("integer overflow detection", S+"coder/decoder/check_overflow.h")], ["fast_decoder::decode","fast_decoder_v2::decode"])
prop("C05", "Decoding arbitrary bytes is memory safe and terminates",
 "Decoding any byte string, including truncated and malicious ones, never reads outside the given range, never touches memory it does not own, and always ends by returning a message or throwing an exception. The position reported back to the caller is never outside the given range.",
 ["inputs","histories"], "all byte strings up to a bound plus every truncation and single-byte corruption of valid streams, for both decoders",
 "Network input is untrusted; tests decode complete well-formed buffers only, so an over-read on a truncated string, length or presence map is never executed.",
 V1D+V2D, [("input range check", S+"coder/decoder/fast_istream.cpp, fast_istreambuf"),("length checks before skip", S+"coder/decoder/fast_istream.h")], ["fast_decoder::decode","fast_decoder_v2::decode"])
prop("C06", "Encoders never write outside the output buffer",
 "Encoding into a caller's buffer of any size either returns the full encoding, within the buffer, or throws; it never writes a byte outside the given buffer, and the returned length is what was written. Encoding into a growable vector appends exactly the same bytes after the vector's existing contents, which stay unchanged, whatever its initial size and capacity.",
 ["inputs","configurations"], "all buffer sizes and start offsets x message shapes (presence maps shorter and longer than their reserved space)",
 "Tests pass buffers far larger than the message; every boundary size is a separate case and presence-map bytes are written back (and the body shifted) after the body.",
 [S+"coder/encoder/fast_ostreambuf.h",S+"coder/encoder/fast_ostreambuf.cpp",S+"coder/encoder/resizable_fast_ostreambuf.h",S+"coder/encoder/encoder_presence_map.h",S+"coder/encoder/fast_ostream.h"]+V2E+[S+"coder/encoder/fast_encoder.cpp"], [("overflow handling", S+"coder/encoder/fast_ostreambuf.cpp"),("write back of presence map", S+"coder/encoder/fast_ostreambuf.h write_bytes_at")], ["fast_encoder::encode","fast_encoder_v2::encode"])
prop("C07", "The two codec generations are interchangeable",
 "For the same templates, the bytes written by the run-time-template encoder decode with the generated-code decoder, and the other way round, to the same messages, over every message history (up to the departure for absent optional fields with a default stated in C01/C02; integer vectors have no generated codec); a producer and consumer may use different codec generations without ever disagreeing.",
 ["inputs","histories","programs"], "all generated templates x message histories, both directions",
 "The two implementations of the operators are written separately; tests exercise each alone.",
 V1E+V1D+V2E+V2D, [("duplicated operator implementations", S+"coder/encoder/encoder_field_operator.cpp vs "+S+"coder/encoder_v2/fast_encoder_core.h; "+S+"coder/decoder/decoder_field_operator.cpp vs "+S+"coder/decoder_v2/fast_decoder_core.h")], ["fast_encoder::encode / fast_decoder_v2::decode","fast_encoder_v2::encode / fast_decoder::decode"])
prop("C08", "Presence maps of every length keep every bit",
 "For any number of presence-map bits and any combination of bit values, in message, group and sequence-element presence maps, the decoder sees for each field the bit the encoder set for it. Decoders give a presence map the same meaning whether trailing zero bytes are sent or omitted; an encoder with overlong presence maps disabled omits every trailing all-zero byte except the first, and both settings of the encoder decode alike.",
 ["inputs","configurations"], "all bit patterns for small maps and all 1-2-bit-deviation patterns for large ones, across the byte and machine-word boundaries, overlong allowed or not",
 "Word boundaries (7, 8, 9 bytes = 49, 56, 63 bits and beyond) need templates with 50+ optional fields; tests use a couple of fixed maps.",
 [S+"coder/encoder/encoder_presence_map.h",S+"coder/decoder/decoder_presence_map.h",S+"coder/decoder/decoder_presence_map.cpp"], [("multi-word continuation", S+"coder/decoder/decoder_presence_map.cpp continue_"),("commit of partially filled word", S+"coder/encoder/encoder_presence_map.h")], ["fast_encoder::encode","fast_decoder::decode","decoder_presence_map"])
prop("C09", "Integer stop-bit encoding is exact over the whole range",
 "Every value of every integer type (signed and unsigned, 32 and 64 bits, mandatory and nullable, as plain value and as a copy/increment/delta of any other value; decimal exponents and mantissas, lengths and template ids likewise) is written in the minimal number of stop-bit bytes with correct sign extension and read back exactly; a wire value outside the field type's range is an error, never a wrapped value. (A 64-bit delta whose difference itself does not fit 64 bits is outside this.)",
 ["inputs"], "all values within a radius of every power-of-two and type boundary, and for narrow types every value, with every such pair for delta",
 "Tests check around a dozen literal integers; sign-extension and nullable off-by-one errors appear only at 7-bit boundaries and type limits.",
 [S+"coder/encoder/fast_ostream.h",S+"coder/decoder/fast_istream.h",S+"coder/decoder/check_overflow.h"], [("stop-bit loop", S+"coder/encoder/fast_ostream.h encode"),("overflow check", S+"coder/decoder/check_overflow.h")], ["fast_encoder::encode","fast_decoder::decode"])
prop("C10", "Reset puts a codec back in its initial state",
 "After a reset (requested by the caller for a message, or triggered on both sides by a template that declares itself to be reset-carrying), encoding or decoding continues exactly as on a freshly created codec with the same templates, whatever happened before; without a reset no state is lost.",
 ["histories"], "all histories to a bound of messages over several templates, reset at any position, compared with a fresh codec",
 "Resets in the tests happen once after one message; leftover previous values show only for particular operator/history combinations.",
 [S+"coder/common/template_repo.h",S+"coder/encoder/fast_encoder.cpp",S+"coder/decoder/fast_decoder.cpp",S+"coder/fast_decoder_v2.h",S+"coder/fast_encoder_v2.h"]+V2E+V2D, [("reset of previous values", S+"coder/common/template_repo.h reset_dictionary"),("reset list built with the dictionary", S+"coder/common/dictionary_builder.cpp")], ["encode(..., force_reset)", "decode(..., force_reset)","scp:reset templates"])
prop("C11", "A failed decode or encode does not poison the codec after reset",
 "After any decode or encode call that throws (truncated or invalid input, unknown template id, buffer too small, unencodable message), a following call with reset behaves exactly as on a freshly created codec with the same templates: same result, same values, no leaks of the partial message, no invalid memory access.",
 ["histories","inputs","fault_sequences"], "all failing inputs (every truncation / corruption / buffer size) x following message histories",
 "Error paths leave partly decoded nested messages and sequences behind; tests do not reuse a codec after an exception.",
 V1D+V2D+V1E+V2E, [("active message/current field bookkeeping", S+"coder/decoder/fast_decoder.cpp, "+S+"coder/decoder_v2/fast_decoder_core.h"),("message storage ownership", S+"coder/common/template_repo.h")], ["decode after throw","encode after throw"])
prop("C12", "Operator state is shared by dictionary key and nothing else",
 "Two fields share a previous value exactly when they have the same dictionary (global, template, type, or a user-named one), key name and namespace (by default the name and namespace of the field; the length of a sequence uses the dictionary of the sequence); a field with a different key, template or application type never sees the other's history, in either codec generation and on both encoder and decoder side. Sharing one key between fields of different types is reported as an error rather than mixing values.",
 ["programs","histories"], "all pairs of fields over dictionary scope x key x namespace x (same or different template) x interleavings of messages",
 "Tests cover a couple of key attributes; mix-ups appear only when two fields in two templates are interleaved in particular orders.",
 [S+"coder/common/dictionary_builder.cpp",S+"coder/common/dictionary_builder.h",S+"xml_parser/field_op.cpp",S+"xml_parser/field_builder.cpp","src/fast_type_gen/inl_gen.cpp"], [("key construction", S+"coder/common/dictionary_builder.cpp"),("inheritance of dictionary/ns attributes", S+"xml_parser/")], ["fast_encoder::encode","fast_decoder::decode","v2 codecs"])
prop("C13", "JSON text round trip preserves messages",
 "Any message written as JSON is one syntactically valid JSON text, and reading that text into a fresh message of the same template gives an equal message (every field type, absent optionals, optionals that are present but empty, groups, sequences, enums, sets, decimals, vectors, and strings containing quotes, backslashes, control and non-ASCII characters). Decimals compare as numbers; the elements of unnamed sequences may be absent; fields tagged as raw JSON contain a JSON object; dynamic template references are written only.",
 ["inputs","programs"], "all field types x value alphabets incl. every single byte in strings x nesting",
 "Escaping and optional/nested handling depend on every character and every presence combination; tests use one sample message.",
 [S+"json/json_encode.cpp",S+"json/json_decode.cpp",S+"json/json.h"], [("string escaping", S+"json/json_encode.cpp"),("field dispatch", S+"json/json_decode.cpp")], ["mfast::json::encode","mfast::json::decode"])
prop("C14", "JSON reader: accepts valid text in any form, rejects the rest safely",
 "Reading any text into a message ends with success or a reported failure, without invalid memory access or endless looping. Text that is a valid rendering of a message in any member order, with any JSON whitespace and with extra unknown members of any JSON value, gives the same message as the canonical rendering; any of the escape forms of a string and any number form of a decimal is read with its meaning. A text that ends early and a number outside the range of its field are reported, and after a failure the message can be read into again.",
 ["inputs"], "all short strings over the JSON token alphabet, all member orders, all whitespace insertions, unknown members of every JSON kind, every truncation of valid texts",
 "The reader skips values it does not know; a test covers one unknown member of one shape.",
 [S+"json/json_decode.cpp"], [("skip_value", S+"json/json_decode.cpp"),("parse_string", S+"json/json_decode.cpp")], ["mfast::json::decode"])
prop("C15", "String and vector fields behave like std::string / std::vector",
 "Every sequence of operations on a string, byte-vector or integer-vector field (as, assign, append, push_back/pop_back, insert and replace at any valid position, resize, reserve, swap, refers_to/shallow_assign, omit, to_initial_value, assignment from another field or from itself) leaves the contents, size and presence that the same operations give on the standard container, without touching memory outside the field's storage.",
 ["histories","inputs"], "all operation sequences to a bounded depth over small arguments, starting from absent, initial (constant storage) and assigned contents",
 "Capacity growth, ownership of constant storage and element-size arithmetic depend on the sequence of earlier operations; tests call each operation once.",
 [S+"vector_ref.h",S+"string_ref.h",S+"int_vector_ref.h",S+"instructions/vector_instruction_base.h"], [("reserve/shift", S+"vector_ref.h"),("capacity/ownership flags", S+"value_storage.h")], ["ascii_string_mref","unicode_string_mref","byte_vector_mref","int32_vector_mref..uint64_vector_mref"])
prop("C16", "Sequence fields behave like a list of independent elements",
 "Every sequence of operations on a sequence field (resize, grow_by, reserve, assign, as, swap, omit, changing elements, iteration and indexing) leaves the number of elements and the element contents that a list of independent records would have: elements that were never part of the sequence before start in their template's initial state, existing elements keep their values across growth (elements that come back after shrinking are unspecified), and no memory is leaked or used after release.",
 ["histories"], "all operation sequences to a bounded depth, element types with nested strings, groups and sequences",
 "Element storage is moved on growth and recycled on shrink; stale contents or double ownership appear only after particular operation orders.",
 [S+"sequence_ref.h",S+"instructions/sequence_instruction.cpp",S+"instructions/group_instruction.cpp"], [("element construction/destruction", S+"instructions/sequence_instruction.cpp"),("resize/reserve", S+"sequence_ref.h")], ["sequence_mref","make_mref<Generated>"])
prop("C17", "Message copies are deep and independent",
 "Copying or assigning a message, group, sequence, nested message or field gives an equal value that shares no storage with the source: later changes to or destruction of either never alter the other, moving transfers the contents, and everything is released exactly once.",
 ["inputs","histories"], "all message shapes x all single-field mutations after copy x source/destination destruction orders",
 "Strings, vectors and sequences use hand-managed storage with ownership flags; tests copy one message.",
 [S+"message_ref.h",S+"aggregate_ref.h",S+"instructions/",S+"nested_message_ref.h"], [("copy_construct_value / copy_from", S+"instructions/")], ["message_type copy","X_mref::as()","aggregate copy"])
prop("C18", "Arena allocator hands out disjoint, usable, stable blocks",
 "Whatever the sequence of allocate, reallocate and reset calls, every block handed out by the arena allocators is suitably aligned, has at least the requested size, does not overlap any other live block, keeps its contents until reset, and reallocation preserves the old contents (as much as fits when shrinking). A request that cannot be met, however large, is reported; repeating the same requests after a reset needs no further memory, and everything obtained from the system is released when the allocator goes.",
 ["histories"], "all request sequences to a bounded depth with sizes around the chunk boundaries",
 "The defects live at chunk boundaries and in the reuse of chunks after reset, which depend on the request history.",
 [S+"arena_allocator.h",S+"arena_allocator.cpp",S+"allocator.h",S+"malloc_allocator.h"], [("chunk list handling", S+"arena_allocator.cpp")], ["arena_allocator::allocate/reallocate/reset"])
prop("C19", "Message equality is an equivalence that means same content",
 "Two messages, groups, sequences or fields of the same template compare equal exactly when they have the same presence and values field by field (decimals by mantissa and exponent); messages whose templates differ in the number or types of fields, or whose contents differ, are never equal; comparison is reflexive and symmetric, inequality is its negation. Typed references and generated classes (including enums, sets and booleans) compare in the same way.",
 ["inputs"], "all pairs of messages from a value alphabet per field type and nesting shape",
 "Comparison is written per field type; a comparison that ignores part of a value is never noticed by tests that compare identical or totally different messages.",
 [S+"vector_ref.h",S+"string_ref.h",S+"aggregate_ref.h",S+"field_comparator.h",S+"decimal_ref.h",S+"int_ref.h",S+"sequence_ref.h",S+"message_ref.h"], [("field comparators", S+"field_comparator.h")], ["operator==","operator!="])
prop("C20", "Template XML means the same however it is written",
 "Loading templates from XML gives each field the name, id, namespace, presence, type, operator, initial value, dictionary and key the FAST template rules assign (attributes inherited from enclosing elements, defined types, references to other templates expanded in place), and equivalent ways of writing a template give codecs with identical wire behaviour. Generated code carries exactly the template description the run-time parser builds from the same file, and malformed XML or unresolved references are reported as errors.",
 ["programs"], "all field types x operators x attribute placements (own/inherited/overridden) x reference/define/inline forms, plus malformed variants",
 "Tests parse a few fixed documents; inheritance of ns/dictionary/typeRef is per element and per level.",
 [S+"xml_parser/","src/fast_type_gen/"], [("attribute inheritance", S+"xml_parser/templates_builder.cpp, field_builder.cpp"),("generator output", "src/fast_type_gen/inl_gen.cpp")], ["dynamic_templates_description","generated templates_description::instance()"])
prop("C21", "Decimal values convert exactly to and from text",
 "Every decimal (mantissa, exponent) printed as text and read back gives the same number, reading any decimal literal gives exactly the number it denotes (sign, leading zeros, fraction, exponent), and normalising or changing representation never changes the number; a value or text that cannot be represented or is no decimal literal is reported, not silently altered (except that a decimal with a constant exponent drops the digits below it).",
 ["inputs"], "all mantissas near 0 and the type limits with all exponents in a window; all decimal literals to a bounded length",
 "Signs, zeros and boundaries interact (e.g. -0.5, 0.050, 10.00); tests parse a handful of literals.",
 [S+"value_storage.cpp",S+"value_storage.h",S+"decimal_ref.h",S+"instructions/decimal_instruction.cpp"], [("stream extraction/insertion", S+"value_storage.cpp")], ["operator<<(decimal_value_storage)","operator>>(decimal_value_storage)","decimal_mref::as/normalize"])
prop("C22", "Views yield the first present alternative of every view field, in order",
 "Iterating a view over any message yields, for each of the view's fields in order, exactly one item: the first of the field's references (paths through groups, static template references and numbered sequence elements) that designates a present field, with that field's current value, or an absent item when none does; then it ends. Iterators are multi-pass, views of generated classes and of run-time descriptions agree, accept_accessor visits exactly the present items, and a view with no name, an unknown target, a field without reference, or a reference to a field that does not exist or with an invalid element number is reported when the description is loaded.",
 ["inputs","programs"], "all views of up to 3 (thorough 4) references over 20 reference paths, grouped into fields in every way, over 630 messages covering presence and element counts",
 "The iterator keeps a path stack between entries and skips alternatives; tests walk one message with one view.",
 [S+"view_iterator.cpp",S+"view_iterator.h",S+"xml_parser/view_info_builder.cpp","src/fast_type_gen/inl_gen.cpp"], [("path stack", S+"view_iterator.cpp access_field/select"),("reference paths", S+"xml_parser/view_info_builder.cpp")], ["view_iterator","generated view classes","dynamic_templates_description::view_infos()"])
prop("C23", "Allocation failure never corrupts messages or codecs",
 "If any memory allocation inside building, changing, copying, encoding or decoding a message fails (once, or from some point on), the operation reports it by an exception, and all objects involved can still be destroyed, reassigned or (codecs, with reset) reused without invalid memory access or a double release.",
 ["fault_sequences","histories"], "every allocation index of every operation script fails once (and every later one, in the persistent variant)",
 "Needs an injected failure at each allocation point; tests never fail an allocation.",
 [S+"malloc_allocator.h",S+"vector_ref.h",S+"instructions/",S+"sequence_ref.h",S+"message_ref.h"]+V1D, [("storage update order on allocation", S+"instructions/, "+S+"vector_ref.h")], ["message_type construction/copy","field mutators","decode"])
prop("C24", "Independent codecs and streams do not influence each other",
 "Encoders and decoders created over the same templates are independent: interleaving calls on several instances (or on several stream tokens of one decoder whose tokens designate separate message arenas) in any order, on one thread or, one instance per thread, on several, gives each the same results as running it alone.",
 ["schedules","histories"], "all interleavings of the operations of 2-3 codec instances over shared template descriptions; concurrent runs race-free",
 "Template descriptions are shared static data; state wrongly kept in shared descriptions shows only when two codecs' calls interleave.",
 [S+"coder/common/template_repo.h",S+"coder/common/dictionary_builder.cpp",S+"coder/decoder/fast_decoder.cpp",S+"coder/encoder/fast_encoder.cpp"]+V2D, [("cloning of instructions per codec", S+"coder/common/dictionary_builder.cpp")], ["several fast_encoder/fast_decoder instances"])
prop("C25", "SQLite persistence round trip preserves messages",
 "A message persisted to a database created from the same templates and read back by its primary key is equal to the original, for every field type, presence combination, group, sequence and nested template shape, whatever other messages are stored.",
 ["inputs","histories"], "all value combinations from a small alphabet per field type and nesting shape x orders of several persisted messages",
 "The tests persist one or two fixed messages.",
 [S+"sqlite3/"], [("DML generation", S+"sqlite3/first_pass_visitor.cpp ..."),("commit_message/populate", S+"sqlite3/converter_core.cpp")], ["sqlite3 converter"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
