#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S7, S8, H = "midi2/src/sysex7.rs", "midi2/src/sysex8.rs", "midi2/src/detail/helpers.rs"
S7P, S8P = "midi2/src/sysex7/packet.rs", "midi2/src/sysex8/packet.rs"
GM = "midi2_proc/src/generate_message.rs"

p("C01", "Sysex payload edits behave like the same edits on a plain byte list",
  "For SysEx7 (UMP and byte form) and SysEx8, any sequence of payload edits (set, insert, append, splice over any range form, set_byte, append_byte), applied to a message obtained in any way (constructed, parsed with partly filled packets, with unrelated data behind it, or already edited), leaves payload() and payload_size() equal to what the same edits do to a plain list of bytes, with group and stream id unchanged. The outcome depends only on the bytes the supplied iterator yields, not on its size hints. Indices past the end panic as documented and never silently corrupt the message.",
  ["histories", "inputs"], "every sequence of edit operations, every position/length, every starting packetisation, every byte value, every legal iterator size-hint behaviour",
  "Unit tests run a few single edits on a few starting messages (mostly freshly built, exact size hints); the property quantifies over all histories, positions relative to packet boundaries, non-compact starting packetisations and iterator shapes.",
  [S7, S8, H, "midi2/src/traits.rs"],
  [("in-place splice with over/underestimated length", H+" try_splice_sysex_data"), ("tail moves across packet boundaries", S7+" / "+S8+" move_payload_tail"), ("compaction of partly filled packets", S7+" / "+S8+" is_compact, compact"), ("packet status/size rewriting", S7+" try_resize_ump, "+S8+" try_resize"), ("set_byte", S7+" / "+S8)],
  [("payload", "logical byte list of the message"), ("packetisation", "how payload bytes are spread over packets in the buffer"), ("residue", "buffer content behind the message")],
  ["Sysex::payload", "Sysex::payload_size", "Data::data"])

p("C02", "A sysex message is always a well-formed, parseable packet sequence",
  "After construction or any sequence of payload, group or stream-id edits, data() of a SysEx7/SysEx8 message is exactly the canonical spec encoding of its payload, group and stream id: one Complete packet, or Start, Continue..., End; every packet but the last full; correct byte counts; the same group (and stream id) in every packet; unused bytes zero; byte form F0 payload F7. (On a parsed message with partly filled packets, group, stream-id and set_byte writes keep its packet sizes; any other payload edit makes it canonical.) Parsing data() again always succeeds and yields an equal payload, group and stream id, whatever stale content the backing buffer held.",
  ["histories", "inputs"], "every edit history, every payload length, every group / stream id, every prior buffer content",
  "Tests compare data() for a dozen literal messages; header, status, count and padding correctness after grow/shrink histories on dirty buffers is never enumerated.",
  [S7, S8, H],
  [("status/size/group rewriting on resize", S7+" try_resize_ump; "+S8+" try_resize"), ("group / stream id written to all packets", S7+" GroupProperty; "+S8+" GroupProperty, StreamIdProperty"), ("size discovery", S7+" / "+S8+" Size::size")],
  [("packet headers", "type, group, status, count, stream id of each packet")], ["Data::data", "Grouped::group", "Sysex8::stream_id", "TryFrom<&[U]>"])

p("C03", "Fallible sysex edits succeed exactly when the result fits the buffer",
  "On fixed-capacity or partially growable buffers a try_ sysex edit returns Ok exactly when the canonical encoding of the resulting payload fits the buffer's capacity, and then gives the same message as the infallible edit on a growable buffer. Otherwise it returns BufferOverflow, never panics on it, and leaves a valid empty message with its group and stream id kept, on which later edits work normally.",
  ["histories", "fault_sequences", "inputs"], "every buffer capacity, every edit history with refusals at any resize request, every iterator size-hint behaviour",
  "Tests try a handful of overflow cases at one capacity; the boundary capacity, odd capacities, loose size hints and continued use after a refusal are not covered.",
  [S7, S8, H, "midi2/src/buffer.rs"],
  [("refused resize fallback paths", H+" try_splice_sysex_data"), ("SysexTryResizeError capacity report", S7+" / "+S8+" try_resize"), ("reset to empty on failure", H+" try_splice_sysex_data (outer)")],
  [("capacity", "largest size the buffer grants")], ["Result of try_*", "Data::data"])

p("C04", "Parsing any data never panics, and accepted messages are safe to read",
  "For every slice of words or bytes, of any length and content, parsing it as any message, aggregate or packet type returns Ok or Err without panicking. On Ok, data() is a prefix of the input and every read accessor of the result (properties, group, channel, payload, text, packets, packet payloads, iterator length and skipping) completes without panicking.",
  ["inputs"], "every input slice (all lengths, headers, statuses, size fields, trailing content) for every parsing entry point",
  "The fuzz targets and unit tests only sample; truncated packets, out-of-range counts, high-bit bytes inside sysex and unrelated data behind a message are rarely hit.",
  ["midi2/src/message.rs", S7, S8, "midi2/src/flex_data.rs", "midi2/src/ump_stream.rs", "midi2/src/ci/discovery.rs", "midi2/src/packet.rs", GM],
  [("length and property validation", GM+" TryFrom; per property validate()"), ("multi-packet validation", H+" validate_sysex_group_statuses"), ("size discovery", "Size impls in sysex7/8, flex_data, ump_stream")],
  None, ["TryFrom<&[u32]>", "TryFrom<&[u8]>", "all getters"])

p("C05", "Parsing accepts exactly the spec's messages and classifies them correctly",
  "UmpMessage, BytesMessage, the per-type aggregates and every concrete message type accept an input exactly when it starts with a complete message of their kind under the MIDI 2.0 message formats (message type, status, format, bank, minimum length, and those enumerated fields whose undefined codes the library documents as errors; unused or reserved bits, including the top bit of 7-bit data bytes, are ignored), and yield the variant of that message. data() is exactly that message's words or bytes, and data of other kinds following it changes neither acceptance nor any value read from the message.",
  ["inputs"], "every header bit pattern, every length, every trailing content",
  "Tests parse one or two literals per message type; confusions between neighbouring statuses, missed length checks and dependence on trailing words need the whole header space.",
  ["midi2/src/message.rs", "midi2/src/channel_voice1.rs", "midi2/src/channel_voice2.rs", "midi2/src/system_common.rs", "midi2/src/utility.rs", "midi2/src/flex_data.rs", "midi2/src/ump_stream.rs", "midi2_proc/src/derives.rs"],
  [("dispatch on message type/status", "TryFrom impls of the aggregates"), ("constant-field validation", "midi2/src/detail/common_properties.rs, schema.rs")], None, ["TryFrom", "Data::data"])

p("C06", "Multi-packet messages are accepted exactly when packets form one message",
  "A SysEx7, SysEx8, flex-data text or UMP-stream text message is accepted exactly when its leading run of packets of the same UMP message type is either one Complete packet or Start, Continue..., End in order, all of full length, with the same group (and SysEx8 stream id; flex-data bank, status, address and channel; stream status and function block number) in each and legal byte counts. Any missing, extra, reordered, truncated or inconsistent packet in that run is rejected. Fixed-size messages look at their own packet only.",
  ["inputs", "histories"], "every sequence of packet statuses, counts, groups, stream ids, banks and statuses up to the bound, followed by nothing, partial packets or other messages",
  "Tests reject a few hand-made sequences per type; all status orderings combined with a field disagreement in a late packet are not reachable by literals.",
  [H, S7, S8, "midi2/src/flex_data.rs", "midi2/src/ump_stream.rs"],
  [("status automaton", H+" validate_sysex_group_statuses"), ("consistent groups", H+" sysex_group_consistent_groups"), ("packet sizes", S7+" / "+S8+" ValidPacketSizes"), ("consistent status/bank", "flex_data.rs / ump_stream.rs StatusProperty, BankProperty")], None, ["TryFrom<&[u32]>"])

p("C07", "Every property lives in its spec bit positions and writes touch nothing else",
  "For every message type, setting a property stores the value in exactly the bits the MIDI 2.0 specification assigns to it in UMP (and in MIDI 1.0 byte form where it exists), reading returns exactly those bits, and no other bit of the message, header or buffer changes. Hence get-after-set returns the value set, and properties are independent of each other and of the order in which they are written.",
  ["inputs", "histories"], "every message type, buffer form, property, value, prior content and order of writes",
  "Builder-style tests write each field once over zeros with one value; overlap, masking and write-over-ones errors need all values over different backgrounds and write orders.",
  ["midi2/src/detail/schema.rs", "midi2/src/detail/common_properties.rs", "midi2/src/detail/bit_ops.rs", "midi2/src/channel_voice1.rs", "midi2/src/channel_voice2.rs", "midi2/src/system_common.rs", "midi2/src/utility.rs", "midi2/src/flex_data.rs", "midi2/src/ump_stream.rs"],
  [("schema read/write", "midi2/src/detail/schema.rs"), ("bit extraction/insertion", "midi2/src/detail/bit_ops.rs"), ("common properties", "midi2/src/detail/common_properties.rs"), ("generated accessors", GM)], None, ["getters/setters", "Data::data"])

p("C08", "Structured property values round-trip through their spec encodings",
  "Every value of the enumerated or composite property types (note attributes, controllers, key signature, chord names and alterations, tonic, metronome, tempo, optional channel, UI hint, direction, MIDI 1.0 proxy, device identity, version, clip/function-block fields) encodes to the code the MIDI 2.0 specification gives it and reads back unchanged, and distinct values have distinct encodings. Every code in an accepted message decodes to the right value (of two names for the same code, the canonical one) or is rejected at parsing; setting and reading a value the specification defines never panics.",
  ["inputs"], "every value of every structured property type and every code in its field",
  "Tests exercise a few enum members; match arms for the others, boundary indexes and reserved codes are unexecuted.",
  ["midi2/src/channel_voice2/attribute.rs", "midi2/src/channel_voice2/controller.rs", "midi2/src/channel_voice1/control_change.rs", "midi2/src/channel_voice2/program_change.rs", "midi2/src/flex_data/set_key_signature.rs", "midi2/src/flex_data/set_chord_name.rs", "midi2/src/flex_data/tonic.rs", "midi2/src/ump_stream/function_block_info.rs", "midi2/src/ump_stream/device_identity.rs"],
  [("value/code tables", "the files above"), ("validation of codes at parse time", "ReadProperty::validate of those properties")], None, ["getters/setters"])

p("C09", "Construction yields the default message, or fails exactly when too small",
  "Every constructor (new, try_new, new_with_buffer, try_new_with_buffer) of every message type yields the same spec-default message - correct type/status bits, all other bits zero except documented defaults, exact minimum size - whatever the supplied buffer, or the default value of a user-defined buffer, held before. The fallible constructors return BufferOverflow exactly when the buffer cannot hold the minimum message and otherwise succeed; the result parses back to an equal message.",
  ["inputs", "configurations"], "every message type, buffer kind, buffer size and previous buffer content",
  "Tests construct into fresh zeroed buffers; dirty, oversized and undersized buffers across all ~90 types are not tried.",
  [GM, "midi2_proc/src/generate_ci.rs", "midi2/src/buffer.rs", "midi2/src/detail/common_properties.rs"],
  [("generated constructors", GM), ("zeroing and defaults", GM), ("minimum sizes", "MinSizeUmp/MinSizeBytes attributes")], None, ["new*", "Data::data", "TryFrom"])

p("C10", "UMP and byte-stream forms translate into each other without changing meaning",
  "For every channel voice 1, system common and SysEx7 message, conversion between UMP and byte form (infallible, fallible and array forms) preserves every property except the group, gives the spec's byte or UMP encoding, and bytes -> UMP -> bytes is the identity. The fallible forms return BufferOverflow exactly when the target cannot hold the result, and the outcome does not depend on data behind the source message.",
  ["inputs"], "every message content, payload length and packetisation, target buffer kind and capacity",
  "Tests convert one literal per type; all values, packetisations and boundary capacities are not covered.",
  [GM, S7, "midi2/src/channel_voice1.rs", "midi2/src/system_common.rs", "midi2_proc/src/derives.rs"],
  [("generated property-copy conversions", GM), ("sysex7 conversion", S7+" try_from_other"), ("aggregate conversions", "midi2_proc/src/derives.rs")], None, ["FromBytes", "FromUmp", "TryFromBytes", "TryFromUmp"])

p("C11", "Rebuffering preserves a message, and fails only when it does not fit",
  "Moving any message or aggregate between backing buffers (slice, mutable slice, vector, array, user-defined; rebuffer, try_rebuffer, array_rebuffer) yields a message with identical data() and identical property values, and for aggregates the same variant. A fallible rebuffer fails exactly when the target cannot hold the message.",
  ["inputs", "configurations"], "every message type and content, every supported pair of buffer kinds, every capacity and trailing content",
  "Tests rebuffer a literal or two; the type-by-buffer matrix and boundary capacities are not covered.",
  [GM, "midi2_proc/src/derives.rs", "midi2/src/buffer.rs", "midi2_proc/src/generate_ci.rs"],
  [("FromBuffer/TryFromBuffer impls", "midi2/src/buffer.rs"), ("generated rebuffer impls", GM), ("aggregate rebuffer derives", "midi2_proc/src/derives.rs")], None, ["RebufferFrom", "TryRebufferFrom", "ArrayRebufferFrom"])

p("C12", "Text set on a flex-data or stream message reads back and is canonically packed",
  "For every message with text (flex-data metadata/performance text, endpoint name, product instance id, function block name), setting any UTF-8 text without NUL - after any earlier sets, on any buffer - makes the text reader (and the text byte iterator where offered) return exactly that text. data() is then the canonical packing: Complete or Start, Continue..., End packets, each but the last full, zero padded, independent of earlier content. The fallible setter succeeds exactly when that packing fits and otherwise reports BufferOverflow without panicking, the earlier text staying in place.",
  ["histories", "inputs", "fault_sequences"], "every text (every length across packet boundaries, multi-byte characters split across packets), every history of sets, every capacity and prior content",
  "Tests set one or two literals; exact multiples of the packet capacity, shrinking, dirty buffers and refused growth are not enumerated.",
  ["midi2/src/flex_data/text.rs", "midi2/src/flex_data.rs", "midi2/src/flex_data/unknown_metadata_text.rs", "midi2/src/ump_stream.rs", "midi2/src/ump_stream/function_block_name.rs", "midi2/src/ump_stream/endpoint_name.rs", "midi2/src/ump_stream/product_instance_id.rs"],
  [("text write + resize", "flex_data/text.rs, ump_stream.rs"), ("text read + byte iterators", "flex_data/text.rs, ump_stream.rs TextBytesIterator")],
  [("text", "logical text"), ("packet headers", "format/status/bank/channel of each packet")], ["text()/name()/set_*", "Data::data"])

p("C13", "Header properties stay consistent across all packets of a multi-packet message",
  "On a multi-packet flex-data or UMP-stream text message, any interleaving of text writes and header writes (group, channel or no channel, bank, status, function block number) leaves the logical values equal to the last ones written, and every packet carrying the same group, address, channel, bank, status and per-packet header fields. The message therefore always parses back with equal properties.",
  ["histories"], "every order and number of header and text writes, every text length, every buffer kind",
  "Tests set headers before the text on short messages; a header change after the message has grown to several packets, or growth after it, is rarely exercised.",
  ["midi2/src/flex_data.rs", "midi2/src/flex_data/unknown_metadata_text.rs", "midi2/src/flex_data/text.rs", "midi2/src/ump_stream.rs", "midi2/src/ump_stream/function_block_name.rs"],
  [("group/channel/bank/status write to packets", "flex_data.rs properties"), ("header propagation on text resize", "flex_data/text.rs, ump_stream.rs")], None, ["Data::data", "TryFrom<&[u32]>"])

p("C14", "packets() partitions data() and each packet reads as its slice of the message",
  "For every UMP message and aggregate, concatenating packets() gives exactly data(), each packet has the size its UMP message type prescribes, and the sequence re-parses as the same message. Parsing a packet accepts exactly the words whose message type (and status/count fields) are valid for a packet, keeps exactly that packet's words (missing trailing words of a shorter slice reading as zero where the packet type documents it), and its accessors (group, channel, status, payload and the like) read and write the spec positions, the payloads of a sysex message's packets concatenating to its payload.",
  ["inputs", "histories"], "every message content and packetisation, every packet header, every trailing content",
  "Tests check three literal messages; all packet kinds and header values and the sysex payload relation are not covered.",
  ["midi2/src/packets.rs", "midi2/src/packet.rs", S7P, S8P, "midi2/src/flex_data/packet.rs", "midi2/src/ump_stream/packet.rs", "midi2/src/channel_voice1/packet.rs", "midi2/src/channel_voice2/packet.rs", "midi2/src/system_common/packet.rs", "midi2/src/utility/packet.rs", GM],
  [("packet iterator", "midi2/src/packets.rs"), ("packet parsing", "*/packet.rs"), ("generated packets()", GM)], None, ["Packets::packets", "Packet::try_from"])

p("C15", "Every exposed iterator obeys the iterator contract however it is driven",
  "For every iterator the library returns (sysex payload in all forms, sysex packet payload, message packets, text bytes), any interleaving of next, nth, size_hint, len and count yields exactly what the plain sequence of items would. size_hint brackets (and len/count equal) the number of items really left, exhausted iterators keep returning None, skipping past the end never panics, and clones continue independently.",
  ["histories", "inputs"], "every message shape (partly filled and empty packets, trailing data), every sequence of next/nth(n) calls including n past the end and n = usize::MAX",
  "Tests call next/nth a few times on compact messages; skip distances relative to packet boundaries, empty packets and past-the-end skips are not enumerated.",
  [S7, S8, S7P, S8P, "midi2/src/packets.rs", "midi2/src/flex_data/text.rs", "midi2/src/ump_stream.rs"],
  [("nth/len/size_hint implementations", "PayloadIterator in sysex7.rs, sysex8.rs and their packet.rs; TextBytesIterator; PacketsIterator")],
  [("cursor", "position of the iterator within packet and payload")], ["Iterator", "ExactSizeIterator"])

p("C16", "Aggregate types behave exactly like the concrete message they hold",
  "For UmpMessage, BytesMessage and every per-type aggregate, data(), packets(), group and channel reading and writing, bank and status, payload-independent conversions and parsing give the same results, and write the same bits, as the same call on the concrete message held. Wrapping a concrete message yields the variant that parsing its data would yield.",
  ["inputs"], "every aggregate variant, every operation the aggregate offers, every content",
  "Tests construct single variants; a wrong arm in one of ~90 variants or in one derived operation is invisible to them.",
  ["midi2_proc/src/derives.rs", "midi2/src/message.rs", "midi2/src/channel_voice1.rs", "midi2/src/channel_voice2.rs", "midi2/src/system_common.rs", "midi2/src/utility.rs", "midi2/src/flex_data.rs", "midi2/src/ump_stream.rs"],
  [("derived delegation", "midi2_proc/src/derives.rs")], None, ["Data", "Packets", "Grouped", "Channeled", "FlexDataMessage"])

p("C17", "MIDI-CI discovery queries are laid out and validated per the MIDI-CI spec",
  "For every supported MIDI-CI version, a discovery query is a universal SysEx with the spec's header; each property occupies its spec bytes as 7-bit data, LSB first, reads back what was set and disturbs nothing else; construction gives the documented default in any buffer or reports overflow. Parsing accepts exactly well-formed queries of that version (complete, right header, all fields before the end marker - more bytes may follow them -, 7-bit data, an existing version), and accepted queries are safe to read.",
  ["inputs", "histories"], "every property value, every order of writes, every byte sequence up to the message length, every truncation and trailing content",
  "Tests set each field once and parse one literal; truncations that move the end marker before the buffer end and per-bit layout are not covered.",
  ["midi2/src/ci/discovery.rs", "midi2/src/ci/common_properties.rs", "midi2/src/detail/encode_7bit.rs", "midi2_proc/src/generate_ci.rs"],
  [("7-bit encoding", "midi2/src/detail/encode_7bit.rs"), ("generated CI message", "midi2_proc/src/generate_ci.rs"), ("CI header properties", "midi2/src/ci/common_properties.rs")], None, ["DiscoveryQuery getters/setters", "TryFrom<&[u8]>"])

p("C18", "Messages of one buffer form behave identically in every other buffer form",
  "The same sequence of constructor, setter, group, channel, payload and text operations gives the same data() and the same reads on every backing buffer that has room (vector, array, mutable slice, user-defined growable or bounded buffer, larger or exact capacity, clean or dirty), and borrowed views read the same values as owned ones. Content of the buffer outside data() neither influences results nor, for fixed-size property writes, changes.",
  ["histories", "configurations"], "every operation sequence up to the bound times every buffer kind, capacity and prior content",
  "Each unit test runs one buffer kind; no test compares kinds or checks isolation from surplus buffer content.",
  [GM, "midi2/src/buffer.rs", S7, S8, "midi2/src/flex_data/text.rs", "midi2/src/ump_stream.rs"],
  [("buffer abstraction", "midi2/src/buffer.rs"), ("generated accessors over B", GM)],
  [("surplus", "buffer words beyond data()")], ["Data::data", "raw buffer behind the message"])

p("C19", "Feature selection only adds message families and never changes behaviour",
  "With any subset of message families compiled in (and with or without std; text is checked as UTF-8 only with std), inputs of that family parse, read and write exactly as in the all-features build, and inputs of families not compiled in are rejected with an error by the aggregate parsers rather than misread or panicking.",
  ["configurations", "inputs"], "every subset of the family features, with and without std; every message header of every family",
  "CI compiles all-features and no-features test runs only; behaviour of individual feature subsets is never executed.",
  ["midi2/src/lib.rs", "midi2/src/message.rs", "midi2/src/packet.rs", "midi2/src/detail/helpers.rs", "midi2/Cargo.toml"],
  [("cfg gates on dispatch arms", "midi2/src/message.rs, midi2/src/packet.rs")], None, ["UmpMessage::try_from", "BytesMessage::try_from", "Packet"])

p("C20", "Caller-supplied storage needs no allocator, and borrowed messages are not copied",
  "Parsing or refusing a slice, reading a borrowed message (every property, text and payload bytes, packets), cloning, comparing, and creating, editing (also when refused), converting and rebuffering messages in arrays, mutable slices or vectors with spare capacity never calls the memory allocator, whatever the message length. A message parsed from a slice is a view: its data() is the very start of the caller's slice. Getters that return a String and Debug output are exempt.",
  ["inputs", "histories", "configurations"], "every input, every message length, every edit history on every storage kind",
  "No test observes the allocator or the address of data(); with std enabled any hidden Vec or String would go unnoticed on the targets tests run on.",
  ["README.md", "midi2/src/buffer.rs", GM, "midi2/src/flex_data/text.rs", "midi2/src/ump_stream.rs", S7, S8, "midi2/src/detail/helpers.rs"],
  [("allocation free access", "README.md, midi2/src/buffer.rs"), ("validation of text", "midi2/src/detail/helpers.rs")], None, ["TryFrom<&[u32]>", "TryFrom<&[u8]>", "Data::data", "global allocator"])

p("C21", "Clones are independent, equality means the same message, Debug shows the data",
  "A clone or copy of a message reads like its original and equals it, and no write to one of them changes the other. Messages of one type in buffers without surplus content (and aggregates and packets) are equal exactly if they are the same kind of message with the same data. Debug output of a message names its type and lists the units of such a buffer, in order, in hexadecimal.",
  ["inputs", "histories"], "every message content of every type and packetisation, every pair of messages, every write or edit on one of two copies",
  "Tests use equality as a tool but compare equal pairs almost only: a comparison or copy that ignores a word would let wrong tests pass.",
  [GM, "midi2_proc/src/generate_ci.rs", "midi2_proc/src/derives.rs", "midi2/src/message.rs", "midi2/src/packet.rs", S7P, S8P, "midi2/src/utility/packet.rs"],
  [("generated Debug", "midi2_proc/src/derives.rs debug"), ("derived Clone / PartialEq", GM)], None, ["Clone", "PartialEq", "Debug"])

p("C22", "What a buffer cannot hold or do is refused at compile time",
  "Making a message in an array, or rebuffering or converting one into an array, does not compile if the array is shorter than the smallest form of that message type, for every message type, constructor and length; it compiles for that size and every longer one. Operations a buffer does not support do not compile for any message type: writing through a read only buffer; constructing, setting text or payload, rebuffering or converting infallibly where the buffer cannot be made or cannot grow (and fallibly where it cannot even try); groups and packets of byte stream messages; message types in units they do not have; and using a message, data(), payload or packets after what it borrows ended or changed. The same program with a capable buffer compiles.",
  ["configurations", "inputs"], "every (message type, operation, buffer kind or array length): programs that must be refused and their capable twins",
  "A test that contains such a program does not compile, so nothing in the suite notices when the compiler starts to accept one and it panics at run time instead; one doc example covers one setter.",
  ["midi2/src/traits.rs", "midi2/src/buffer.rs", GM, "midi2_proc/src/generate_ci.rs", "midi2_proc/src/derives.rs", S7, S8],
  [("array size check", "midi2/src/traits.rs ArraySizeValid"), ("buffer abilities", "midi2/src/buffer.rs")], None, ["rustc on programs using the crate"])

ids = [x["id"] for x in P]; assert len(ids) == len(set(ids))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
