#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ENC = ["src/connect.rs","src/connack.rs","src/publish.rs","src/confirmation.rs","src/subscribe.rs","src/suback.rs",
       "src/unsubscribe.rs","src/unsuback.rs","src/disconnect.rs","src/auth.rs","src/structure/properties.rs","src/mqtt_writer.rs","src/packet.rs"]
DEC = ENC[:11] + ["src/byte_reader.rs","src/packet.rs","src/structure/common.rs","src/structure/codes.rs"]
ALL = sorted(set(ENC + DEC))
LIM = [("curr_limit", "bytes still readable in the innermost window", "src/byte_reader.rs ByteReader"),
       ("read_limits", "what each enclosing window gets back when the inner one is dropped", "src/byte_reader.rs ByteReader")]

p("C01", "Encoded packets decode back to the same packet",
  "For every packet value and protocol version 3, 4 or 5: if encoding succeeds, then decoding the produced bytes with that version succeeds and yields the packet that was encoded, of the same packet type. "
  "The only differences allowed are data that version has no place for on the wire (properties, reason codes and subscription options before version 5, a message id at QoS 0, the fixed QoS of SUBSCRIBE/UNSUBSCRIBE) and the equivalence of a value that equals the protocol default, or an empty one, with an absent one.",
  ["inputs","configurations"], "all packet values of all 15 packet types x protocol versions 3, 4, 5",
  "The tests round-trip about forty hand-written packets, most with every property present and every string 4 bytes long; the value space is a product of dozens of optional fields and length classes.",
  ALL, [("per-packet encode/decode pairs","src/*.rs impl Packet"),("property lists to/from structs","src/structure/properties.rs impl Properties")],
  ["MqttPacket::encode","PacketDecoder::decode_packet"])
p("C02", "Every encoding is exactly one well-formed MQTT control packet",
  "Whenever encoding a packet succeeds, the output is exactly one control packet as the MQTT specification of that version lays it out: the type nibble and mandatory flag bits, a minimally encoded remaining length equal to the number of bytes that follow, every string, binary and property length prefix exact, and each field at its place. "
  "A parser written independently from the specification reads the same field values back, finds no byte missing or left over, and finds no property that is illegal, repeated without permission, or of the wrong type.",
  ["inputs","configurations"], "all packet values of all packet types x protocol versions 3, 4, 5 for which encoding succeeds",
  "The tests compare bytes for a few packets, all with remaining length below 128; lengths are computed separately from what is written in every encoder, so any combination of optional parts can put them out of step.",
  ENC, [("remaining length computed before writing","src/*.rs encode()"),("property length","src/structure/properties.rs encode_option")],
  ["MqttPacket::encode","Packet::encode"])
p("C03", "Unrepresentable values are refused and representable ones are not",
  "Encoding returns an error, and never truncated or altered data, for every packet the chosen protocol version cannot represent: a string or binary field over 65535 bytes, a QoS above 2 (publish or will), a subscription identifier or packet size above 268435455, retain handling above 2 or missing in version 5, both, neither or the wrong kind of confirmation reason code in version 5, a missing return code, message id (QoS>0), topic, will topic, client id where the version demands one, password without user name before version 5, an empty list of subscriptions, unsubscriptions or granted codes, AUTH before version 5, or a CONNECT level other than 3, 4, 5. "
  "Encoding succeeds for every packet whose fields are all valid for the chosen version.",
  ["inputs","configurations"], "all packet values x protocol versions, including each limit exactly reached and exceeded by one, alone and combined",
  "Two encode errors are tested; limits are reached only by values nobody writes in a unit test (65536-byte strings, QoS 4 that overflows into the DUP bit).",
  ENC, [("validation at the head of each encode()","src/*.rs"),("VARBYTEINT_MAX checks","src/mqtt_writer.rs write_variable_num")],
  ["MqttPacket::encode"])
p("C04", "Well-formed packets are accepted and every field is reported faithfully",
  "Decoding any control packet that is well-formed for the given protocol version succeeds and returns exactly the packet type and field values that are on the wire, whatever optional parts are present, in whatever order properties appear, and for every length and value the format allows. "
  "A packet with a tolerated irregularity is either rejected or reported with exactly the values on the wire.",
  ["inputs","configurations"], "all well-formed byte sequences of all packet types x protocol versions 3, 4, 5 (text fields that the API types as strings hold UTF-8)",
  "About fifty literal frames are decoded by the tests; conditions such as multi-byte lengths, zero-length or omitted parts, and a property section that ends exactly at the packet end are never met.",
  DEC, [("per-packet decode","src/*.rs decode()"),("property decoding","src/byte_reader.rs read_properties/decode_property")],
  ["PacketDecoder::decode_packet"])
p("C05", "Malformed packets are rejected",
  "Decoding returns an error for every packet that violates the format: reserved type, wrong fixed-header flags, QoS 3 (publish, will or subscription), reserved CONNECT flag or will bits without a will, unknown protocol name or level, undefined reason or return codes where the API enumerates them, reserved CONNACK or subscription option bits, retain handling 3, invalid UTF-8, any field or property section that would run past the end of what encloses it, an unknown, misplaced or illegally repeated property, a variable byte integer longer than four bytes, a SUBSCRIBE, UNSUBSCRIBE or SUBACK without payload, AUTH before version 5, or a pre-5 UNSUBACK that is not exactly two bytes long. "
  "No packet value is ever produced from such bytes.",
  ["inputs","configurations"], "all byte sequences that are malformed in at least one of the listed ways, at every field position, alone and combined, x protocol versions 3, 4, 5",
  "A dozen malformed literals are tested, each broken in its simplest position; the reject conditions are spread over every decoder and apply at every byte.",
  DEC, [("flag validation","src/structure/common.rs FixedHeader::from_byte"),("window checks","src/byte_reader.rs ensure_limit"),("enum conversions","src/structure/codes.rs")],
  ["PacketDecoder::decode_packet"])
p("C06", "One decode call consumes exactly one packet, accepted or rejected",
  "On a stream of complete packets with valid headers, every decode call consumes exactly the bytes of one packet as announced by its header, whether it returns a packet or an error and wherever in the packet the error is found. "
  "So a rejected or over-long packet never affects the packets before or after it: the stream decodes to the same results as its packets decoded one by one, and the decoder reports no more data exactly after the last one.",
  ["histories","inputs"], "all sequences of well-formed and malformed packets up to a bounded length x protocol versions x error positions",
  "One test feeds six packets with two header errors; errors inside bodies or property sections, unread trailing bytes, and their effect on the next packet are never exercised.",
  ["src/packet.rs","src/byte_reader.rs"], [("packet window and discard","src/packet.rs decode_packet"),("take/reset_limit/consume","src/byte_reader.rs")],
  ["PacketDecoder::decode_packet","PacketDecoder::has_more"], LIM)
p("C07", "A truncated packet never decodes",
  "If the stream ends before the last byte announced by a packet's header, decoding that packet returns an error for every cut position; it never returns a packet built from the part that arrived. "
  "All complete packets before the cut are still delivered unchanged, and after the error the decoder reports that there is no more data.",
  ["crash_points","inputs"], "every packet (well-formed or not) of every type x every cut position x protocol versions, alone and after other packets",
  "No test ends a stream inside a packet. Loops that run 'while there is more' can mistake the end of the stream for the end of the packet.",
  ["src/packet.rs","src/byte_reader.rs","src/subscribe.rs","src/suback.rs","src/unsubscribe.rs","src/unsuback.rs"],
  [("has_more inside a packet","src/byte_reader.rs has_more"),("read_exact","src/byte_reader.rs read_len")],
  ["PacketDecoder::decode_packet","PacketDecoder::has_more"], LIM)
p("C08", "Decoding does not depend on how the transport chops the bytes",
  "The sequence of results and the end of data reported for a byte stream are the same however the underlying source splits the bytes over reads, whatever the buffer capacity, and wherever a read is interrupted and has to be retried. ",
  ["schedules","fault_sequences"], "all ways to split a stream into reads, all buffer capacities, interruptions before any read, for every packet type and for malformed packets",
  "All tests read from an in-memory cursor through the default 8 KiB buffer, so every packet arrives whole in one read.",
  ["src/byte_reader.rs","src/packet.rs"], [("read_exact / fill_buf on a BufReader","src/byte_reader.rs read_len, has_more")],
  ["PacketDecoder::from_stream","PacketDecoder::from_bufreader","PacketDecoder::decode_packet"])
p("C09", "A read failure inside a packet surfaces as an error, never as a packet",
  "If the underlying source fails (would-block, timeout, reset or any other non-retryable error) before the last byte of a packet has been delivered, decoding that packet returns an error and never a packet made from the bytes that did arrive. "
  "Packets completed before the failure are delivered unchanged, nothing panics, and a decode loop on a source that keeps failing ends. A failure between two packets loses nothing: once the source recovers, the packets that follow are delivered unchanged.",
  ["fault_sequences"], "every packet type (well-formed or not) x every byte position of the failure x error kinds x buffer capacities, one-shot and persistent failures",
  "No test uses a failing reader.",
  ["src/byte_reader.rs","src/packet.rs"], [("error mapping","src/byte_reader.rs read_len"),("has_more on failing source","src/byte_reader.rs has_more")],
  ["PacketDecoder::decode_packet","PacketDecoder::has_more"])
p("C10", "No input panics or hangs the codec",
  "Decoding any byte stream under any protocol version number, and encoding any packet value under any version number, returns a result without panicking or overflowing, in bounded time. "
  "The documented loop (decode while there is more) ends on every finite stream after at most as many calls as there are bytes, each call consuming at least one byte. "
  "A source that fails or is interrupted anywhere, once or for good, makes no call hang or panic either.",
  ["inputs","configurations"], "all byte streams up to the bound, all failure points and kinds of the source, all 1-byte mutants of valid packets, all packet values of the generator, all 256 version numbers",
  "The README lists 'fuzzing tests to prevent unwanted panic! calls' as missing; tests only decode well-behaved literals.",
  DEC, [("checked reads","src/byte_reader.rs read_len/ensure_limit")], ["PacketDecoder::decode_packet","MqttPacket::encode"])
p("C11", "The bounded reader honours nested read limits exactly",
  "A reader with nested limits delivers the source's bytes in order, never past the innermost limit, and reports more data inside a limit exactly while unread bytes of that limit remain and outside any limit exactly while the source has bytes. "
  "A read that would cross the limit fails without consuming anything; setting a limit never widens the enclosing one (a larger request is clamped), dropping a limit restores the enclosing limit less everything read meanwhile, and consuming drains precisely the innermost limit.",
  ["histories","inputs"], "all sequences of reader operations up to a bounded length over small sources",
  "Two tests walk one fixed sequence each; equal, larger, zero and repeated limits and failing reads between them are not covered.",
  ["src/byte_reader.rs"], [("take/limit/ensure_limit/reset_limit/consume/has_more","src/byte_reader.rs")], ["ByteReader public methods"], LIM)
p("C12", "Variable byte integers are exact over their whole range",
  "Every number from 0 to 268435455 is written as its unique shortest encoding of one to four bytes and read back as itself, consuming exactly those bytes; larger numbers are refused when writing. "
  "Reading refuses any encoding that does not end within four bytes, wherever such an integer occurs (remaining length, property length, subscription identifier).",
  ["inputs"], "all 2^28 numbers and all 1-4 byte encodings (thorough); every number within the boundary bands and all encodings up to 3 bytes (quick)",
  "Four values are tested, one per width.",
  ["src/byte_reader.rs","src/mqtt_writer.rs"], [("read_variable_int","src/byte_reader.rs"),("encode_variable_num/write_variable_num","src/mqtt_writer.rs")],
  ["ByteReader::read_variable_int","MqttWriter::write_variable_num","MqttWriter::encode_variable_num"])
p("C13", "Version 5 property sections are decoded by the book",
  "For each version-5 packet type (and the will) exactly the properties the specification lists for it are accepted, each with its specified data type and stored in its own field, independent of their order; any other property code, or a second occurrence of one that may appear only once, is rejected. "
  "All user properties are kept, the values of one name in their order of arrival, all subscription identifiers of a PUBLISH are kept in order, and the section covers exactly its announced length: what follows it is read as the next field.",
  ["inputs"], "all 256 property codes x all packet types; all subsets, pairs and orderings of legal properties up to the bound; all section lengths around the actual one",
  "Tests contain one property list per packet type, in one order, without duplicates or foreign codes.",
  ["src/byte_reader.rs","src/structure/properties.rs"], [("read_properties/decode_property","src/byte_reader.rs"),("from_properties","src/structure/properties.rs")],
  ["PacketDecoder::decode_packet"])
p("C14", "Reason codes, QoS, protocol names and header bytes map one-to-one",
  "For every enumerated code type (reason codes of each packet type, QoS, granted QoS, protocol name) exactly the values defined by the specification for that type are accepted, each maps to its own distinct meaning, and converting back gives the same value. "
  "Every possible first byte of a packet is either refused or describes exactly the type and flags it carries and re-encodes to the same byte. "
  "Every possible CONNECT flag byte is either refused or describes exactly the flags it carries.",
  ["inputs"], "all 256 byte values x every code type; all 256 header bytes; all protocol-name strings up to the bound",
  "Tests convert a handful of codes; a swapped or missing row in one of the parallel tables is invisible to them.",
  ["src/structure/codes.rs","src/structure/common.rs"], [("from_byte/to_byte tables","src/structure/codes.rs"),("FixedHeader::from_byte/encode","src/structure/common.rs")],
  ["MqttCode::from_byte/to_byte","FixedHeader","QoS","Granted","Protocol::from_source"])
p("C15", "Protocol versions do not leak into each other",
  "Encoding for version 3 or 4 never emits anything that exists only in version 5 (properties, reason codes, subscription options, per-topic unsubscribe results), however the packet value is filled, and equals the encoding of the same packet with those parts cleared; decoding as version 3 or 4 never reports any of them. "
  "A CONNECT packet is encoded and decoded by the version it carries itself, whatever version the caller passes, and all other packets by the version the caller passes on that call. "
  "A version number other than 3, 4 and 5 is refused or stands for one of them as a whole: the layouts of two versions are never mixed.",
  ["configurations","inputs"], "all packet values x protocol versions 3, 4, 5, with every version-5-only part present or absent; all wire packets x versions",
  "Tests encode each packet in its own version only.",
  ALL, [("protocol_version == 5 guards","src/*.rs"),("encode_option","src/structure/properties.rs")], ["MqttPacket::encode","PacketDecoder::decode_packet"])
p("C16", "Omitted trailing parts and absent properties decode to protocol defaults",
  "In version 5, acknowledgements with only a message id, or without properties, a DISCONNECT of length 0 or 1, and an AUTH of length 0 are accepted and mean success (normal disconnection) with no properties. "
  "Every property absent from a non-empty property section is reported as absent or as the default the MQTT 5 specification assigns to it. The default property sets the library offers hold the same values.",
  ["inputs"], "all short forms of all packet types x all reason codes; all subsets of properties per packet type",
  "Tests give the short form of PUBACK only, and never a partial property list, so wrong defaults and unreadable short forms go unnoticed.",
  ["src/confirmation.rs","src/disconnect.rs","src/auth.rs","src/connack.rs","src/structure/properties.rs"],
  [("length tests in decode()","src/confirmation.rs, src/disconnect.rs, src/auth.rs"),("Default impls","src/structure/properties.rs")], ["PacketDecoder::decode_packet"])
p("C17", "A decoded packet can be forwarded unchanged in meaning",
  "Every packet obtained by decoding well-formed bytes can be encoded again for the same version, and the result means the same as the original bytes: an independent parser reads the same fields and, after applying the specification's defaults, the same properties. "
  "Encoding is a normal form: decoding and encoding once more gives the same packet and the same bytes, up to the order of user properties with different names.",
  ["inputs","configurations"], "all well-formed byte sequences of all packet types x protocol versions 3, 4, 5 within the bound",
  "Tests never encode what they decoded except for identical literals.",
  ALL, [("decode then encode","src/*.rs")], ["PacketDecoder::decode_packet","MqttPacket::encode"])
p("C18", "Serde support preserves every packet",
  "With the optional serialization feature enabled, serializing any packet value and deserializing the result yields an equal packet, for self-describing text, for generic value trees and for a binary form in which only positions tell the fields apart. "
  "Enabling the feature does not change how packets are encoded or decoded.",
  ["inputs","configurations"], "all packet values of the generator, feature on and off",
  "The test suite is only compiled without the feature.",
  ["src/structure/mod.rs","src/structure/common.rs","src/structure/codes.rs","src/structure/properties.rs","src/packet.rs","src/connect.rs"],
  [("derived Serialize/Deserialize","cfg_attr(feature = serde_support)")], ["serde_json round trip of MqttPacket"])
p("C19", "Memory use is bounded by the bytes received",
  "While decoding, the memory the decoder holds at any moment is bounded by a constant plus a small multiple of the bytes actually received, whatever lengths the headers, properties and strings announce, for accepted, rejected and truncated packets alike. Once a packet has been returned and dropped, what the decoder retains does not grow with the number of packets decoded.",
  ["inputs","fault_sequences"], "all announced lengths (header, property section, strings) in the boundary set x bytes actually delivered x packet types x versions",
  "No test measures allocation or announces more data than it sends.",
  ["src/byte_reader.rs"], [("read_len / consume allocate for the announced length","src/byte_reader.rs")], ["global allocator during PacketDecoder::decode_packet"])
p("C20", "Convenience constructors build what their name and arguments say",
  "For every message id, reason code, property set and granted list, the constructors for acknowledgement packets (versions 3 and 5) and for the version-3 SUBACK build a packet that encodes, in that version, to the acknowledgement type in the constructor's name carrying exactly those arguments, and that decodes back to the very same value.",
  ["inputs"], "all 65536 message ids x all reason codes x property shapes x constructors",
  "The doc tests construct one packet per constructor with message id 123; the version-5 constructors but one are untested.",
  ["src/confirmation.rs","src/suback.rs"], [("ConfirmationPacket::*_v3/_v5","src/confirmation.rs"),("SubackPacket::new_v3","src/suback.rs")], ["ConfirmationPacket and SubackPacket constructors"])
p("C21", "Results depend on the packet at hand only, and all entry points agree",
  "What a decode call returns for a packet depends only on that packet's bytes and the version passed to that call, not on earlier packets, earlier versions or earlier errors on the same decoder, nor on what other decoders and encoders do before or meanwhile. "
  "All ways to construct a decoder and to encode a packet (through the packet enum or the packet type itself) give the same results, and the bytes a packet is encoded to depend on its value and the version only, not on what was encoded before (up to the order of user properties with different names).",
  ["histories","configurations"], "all sequences of (packet, version) steps up to the bound; all packet values x entry points",
  "Tests use a fresh decoder per packet and one entry point.",
  ["src/packet.rs","src/byte_reader.rs","src/structure/mod.rs"], [("decode_packet and its carried reader state","src/packet.rs"),("MqttPacket::encode dispatch","src/packet.rs")],
  ["PacketDecoder::{new,from_stream,from_bufreader,decode_packet}","MqttPacket::encode","Packet::encode"], LIM)

p("C22", "Primitive fields are written and read exactly over their whole range",
  "Every primitive field writes as the specification lays it out and reads back as the same value: every 8-, 16- and 32-bit number big-endian, every string and every binary value of 0 to 65535 bytes behind its exact two-byte length, whatever buffer capacity or window it is read through. "
  "Reading one consumes exactly the bytes of that field, a field that a window or the end of the data cuts short is an error and never a shorter value, a string that is not valid UTF-8 is refused, and a value too long for its length prefix is refused rather than cut. A list of properties written with the writer is read back as the same list, its user properties gathered by name.",
  ["inputs","configurations"], "all values of 8- and 16-bit fields, 32-bit fields bytewise, all string and binary lengths at every class, all cuts, all buffer capacities of interest",
  "The reader and writer tests use one or two values per field type, far from every limit, and always with a complete buffer.",
  ["src/byte_reader.rs","src/mqtt_writer.rs"],
  [("read_u8/u16/u32/utf8/binary, read_properties","src/byte_reader.rs"),("write_u8/u16/u32/utf8/binary, write_properties","src/mqtt_writer.rs")],
  ["MqttWriter::write_*","ByteReader::read_*"], LIM)
p("C23", "A session delivers every packet sequence unchanged",
  "Used the way an endpoint uses it (one decoder per connection, decode the CONNECT with a default version, then decode everything else with the version it announces, asking has_more between packets), a session delivers to each side exactly the sequence of packets the other side encoded, in order and unchanged. "
  "This holds for every announced version, every sequence of packet types, however the bytes of a packet were split on their way and however long the session was idle in between, and the byte stream is used up exactly after the last packet.",
  ["histories","configurations"], "all sequences of packets up to a bounded length x versions x packet types x endpoints, the version learned from the CONNECT",
  "No test runs that loop, and none takes the version for later packets from a decoded CONNECT.",
  ALL, [("version negotiation by the caller","src/packet.rs decode_packet(protocol_version)"),("protocol_version of CONNECT","src/connect.rs")],
  ["MqttPacket::encode","PacketDecoder::decode_packet","PacketDecoder::has_more"], LIM)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
