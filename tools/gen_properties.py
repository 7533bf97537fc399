#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MSG, ATTR = "src/message.rs", "src/attribute.rs"
A5389, A5766, A5245 = "src/rfc5389/attributes.rs", "src/rfc5766/attributes.rs", "src/rfc5245/attributes.rs"
A5780, A8016, A8656 = "src/rfc5780/attributes.rs", "src/rfc8016/attributes.rs", "src/rfc8656/attributes.rs"
ALLA = [A5389, A5766, A5245, A5780, A8016, A8656]

p("C01", "Encoded messages have exactly the RFC 5389 wire format",
  "For every message built through the public API, encoding it yields the 20-byte header (type field with the interleaved class/method bits, length of the attribute part, cookie 0x2112A442, transaction id) followed by each attribute in insertion order as type, value length, value and zero padding to a multiple of four bytes. The length field equals the number of bytes after the header and is a multiple of four, and each attribute's length field is the unpadded value length. Nothing else is emitted.",
  ["inputs"], "every class, method and transaction id; every sequence of attributes of all 32 implemented types, raw attributes of any type and length",
  "The tests encode four fixed RFC 5769 messages and one Software message; they never vary method, attribute order, value length modulo four or most attribute types.",
  [MSG, ATTR] + ALLA,
  [("MessageEncoder::start_encoding", MSG), ("Type::as_u16", MSG), ("LosslessAttributeEncoder", ATTR), ("Padding::new", ATTR)],
  observe=["bytes returned by MessageEncoder::encode_into_bytes"])
p("C02", "Decoding an encoded message gives back the same message",
  "For every message built through the public API that can be encoded, decoding the produced bytes with a decoder whose attribute set contains the used types succeeds and yields a message with the same class, method and transaction id, and the same attributes with equal values in the same order. Encoding the decoded message gives the same bytes again. Attributes are recovered independently of which other attributes stand before or after them.",
  ["inputs"], "every message constructible from the 32 attribute types with boundary values, all classes and methods, attribute sequences",
  "Tests round-trip a handful of fixed messages with rfc5389 attributes only; per-attribute encoder/decoder pairs of rfc5766, rfc5780, rfc8016 are never executed.",
  [MSG, ATTR] + ALLA,
  [("MessageEncoder / MessageDecoder", MSG), ("LosslessAttributeEncoder / LosslessAttributeDecoder", ATTR), ("before_encode / after_decode hooks", ATTR)],
  observe=["Message::attributes", "Message::class/method/transaction_id", "MessageEncoder output"])
p("C03", "Decoding then encoding reproduces the received bytes",
  "For every well-formed received message in which the reserved bits inside known attribute values are zero, encoding the decoded message reproduces the received bytes exactly: attribute order, attributes of types the decoder does not know, duplicate attributes and the content of padding bytes are all preserved. This holds whatever attribute set the decoder is instantiated with.",
  ["inputs", "configurations"], "every well-formed byte string: unknown types, value lengths, padding contents, known/unknown interleavings, attribute sets",
  "Tests re-encode four fixed messages; padding with spaces is the only non-zero padding, and no unknown attribute is ever re-encoded.",
  [MSG, ATTR], [("LosslessAttribute keeps padding and unknown attributes", ATTR), ("Message.attributes keeps wire order", MSG)],
  state=[("padding", "padding bytes as received", ATTR)], observe=["MessageEncoder output after MessageDecoder"])
p("C04", "Every byte string is classified correctly and decoding is total",
  "Decoding any byte string terminates without panicking and yields exactly one of three outcomes: an error when the header is incomplete, its two top bits are not zero or the cookie is wrong; a broken message when the header is acceptable but the attribute part is malformed; a message otherwise. When the input ends before the bytes the header announces have arrived, the outcome is an error or a broken message, never a message. A broken message carries the class, method and transaction id of the header, and exactly 20 plus the announced length bytes are consumed for messages and broken messages alike. An attribute part is well-formed exactly when it splits completely into padded attributes whose known values are valid for their type and whose FINGERPRINTs match.",
  ["inputs"], "all byte strings: header fields, lengths, attribute headers, attribute values, truncations, trailing bytes",
  "One test decodes one truncated MappedAddress; no other malformed input of any kind is exercised.",
  [MSG, ATTR, "src/net.rs"] + ALLA,
  [("MessageHeaderDecoder", MSG), ("AttributesDecoder skips rest after error", MSG), ("BrokenMessage", MSG), ("attribute value decoders", "src/rfc*/attributes.rs")],
  observe=["MessageDecoder::decode/finish_decoding results", "consumed byte count", "BrokenMessage accessors"])
p("C05", "Decoding does not depend on how the bytes are split",
  "Feeding a message to the decoder in any sequence of fragments (including empty ones, one byte at a time, or with bytes of the following message behind it) gives the same outcome, the same values and the same total number of consumed bytes as feeding it in one piece. The decoder reports itself idle exactly when the last byte of the message was consumed. It never consumes bytes beyond the end of the message.",
  ["inputs", "histories"], "every message or malformed input and every partition of its bytes into fragments",
  "All tests decode from one complete slice.",
  [MSG, ATTR, "src/net.rs"], [("Peekable header / Length attributes state machine", MSG), ("LosslessAttributeDecoder::decode resumption", ATTR), ("SocketAddrDecoder resumption", "src/net.rs")],
  state=[("header", "peeked header while attributes are read", MSG), ("attributes", "partially decoded attribute part", MSG)],
  observe=["decode return values", "is_idle", "finish_decoding item"])
p("C06", "Encoding does not depend on output buffer sizes; size is announced exactly",
  "Draining an encoder through any sequence of output buffers, including empty ones, produces the same bytes as encoding in one piece. After an item was accepted and at every later point until it is drained, the announced exact size equals the number of bytes still to be produced, and the encoder is idle exactly when that number is zero. Buffers are never written beyond the reported count.",
  ["inputs", "histories"], "every message and every sequence of buffer sizes",
  "Tests only call encode_into_bytes, which always offers a large buffer.",
  [MSG, ATTR, "src/net.rs"] + ALLA, [("MessageEncoder::encode", MSG), ("exact_requiring_bytes", MSG), ("LosslessAttributeEncoder", ATTR), ("define_attribute_enums encoder", "src/macros.rs")],
  observe=["Encode::encode", "SizedEncode::exact_requiring_bytes", "Encode::is_idle"])
p("C07", "A reused message decoder behaves like a fresh one",
  "After any history of completed messages, broken messages, rejected headers and inputs cut off by end of stream, the next message fed to the same decoder gives exactly the result a fresh decoder gives: nothing of an earlier input (attributes, errors, header fields, expected length) leaks into a later one.",
  ["histories"], "every sequence of decode attempts on one decoder, whatever their outcomes and fragmentations",
  "No test decodes a second message with the same decoder.",
  [MSG, ATTR], [("MessageDecoder state reset", MSG), ("AttributesDecoder::last_error", MSG), ("Length combinator expected bytes", MSG)],
  state=[("header/attributes/last_error/is_eos", "state that survives between items", MSG)],
  observe=["results of successive decode/finish_decoding calls"])
p("C08", "A reused message encoder behaves like a fresh one, also after failures",
  "After any history of encoded messages and of messages that were refused (too large, or an attribute hook failed), the next message encoded with the same encoder gives exactly the bytes a fresh encoder gives. Trying to start a message while another one is still being drained is refused with an error and leaves the output of the first one unchanged.",
  ["histories", "fault_sequences"], "every sequence of start/drain/failed-start operations on one encoder",
  "No test encodes a second message with the same encoder or provokes an encoding error.",
  [MSG, ATTR, "src/macros.rs"], [("MessageEncoder::start_encoding", MSG), ("LosslessAttributeEncoder::start_encoding", ATTR)],
  observe=["start_encoding results", "bytes produced"])
p("C09", "FINGERPRINT is accepted exactly when it matches the received bytes",
  "A received FINGERPRINT is accepted if and only if its value is the CRC-32 of the received bytes preceding it, with the header length adjusted to end right after the FINGERPRINT, xored with 0x5354554E; otherwise the message is reported as broken. A FINGERPRINT created for a message and appended to it always verifies after encoding and decoding.",
  ["inputs"], "every message, every FINGERPRINT position, every corruption of any bit of the message",
  "Tests check the four valid RFC 5769 messages; a mismatching FINGERPRINT is never tried.",
  [A5389, MSG], [("Fingerprint::new / after_decode", A5389), ("MessageDecoder after_decode loop", MSG)],
  observe=["MessageDecoder outcome", "Fingerprint::crc32"])
p("C10", "MESSAGE-INTEGRITY verifies exactly when the HMAC matches",
  "For short-term and long-term credentials, checking a received MESSAGE-INTEGRITY succeeds if and only if its value is the HMAC-SHA1, under the key derived from the given credentials, of the received bytes preceding it with the header length adjusted to end right after it; otherwise the check returns error code 401. Attributes after MESSAGE-INTEGRITY never influence the verdict. A MESSAGE-INTEGRITY created for a message verifies with the same credentials both before encoding and after encoding and decoding.",
  ["inputs"], "every message, credential (any length and characters), corruption of any bit, wrong credential",
  "Tests verify four valid RFC 5769 messages with the right password; no negative case and no creation is exercised.",
  [A5389, MSG], [("MessageIntegrity::*_credential", A5389), ("MessageIntegrity::after_decode", A5389), ("generate_hmac_token", A5389)],
  state=[("preceding_message_bytes", "bytes covered by the HMAC", A5389)],
  observe=["check_short_term_credential", "check_long_term_credential", "hmac_sha1"])
p("C11", "XOR address obfuscation is exact, self-inverse and invisible to users",
  "XORing a transport address with the cookie and transaction id follows RFC 5389 (port with the upper cookie half, IPv4 with the cookie, IPv6 with cookie and transaction id), preserves the address family and is its own inverse. XOR-MAPPED-ADDRESS (both codepoints), XOR-PEER-ADDRESS and XOR-RELAYED-ADDRESS carry the XORed address on the wire while users always see the plain address before encoding and after decoding; the other address attributes carry the plain address. (An address is IP address and port; the scope and flow of IPv6 socket addresses are not part of it.)",
  ["inputs"], "all ports, IPv4 and IPv6 addresses, transaction ids, all eight address attributes",
  "Two fixed addresses and one transaction id are tested.",
  ["src/net.rs", A5389, A5766, A5780], [("socket_addr_xor", "src/net.rs"), ("before_encode/after_decode of Xor* attributes", A5389)],
  observe=["socket_addr_xor", "wire bytes", "address() accessors"])
p("C12", "Value domains are enforced by constructors and decoders alike",
  "Constructors accept exactly the documented domains (error codes 300-599, methods below 0x1000, channel numbers 0x4000-0x4FFF, lifetimes up to 2^32-1 seconds, usernames up to 512 bytes, realm/nonce/software below 128 characters, data and mobility tickets up to 65535 bytes) and refuse everything else with an InvalidInput error, and accessors return the constructor's arguments (a lifetime loses fractions of a second). Values outside those domains arriving on the wire make the message broken rather than producing an out-of-domain attribute. Wrapping increment of channel numbers cycles through exactly the valid range.",
  ["inputs"], "every 16-bit code, channel number and method; every string length around the limits with characters of 1 to 4 bytes; all sizes around 65535",
  "Only the constants MIN and MAX of the channel range are tested; no constructor limit is exercised.",
  [A5389, A5766, A8016, "src/method.rs", A8656], [("constructors with track_assert", A5389), ("decoders calling constructors", A5389), ("ChannelNumber::wrapping_increment", A5766)],
  observe=["constructor results", "decode outcome", "accessors"])
p("C13", "Each attribute value has its RFC layout in both directions",
  "For each of the 32 attribute types the encoder writes exactly the value layout the defining RFC gives (field positions, byte order, bit positions, reserved bits zero) and the decoder reads exactly the same fields, ignoring reserved bits. Values of any other length than the layout allows are refused. Encoding then decoding a value is the identity on the whole value domain.",
  ["inputs"], "all 32 attribute types, the full domain of small fields and every byte and bit position of large ones, every wrong length",
  "Unit tests touch the address family attribute and socket addresses; most attribute encoders are never executed.",
  ALLA + ["src/net.rs"], [("impl_encode!/impl_decode! closures", "src/rfc*/attributes.rs"), ("SocketAddrEncoder/Decoder", "src/net.rs"), ("AddressFamilyEncoder/Decoder", A8656)],
  observe=["attribute encoder bytes", "attribute decoder items"])
p("C14", "A message is an ordered list of known and unknown attributes",
  "A message exposes exactly the attributes added or decoded, in order and with duplicates: known ones through the known-attribute iterator, all others as raw type and value bytes through the unknown-attribute iterator, and none in both or in neither. Looking up an attribute by type returns the first occurrence of that type or nothing. Whether an attribute is known depends only on its type being in the decoder's attribute set; comprehension-required means type below 0x8000.",
  ["inputs", "histories"], "every attribute type 0-65535, every sequence of additions and received attributes, every attribute set",
  "No test uses unknown_attributes, duplicates or lookups of absent attributes.",
  [MSG, ATTR, "src/macros.rs"], [("Message::attributes/unknown_attributes/get_attribute/add_attribute", MSG), ("try_start_decoding dispatch", "src/macros.rs")],
  observe=["Message accessors"])
p("C15", "Size limits are refused with an error, never truncated or wrapped",
  "Encoding succeeds if and only if every attribute value fits in 65535 bytes and the padded attribute part fits in 65535 bytes; otherwise it fails with an InvalidInput error, never panics and never emits a wrapped length field. The same holds for creating FINGERPRINT and MESSAGE-INTEGRITY for messages near the limit (no panic, and never a value for a wrapped length accepted on the wire), and decoding messages up to the maximum announced length never panics.",
  ["inputs"], "attribute values and attribute parts of every size around each limit, on the encoding, decoding, FINGERPRINT and MESSAGE-INTEGRITY paths",
  "The largest message in the tests is 116 bytes.",
  [MSG, ATTR, A5389], [("message_len < 0x10000 assertion", MSG), ("value_len < 0x10000 assertion", ATTR), ("Fingerprint::new length", A5389)],
  observe=["encode results", "decode results", "panics"])
p("C16", "Attribute hooks run once, in order, on the preceding attributes only",
  "While a message is encoded (decoded), the before-encode (after-decode) hook of each known attribute runs exactly once, in attribute order, and sees a message with the same class, method and transaction id that contains exactly the attributes preceding it, as their own hooks left them. A change a hook makes to its own attribute is what gets encoded (returned). If a hook fails, no later hook runs, and encoding is refused (the message is reported broken).",
  ["inputs", "fault_sequences"], "every sequence of attributes with succeeding, mutating and failing hooks at every position",
  "Hooks are exercised only through built-in XOR and integrity attributes of fixed messages; failing hooks never.",
  [MSG, ATTR, "src/macros.rs"], [("hook loops in start_encoding / finish_decoding_with_header", MSG), ("hook dispatch in define_attribute_enums!", "src/macros.rs")],
  observe=["calls recorded by a user-defined attribute"])
p("C17", "Message type field: all 4 classes x 4096 methods map one to one",
  "The 14-bit type field encodes class and method exactly as RFC 5389 figure 3 lays out, so that each of the 4 x 4096 class/method pairs has its own encoding and each of the 16384 fields with zero top bits decodes to the pair that encodes to it. The 49152 fields with a non-zero top bit are rejected.",
  ["inputs"], "all 16384 class/method pairs and all 65536 field values",
  "Tests use method 1 with two classes.",
  [MSG, "src/method.rs"], [("Type::as_u16 / Type::from_u16", MSG), ("MessageClass::from_u8", MSG)],
  observe=["first two encoded bytes", "Message::class/method"])
p("C18", "Attribute enums compose any selection of attributes faithfully",
  "An attribute enum, predefined or made with define_attribute_enums!, recognises exactly the types of its variants for every possible attribute type, decodes and encodes each variant exactly as the attribute alone does, reports that attribute's type, runs its hooks, converts from and to the variant's own type, and is equal exactly to the same variant with an equal value. The order in which variants are listed has no influence. The predefined rfc5389, rfc5766, rfc5245 and rfc5780 enums contain exactly the attributes documented for them.",
  ["configurations", "inputs"], "all 65536 types for each predefined enum and for user-defined selections in different orders",
  "Tests use only the rfc5389 enum on fixed messages; the macro is only compiled, not run, for user-defined enums.",
  ["src/macros.rs", "src/rfc5389/mod.rs", "src/rfc5766/mod.rs", "src/rfc5245/mod.rs", "src/rfc5780/mod.rs"],
  [("define_attribute_enums!", "src/macros.rs")],
  observe=["enum decoder/encoder", "From / TryAsRef", "get_type"])
p("C19", "Public value codecs work incrementally and are reusable on their own",
  "The public socket address, raw attribute and per-attribute decoders and encoders, used outside a message, produce the same result for every way of splitting the value into fragments or output buffers, report idle exactly at the end of the value (an encoder of an empty value may need one encode call for that), announce the exact remaining size, ask for some but never for too many bytes until a value with its own length is complete, and handle any number of successive values like fresh instances. An unknown address family is refused. Starting a second socket address while one is being drained is refused and does not disturb the first.",
  ["inputs", "histories"], "every value codec, every fragmentation of small values, sequences of values",
  "Tests run SocketAddr and AddressFamily codecs once per value from complete slices.",
  ["src/net.rs", ATTR] + ALLA, [("SocketAddrDecoder/Encoder", "src/net.rs"), ("RawAttributeDecoder/Encoder", ATTR), ("impl_decode!/impl_encode!", A5389)],
  observe=["decode/encode results", "is_idle", "exact_requiring_bytes"])
p("C20", "Consecutive messages on a stream are framed exactly",
  "While a message is being decoded, the number of bytes the decoder says it still requires never reaches beyond the end of that message and is positive until the message is complete, so reading exactly what it asks for never swallows bytes of the next message. Decoding a stream of concatenated messages one after the other with one decoder, from readers that return any number of bytes, yields the same sequence of outcomes as decoding each alone, including broken ones, and leaves the stream at the end of the last message.",
  ["inputs", "histories", "schedules"], "every sequence of messages and broken messages on one stream, every short-read pattern",
  "No test reads from a stream or decodes two messages.",
  [MSG, ATTR], [("MessageDecoder::requiring_bytes", MSG), ("LosslessAttributeDecoder::requiring_bytes", ATTR), ("AttributesDecoder::requiring_bytes", MSG)],
  observe=["requiring_bytes", "decode_exact results", "reader position"])
p("C21", "Assigned numbers and names match the IANA/RFC registry",
  "Every attribute type, method and error constant has the number the defining RFC assigns, no two attribute types share a number, and every error type converts to an ERROR-CODE with its own number and standard reason phrase. Method display names identify exactly the seven assigned methods; class, family and channel displays are faithful.",
  ["inputs"], "all 32 attribute types, 7 methods, 16 error types, all 4096 methods' display",
  "Tests refer to BINDING and a few attribute constants only.",
  ALLA + ["src/method.rs", "src/rfc5389/errors.rs", "src/rfc5766/errors.rs", "src/rfc5245/errors.rs", "src/rfc8016/errors.rs", "src/rfc8656/errors.rs", "src/rfc5389/methods.rs", "src/rfc5766/methods.rs"],
  [("CODEPOINT constants", "src/rfc*/attributes.rs"), ("From<error type> for ErrorCode", "src/rfc*/errors.rs"), ("Display for Method", "src/method.rs")],
  observe=["CODEPOINT", "get_type", "ErrorCode::code/reason_phrase"])
p("C22", "Failures turn into the right ERROR-CODE for the peer",
  "Converting a broken message into a library error gives kind InvalidInput, and converting a library error into ERROR-CODE gives 400 Bad Request for InvalidInput and 500 Server Error for every other kind. The error attached to a broken message is of kind InvalidInput or another decoding error, never a panic, and formatting any message, attribute or error succeeds.",
  ["inputs"], "all error kinds, every kind of broken message, every decoded value formatted with Debug or Display",
  "No test converts an error into an ErrorCode or a BrokenMessage into an Error other than on success paths.",
  [MSG, A5389, "src/rfc5389/errors.rs"], [("From<BrokenMessage> for Error", MSG), ("From<Error> for ErrorCode", A5389)],
  observe=["ErrorCode", "Error::kind", "Debug/Display output"])
p("C23", "Error responses answer the request they belong to",
  "For every request that decodes or is reported broken, a response built from the reported method and transaction id with the error class and an ERROR-CODE (and UNKNOWN-ATTRIBUTES listing the unknown comprehension-required types) encodes and decodes back to the same method, transaction id, code, reason phrase and type list. Unknown comprehension-required attributes are identified exactly, so that no such attribute is missed or invented.",
  ["inputs", "histories"], "every request with any mix of known/unknown attributes or any corruption, every error code and reason phrase",
  "No test builds a response, uses UNKNOWN-ATTRIBUTES or reads unknown attributes.",
  [MSG, ATTR, A5389], [("BrokenMessage accessors", MSG), ("UnknownAttributes codec", A5389), ("ErrorCode codec", A5389), ("AttributeType::is_comprehension_required", ATTR)],
  observe=["two-party exchange over encoded bytes"])
p("C24", "Decoding uses memory bounded by the input, not by announced sizes",
  "While decoding any input, the memory held by the decoder and the returned message stays within a fixed multiple of the bytes actually received plus a constant covering one attribute value of at most 65535 bytes. Announced message lengths, and numbers of attributes, never make it hold more. Dropping the decoder and the decoded items releases all of it.",
  ["inputs"], "every combination of announced message and attribute lengths with few actual bytes, long attribute lists, repeated attributes",
  "Memory use is not observed by any test.",
  [MSG, ATTR, A5389], [("RemainingBytesDecoder grows with input", ATTR), ("Collect of attributes", MSG), ("MessageIntegrity preceding bytes", A5389)],
  observe=["allocator counters"])
p("C25", "User attribute failures or panics never corrupt memory",
  "When a user-defined attribute's hook, clone, decoder or encoder returns an error or panics at any point while a message is encoded or decoded, no attribute value is ever dropped twice or used after being dropped, and after an error every value is dropped exactly once. Values held by a message are dropped exactly once when the message is dropped or replaced.",
  ["fault_sequences"], "an error or panic injected at every callback of every attribute position",
  "No test injects a failure; the code manipulates vector lengths with unsafe.",
  [MSG], [("unsafe set_len/get_unchecked_mut loops", MSG)],
  state=[("attributes.len", "temporarily shortened vector length", MSG)],
  observe=["drop counters of user-defined attributes"])
p("C26", "Values and messages compare, hash, order and copy by their content",
  "Two attribute values of one type are equal exactly when their contents are equal, equal values have equal hashes, values of different types in one enum are never equal, and a clone equals its original (a MESSAGE-INTEGRITY value also remembers the message it protects). The attributes of a received message equal the attributes that were sent, MESSAGE-INTEGRITY apart. Methods, attribute types, channel numbers and transaction ids are ordered as their numbers. A message, a broken message and their clones are independent: adding to, dropping or encoding one never changes another, and each encodes to exactly what its own history says.",
  ["inputs", "histories"], "all pairs of values of every type, every sequence of copying, extending, encoding and dropping messages",
  "Tests compare a decoded message's attributes with the sent ones for two messages; nothing compares different values, hashes, or clones.",
  [MSG, ATTR, "src/method.rs", "src/transaction_id.rs", "src/macros.rs"] + ALLA, [("derived PartialEq/Hash/Ord of the attribute types", "src/rfc*/attributes.rs"), ("#[derive(Clone)] Message, BrokenMessage", MSG), ("LosslessAttribute clone", ATTR)],
  observe=["==, hash, cmp", "accessors and encoded bytes of clones"])
p("C27", "Codecs are independent of each other and of the thread they run in",
  "What a decoder, an encoder, a credential check or a value codec yields depends only on the calls made on it: however its calls are interleaved with the calls on any other codec, in the same thread or in others, and even when it is moved to another thread between two calls, every call gives the result it gives when the codec is used alone.",
  ["schedules"], "every interleaving of the calls on two or three codecs, on one thread, a thread each, and migrating between threads",
  "Tests use one codec at a time in one thread.",
  [MSG, ATTR, A5389, "src/net.rs", "src/macros.rs"], [("all codec state is owned by the codec value", MSG)],
  observe=["results of every call in each interleaving"])
p("C28", "A long-lived codec does not grow",
  "However many messages, broken messages, rejected or cut-off inputs one decoder has handled, and however many valid or refused messages one encoder has, the memory it holds between messages (after the items were dropped) stays below a constant of the order of one maximal message and does not depend on how many there were. Nothing accumulates in the process either: decoding, encoding, making and checking digests, converting errors and formatting leave no memory behind.",
  ["histories"], "every input and pair of inputs repeated over and over through one codec",
  "Tests use a codec once or twice and do not observe memory.",
  [MSG, ATTR, A5389], [("reset of the decoder after an item or a failure", MSG), ("reset of the encoder after a refused message", MSG)],
  observe=["allocator counters between messages"])
p("C29", "No order of public calls yields a wrong message or a panic",
  "Whatever sequence of calls is made on a message decoder (decode with any number of bytes, with the stream ended, open or of known length; finish at any time) nothing panics, no call takes bytes behind the end of the message, finishing gives a message only if every byte of it has arrived since the previous item or failure, a completed message stays available and unchanged until it is taken, and after every finish or error the decoder is ready for a new message. Whatever sequence of calls is made on a message encoder or on the encoder of an attribute value, starting is refused without effect while something is left to drain, the bytes come out in order, the announced size is what follows (also after an end of stream came too early), and nothing panics. Value decoders never yield a value from fewer bytes than it has.",
  ["histories"], "every sequence of public calls up to a bound on every codec",
  "Tests call the helpers decode_from_bytes and encode_into_bytes only.",
  [MSG, ATTR, A5389, "src/macros.rs", "src/net.rs"], [("Decode for MessageDecoder", MSG), ("Encode for MessageEncoder", MSG), ("impl_encode!", A5389)],
  state=[("header, attributes", "position in the message being decoded", MSG)],
  observe=["result of every call", "is_idle / requiring_bytes / exact_requiring_bytes"])
if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        print(json.dumps(x))
