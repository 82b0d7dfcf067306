#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENC, DEC, DEF = "src/codec/encode.rs", "src/codec/decode.rs", "src/protocol/definitions.rs"
PM, IO, MOD = "src/protocol/mod.rs", "src/io.rs", "src/codec/mod.rs"
INM, OUTM, BODY = "src/message/inmessage.rs", "src/message/outmessage.rs", "src/message/body.rs"
TY, SYM, VAR = "src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs"

p("C01", "Polymorphic AMQP values survive an encode/decode round trip",
  "Encoding any AMQP value the library can represent (null, boolean, every integer and floating-point type, char, timestamp, uuid, binary, string, symbol, list, map, described value, nested in any way) and decoding the bytes again yields an equal value and leaves exactly the bytes that followed it. The statically backed symbol form comes back as the ordinary symbol with the same text, and timestamps are kept to the millisecond.",
  ["inputs"], "every representable value: all numeric boundaries, all text and binary lengths around the 255/256 and 65535/65536 width limits, every nesting of lists, maps and described values up to 64 levels, any trailing bytes",
  "The tests round-trip about 30 hand-picked scalars; no list, map, symbol or described value is round-tripped and no trailing bytes are ever present.",
  [ENC, DEC, VAR, TY], [("per-type encode with compact/wide form choice", ENC), ("format-code dispatch of the polymorphic decoder", DEC)],
  observe=["bytes appended by encode", "value and remainder returned by decode"])

p("C02", "Every AMQP and SASL frame survives an encode/decode round trip",
  "Encoding any AMQP or SASL frame (every performative, every combination of present and absent optional fields, every legal field value) and decoding the bytes yields an equal frame on the same channel with no bytes left over, and every field accessor reports the field of the same name. A transfer's payload comes back as the same raw bytes; a custom error condition or distribution mode whose text is a predefined one comes back as the predefined one.",
  ["inputs"], "all 9 performatives, the empty frame and 5 SASL bodies; all field presence combinations and field values including nested sources, targets, outcomes, delivery states, errors, property maps and capability arrays; all 65536 channels",
  "Two tests decode and re-encode one fixed SASL-mechanisms and one fixed disposition frame; the other 13 frame kinds and their ~110 fields are never exercised.",
  [DEF, PM, ENC, DEC, "src/framing.rs", MOD], [("generated per-performative encode/decode in field order", DEF), ("frame header encode/decode", ENC + ", " + DEC)],
  observe=["frame value and remainder after decode", "field accessors"])

p("C03", "The size reported before encoding is exactly what encoding writes",
  "For every value, composite, section, frame and message, the size the library reports for it equals the number of bytes encoding it appends. Encoding into a buffer with exactly that much free space succeeds, and bytes already in the buffer are left unchanged.",
  ["inputs"], "every encodable object of every public type, in particular around each compact/wide threshold and for every predefined symbolic constant",
  "Tests only use the reported size to pre-size buffers that round up, so a wrong size goes unnoticed; no test compares it with the bytes written.",
  [ENC, DEF, PM, INM, OUTM, BODY], [("size functions mirroring each encode function", ENC), ("generated composite sizes and hard-coded symbol lengths", DEF), ("message size computation", INM + ", " + OUTM)],
  observe=["reported size vs. buffer length delta"])

p("C04", "Encoded bytes are well-formed AMQP 1.0",
  "Any conforming AMQP 1.0 decoder that is given the bytes produced for a value, composite, section, frame or message reads back precisely what was encoded: every constructor, declared size, element count, descriptor, field position and frame header is the one the standard prescribes for that content. Nothing produced needs leniency on the receiving side.",
  ["inputs"], "every encodable object of every public type (map keys distinct)",
  "Existing round-trip tests use the library's own decoder, which would agree with its own encoder's mistakes; only two encodings are compared with fixed bytes.",
  [ENC, DEF, PM, BODY, INM, OUTM, MOD], [("format code constants", MOD), ("size/count preambles", ENC), ("descriptor codes and field order", DEF)],
  observe=["bytes appended by encode"])

p("C05", "Every legal encoding of a value is decoded to that value",
  "Whichever legal AMQP 1.0 encoding a peer chooses (compact or wide widths, the zero-width forms, either boolean form, the empty-list form, numeric or symbolic descriptors in any width, one value or an array for a multiple-valued field), decoding yields the same value and stops exactly at its end. This holds for polymorphic values, every typed field, composites, sections, frames and messages.",
  ["inputs"], "all combinations of alternative encodings for all values",
  "The library's encoder emits one form of each value, so round-trip tests never see the other forms; tests decode alternative forms for booleans only.",
  [DEC, DEF, PM], [("format-code dispatch per type", DEC), ("descriptor matching by code or symbol", DEF)],
  observe=["value and remainder returned by decode"])

p("C06", "No input bytes crash, hang or exhaust the decoder",
  "Decoding any byte sequence whatsoever, as any decodable type, as a frame, as a message, or fed to the stream and protocol-header decoders, ends with a value or an error. It never panics, aborts, overflows the stack or runs on, and the memory it allocates stays within a constant factor of the number of input bytes.",
  ["inputs"], "all byte strings for all decode entry points (arrays of zero-width items excluded from the memory clause)",
  "No test feeds malformed input at all.",
  [DEC, DEF, IO, VAR, INM, OUTM], [("length checks before every read", DEC), ("compound headers", DEC), ("hashing of decoded map keys", VAR)],
  observe=["outcome of decode under a supervisor: value, error, panic or process death", "allocation high-water mark"])

p("C07", "A truncated encoding is never accepted",
  "Removing one or more bytes from the end of the encoding of a value, composite, section or payload-free frame always makes decoding fail with an error; it never yields a value. A truncated message fails too, unless what remains is itself a whole number of sections.",
  ["inputs"], "every proper prefix of every valid encoding, in every legal form",
  "No test decodes a truncated input.",
  [DEC, DEF, MOD], [("remaining-length checks", DEC + ", " + MOD), ("composite size check", DEF)],
  observe=["outcome of decoding each proper prefix"])

p("C08", "Stream decoding does not depend on how the bytes are chunked",
  "For any byte stream, the sequence of frames and errors obtained from the stream decoder is the same however the stream is cut into deliveries and however often the decoder is polled in between. Each frame is yielded as soon as its last byte has been delivered and not before, and when it is yielded exactly its bytes have been consumed, so that bytes of later frames stay untouched in the buffer. A stream that ends inside a frame is reported as an error.",
  ["schedules", "inputs"], "all byte streams, all partitions into deliveries, all polling schedules",
  "The stream codec has no tests; only whole in-memory frames are decoded directly.",
  [IO, DEC], [("two-phase decoder state (frame header / frame body of known length)", IO)],
  state=[("decoder phase", "waiting for a length prefix, or for a known number of body bytes", "src/io.rs DecodeState")],
  observe=["result of each decode call", "bytes remaining in the input buffer after a frame is yielded"])

p("C09", "A bad frame neither leaks into its neighbours nor stalls the stream",
  "The length prefix alone fixes a frame's extent: a frame whose content is malformed, ends early or leaves bytes over is reported as an error and never reads bytes beyond its extent, and the frames after it are then decoded as if it had not been there. A length prefix too small to hold a frame header is reported as an error as soon as eight bytes are available, rather than being waited on or crashing.",
  ["fault_sequences", "inputs"], "all streams mixing valid and malformed frames, all length prefixes, all chunkings",
  "No test decodes more than one frame or any malformed frame through the stream codec.",
  [IO, DEC], [("split-off of exactly one frame before parsing", IO), ("unparsed-bytes check", IO)],
  state=[("decoder phase", "must return to the frame-header phase after every frame, good or bad", "src/io.rs DecodeState")],
  observe=["sequence of results for a stream containing bad frames"])

p("C10", "Frame headers are interpreted as the protocol defines them",
  "A frame is accepted only if its type byte is that of the expected protocol (otherwise the error names the type found) and its data offset is at least two words; an extended header announced by the data offset is skipped whatever it contains. The channel number is the one on the wire, an AMQP frame without a body is a heartbeat, and a SASL frame without a body is rejected.",
  ["inputs"], "all type bytes, data offsets 0..255, extended header contents, channels and body kinds",
  "The only header ever decoded in a test is the plain two-word header of two fixed frames on channel 0.",
  [DEC, ENC, "src/framing.rs"], [("frame header decoding", "src/codec/decode.rs decode_frame_header"), ("frame header encoding", ENC)],
  observe=["frame decoded, or the error"])

p("C11", "Protocol headers are exchanged exactly",
  "The eight-byte protocol header is emitted as 'AMQP', the protocol id and version 1.0.0, and exactly those headers for the three known ids are recognised; a wrong prefix, an unsupported version and an unknown id are reported as three different errors, in that order of precedence. Nothing is reported before eight bytes are available, exactly eight bytes are consumed, and the decoders that take over the connection afterwards see all following bytes whatever the chunking.",
  ["schedules", "inputs"], "all 8-byte headers, all chunkings, all sequences of header exchange, SASL frames, second header exchange and AMQP frames on one connection",
  "The protocol header codec has no tests.",
  [IO, PM], [("protocol header codec", "src/io.rs ProtocolIdCodec")],
  observe=["result of each decode call and bytes consumed", "bytes emitted by encode"])

p("C12", "Declared sizes bound what a compound value may contain",
  "A list, map, array or composite never takes element bytes from beyond its own declared size, however large its declared count, and an inner value never reaches past the end of any value that encloses it. Whatever follows is decoded from exactly the end of the declared extent.",
  ["inputs"], "all compound encodings with every disagreement between declared size, declared count and actual contents, at any nesting depth",
  "No test decodes a compound value whose size, count and contents disagree.",
  [DEC, DEF], [("map and composite extents", DEC + ", " + DEF), ("list and array element loops", DEC)],
  observe=["value, remainder or error for compounds with inconsistent size/count"])

p("C13", "Omitted fields take the standard's defaults; mandatory ones are required",
  "An optional field of a composite that is null, or missing because the field list ends early, decodes as absent, or as the default value the AMQP standard gives for that field. A composite whose field list ends before a mandatory field is rejected with an error naming the first such field, and a null in place of a mandatory field is rejected.",
  ["inputs"], "all 23 composites, every length of field list, every combination of nulls",
  "Tests decode composites only as the library itself writes them: with every field present.",
  [DEF], [("per-field count check with default", DEF)],
  observe=["decoded composite or error"])

p("C14", "Values of the wrong kind are rejected, never reinterpreted",
  "Decoding fails if a typed field carries a constructor that its type does not admit, a restricted value outside its defined choices, an unknown descriptor, text that is not valid UTF-8 or a code point that is not a character; the error says which of these it was. Error conditions and distribution modes that are not predefined are not errors and keep their exact text.",
  ["inputs"], "every field and entry point with every one of the 256 constructors, every restricted value, every descriptor, all invalid UTF-8 sequences and code points",
  "No test decodes a wrongly typed value.",
  [DEC, DEF, PM], [("constructor checks", DEC), ("restricted choices and descriptor dispatch", DEF), ("custom symbol fallback", PM)],
  observe=["error class or decoded value"])

p("C15", "Messages survive an encode/decode round trip, section by section",
  "Encoding any message and decoding it, as either message kind, reproduces its header, delivery annotations, message annotations, properties, application properties, footer and all body sections, and consumes the whole encoding. Embedded messages come back, after the message's own data sections, as one data section each holding that message's encoding, and a message without any body is encoded with a single empty data section.",
  ["inputs"], "all combinations of sections, body kinds and section contents, including nested messages",
  "Each test sets one section of one message with tiny content and looks at that section only; annotations, footer, sequences and values are never exercised.",
  [INM, OUTM, BODY, DEF], [("section encoding", INM + ", " + OUTM + ", " + BODY), ("section decoding loop", INM + ", " + OUTM)],
  observe=["message accessors after decode", "remainder returned by decode"])

p("C16", "A message's reported size follows every edit, and observing changes nothing",
  "After any sequence of edits to a message, interleaved in any way with size queries, encodings, clonings and comparisons, the size it reports is the size of its current content. Querying the size, encoding or cloning never changes what the message encodes to or which messages it equals.",
  ["histories"], "all histories of message-building operations interleaved with observations",
  "The tests build a message and ask for its size once, before any further edit.",
  [INM, OUTM], [("cached size reset by each edit", INM + ", " + OUTM)],
  state=[("cached size", "0, or the encoded size of the current content", "size field of the message types")],
  observe=["reported size, encoded bytes and equality after each step of a history"])

p("C17", "Building a message does exactly what each step says",
  "Each building step changes the part of the message it names and nothing else: setting a header, value or property replaces it, setting the data replaces all data sections, and conditional steps apply only when their condition holds. Setting an application property replaces the value of that name in a received message and appends a pair in call order in an outgoing one; a reply carries the original's message id as correlation id and is otherwise empty.",
  ["histories"], "all sequences of building operations on both message kinds",
  "Each test performs a single building step.",
  [INM, OUTM, BODY], [("builder methods", INM + ", " + OUTM + ", " + BODY)],
  observe=["message accessors and encoded bytes after each step"])

p("C18", "Transfers carry their payload verbatim",
  "The payload of a transfer, given as raw bytes or as a message, is placed unchanged after the transfer's fields, counted in the frame's length, and handed back by the receiver as exactly those bytes; a transfer without payload has none on the receiving side. This holds for every payload size, alone or in a stream of frames.",
  ["inputs", "histories"], "all payload sizes (including around 255, 4096, 32768 and 65536 bytes) and contents, with every transfer field combination, mixed with other frames in a stream",
  "No test encodes or decodes a transfer.",
  [DEF, PM, IO], [("transfer body appended after the field list", DEF), ("payload size", PM)],
  observe=["payload bytes received", "frame length on the wire"])

p("C19", "Timestamps mean the same instant on both sides",
  "A timestamp on the wire denotes that many milliseconds since the Unix epoch, before or after it: decoding gives exactly that instant, and encoding an instant gives its milliseconds with any finer fraction dropped towards the past. A timestamp the calendar type cannot represent is rejected with an error.",
  ["inputs"], "all 64-bit millisecond counts; all instants from year 1 to 9999 with any sub-second part",
  "One instant after and one before 1970 are round-tripped; both avoid the sign and whole-second cases.",
  [DEC, ENC], [("millisecond to instant conversion", "src/codec/decode.rs datetime_from_millis"), ("instant to millisecond conversion", ENC)],
  observe=["seconds and nanoseconds of the decoded instant", "8 bytes emitted for an instant"])

p("C20", "Text is identified by its content, not by how it is stored",
  "Two strings, or two symbols, are equal, hash equally and compare as equal exactly when their text is equal, whether they are statically or dynamically stored, and otherwise order as their text does. Looking one up in a map by either representation, or by plain text, finds exactly the entry with that text.",
  ["inputs", "histories"], "all texts, all pairs of representations, all sequences of map insertions and lookups",
  "The tests compare two texts within one representation.",
  [TY, SYM, VAR], [("equality, hash, order and borrow implementations", TY + ", " + SYM)],
  observe=["equality, ordering, hash equality and map lookups"])

p("C21", "Frames written to a connection arrive once each, in order and intact",
  "Whatever the interleaving of frame writes, byte deliveries and reads, and whatever the capacity and contents of the output buffer at the start, the frames obtained by the receiving decoder are exactly the frames written by the sending encoder, in order; at any moment they are a prefix of them. Writing a frame appends exactly one length-prefixed frame to what is already buffered.",
  ["schedules", "histories"], "all interleavings of writes, partial deliveries and reads; all frame sequences, including frames larger than the buffers' growth steps",
  "No test uses the stream encoder or more than one frame.",
  [IO, ENC], [("buffer reservation and frame encoding", IO), ("length-prefixed decoding", IO)],
  state=[("decoder phase", "frame header or frame body of known length", "src/io.rs DecodeState")],
  observe=["output buffer before and after each write", "frames read"])

p("C22", "Equality of values and frames follows their content",
  "Two values of one type are equal exactly when they are of the same kind and have the same content: lists element by element in order, maps entry by entry in any order, composites and frames field by field, and floating-point numbers as numbers (a not-a-number within a polymorphic value equals itself). Equality is symmetric, a clone equals its original, equal values hash equally, and a map or set keyed by values finds an entry exactly when an equal key was put in.",
  ["inputs"], "all pairs of values of every type, in particular those that differ in one place anywhere within",
  "The tests compare a handful of binaries, strings and symbols.",
  [VAR, TY, DEF], [("equality and hash of polymorphic values and maps", VAR), ("derived equality of composites", DEF)],
  observe=["==, != and hash of pairs of values", "lookups in maps and sets keyed by values"])

p("C23", "Conversions and constructors yield objects holding what they were given",
  "Converting a value into a polymorphic value, message id, error condition, frame, SASL frame or transfer payload, and reading the product back through its accessors (kind, content, channel, name, length, emptiness, elements, message format), yields that value. Converting a raw value to an enumeration succeeds exactly for the values AMQP 1.0 assigns, giving the assigned meaning, and is otherwise an error naming that enumeration. The prepared plain SASL response is the authorization identity, the authentication identity and the password, in this order, set apart by single NUL bytes, for any three texts.",
  ["inputs"], "all values of every type a conversion accepts; all raw values of every enumeration's base type",
  "Of the some 60 conversions the tests use three, each with one value; no enumeration conversion and no prepared SASL response is ever tested.",
  [PM, DEF, VAR, TY, SYM, "src/framing.rs"], [("From impls and enumeration try_from", DEF + ", " + PM + ", " + VAR), ("prepare_response, payload length and format", PM), ("frame parts", "src/framing.rs")],
  observe=["values read off converted or constructed objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
