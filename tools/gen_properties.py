#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is editable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

F = "binate/src/frame/"
CODEC = [F + "codec/" + n + ".rs" for n in
         "setup lease keepalive request_response request_fnf request_stream request_channel request_n cancel payload error metadata_push resume resume_ok".split()]

p("C01", "Every frame is encoded in the RSocket 1.0 wire layout",
  "For every frame that can be constructed within its documented limits, the encoded bytes are exactly the RSocket 1.0 layout: big-endian 31-bit stream id (0 for connection-level frames), 6-bit frame type, 10-bit flags with Ignore=0x200, Metadata=0x100, Follows/Resume/Respond=0x80, Complete/Lease=0x40, Next=0x20, then that frame type's fields in protocol order, big-endian. "
  "The Metadata flag is set exactly when metadata is present; a 24-bit metadata length precedes the metadata exactly then (never in LEASE or METADATA_PUSH, whose metadata simply runs to the end of the frame). "
  "A resume token with its 16-bit length is written exactly when the Resume flag is set.",
  ["inputs"], "all 14 frame types x all flag combinations x field values x metadata/data/token/MIME presence and sizes",
  "The unit tests encode one frame per type and only decode it again with the same code, so a layout both directions agree on but no other RSocket peer understands passes; no test states wire bytes.",
  CODEC + [F + "flags.rs", F + "u24.rs", F + "version.rs", "binate/src/payload.rs"],
  [("per-type Encode impls", F + "codec/*.rs"), ("FrameType::bits / Flags constants", F + "flags.rs")],
  observe=["Encode::encode / Encode::to_bytes of every frame"])

p("C02", "Encoding then decoding gives back the same frame",
  "Decoding the bytes of any constructible frame yields a frame of the same type with every field and flag equal and consumes every byte; the only identification is that empty data is the same as absent data (present-but-empty metadata stays distinct from absent metadata). "
  "This also holds when many frames are encoded and decoded one after another in any order: no frame's outcome depends on the frames handled before it.",
  ["inputs", "histories"], "all frame types, flag combinations and field values, sizes up to the 24-bit metadata limit; all short sequences of frames",
  "One hand-picked frame per type is round-tripped today, always with metadata and data present and small.",
  CODEC + [F + "mod.rs", F + "visit.rs"], [("Encode/Decode impls", F + "codec/*.rs"), ("eat_* readers", F + "visit.rs")],
  observe=["Frame::decode(frame.to_bytes())", "frame accessors and equality"])

p("C03", "Reported length equals the encoded size, and encoding only appends",
  "For every frame, version, 24-bit integer and payload, the reported length equals the number of bytes that encoding appends, and the one-shot conversion to bytes has exactly that length. "
  "Encoding into a buffer that already holds bytes leaves them untouched and appends exactly the bytes it would write to an empty buffer.",
  ["inputs", "histories"], "all constructible values; all buffer prefixes; sequences of encodes into one buffer",
  "Tests compare len() for one instance per type, the SETUP one with every optional part present.",
  CODEC + [F + "encode.rs", F + "mod.rs", "binate/src/payload.rs"], [("Encode::len / Encode::to_bytes", F + "encode.rs")],
  observe=["Encode::len", "Encode::encode", "Encode::to_bytes"])

p("C04", "Decoding arbitrary bytes never panics, aborts or hangs",
  "For every byte string, decoding returns, after finite work, either a frame or a decode error; it never panics, aborts or loops, whatever the frame type, flags, length fields and truncation point. "
  "The returned frame or error can be inspected through all of its accessors, formatted and compared without a panic.",
  ["inputs"], "all byte strings (explored: all 65536 type/flag words, structured bodies cut at every byte, dense short bodies)",
  "No test feeds malformed or truncated bytes to a frame decoder.",
  CODEC + [F + "mod.rs", F + "visit.rs", F + "decode.rs"], [("incomplete_if_less_than! guards", F + "visit.rs"), ("Frame::decode dispatch", F + "mod.rs")],
  observe=["Frame::decode and the per-type decoders"])

p("C05", "Decoding reads exactly what the RSocket wire format says",
  "A byte string that is a well-formed frame decodes to exactly the fields and flags those bytes denote: reserved top bits and undefined flag bits are ignored, metadata is present exactly when flagged, and all bytes after the last fixed or length-prefixed field are the data. "
  "A byte string that ends inside a mandatory or length-prefixed field is reported as incomplete, and a header with an unassigned type, or the extension type the library does not implement, as an unrecognized frame type carrying that 6-bit type number. "
  "No malformed input is accepted as a frame and no well-formed frame is rejected.",
  ["inputs"], "all byte strings, against an independent reference parser",
  "No test decodes bytes that were not produced by this crate's own encoder.",
  CODEC + [F + "mod.rs", F + "visit.rs", F + "decode.rs", F + "flags.rs"], [("eat_* readers", F + "visit.rs"), ("per-type Decode impls", F + "codec/*.rs")],
  observe=["Frame::decode result, compared field by field with a reference parser"])

p("C06", "Frames on a stream they may not use are rejected, all others accepted",
  "SETUP, LEASE, KEEPALIVE, METADATA_PUSH, RESUME and RESUME_OK frames decode only on stream 0; ERROR frames with a setup, resume or connection code decode only on stream 0, and with an application-error, rejected, canceled or invalid code only on a non-zero stream. "
  "A violation is reported as an invalid stream id that carries the offending 31-bit id and which kind of id was expected; the reserved top bit plays no part. "
  "No other combination of frame type, error code and stream id is rejected on account of its stream id.",
  ["inputs"], "all frame types x stream ids x error codes",
  "No test decodes a frame with a wrong stream id; ERROR has no codec test at all.",
  [F + "mod.rs", F + "codec/error.rs", F + "codec/lease.rs", F + "codec/keepalive.rs"], [("stream-id match in Frame::decode", F + "mod.rs"), ("validate_stream_id", F + "codec/error.rs")],
  observe=["Frame::decode"])

p("C07", "A received frame can be re-encoded without changing its meaning",
  "For every byte string that decodes to a frame, encoding that frame does not panic, has the reported length, and decodes to an equal frame; encoding it a second time gives identical bytes. "
  "The re-encoded bytes keep the stream id, frame type, numeric fields, metadata, data, token and MIME types of the bytes received, and never set a bit the protocol reserves (the five low header flag bits, the top bit of stream ids and of 31- and 63-bit numbers).",
  ["inputs"], "all accepted byte strings, including flag combinations no constructor produces",
  "Tests only decode frames built by this crate's constructors, never frames with flag combinations a peer may send.",
  CODEC, [("flags kept from the wire", F + "codec/*.rs"), ("Encode impls", F + "codec/*.rs")],
  observe=["Frame::decode -> Encode::to_bytes -> Frame::decode"])

p("C08", "Decoding does not depend on how the input is split into segments",
  "Decoding the same bytes from a buffer made of any sequence of non-empty segments gives the same frame or the same error, and leaves the same number of unread bytes, as decoding them from one contiguous buffer.",
  ["inputs"], "all partitions into segments of representative valid, truncated and malformed frames of every type",
  "All codec tests decode from one contiguous Bytes.",
  [F + "visit.rs", F + "mod.rs", "binate/src/connection/buf.rs"], [("reads through the Buf interface only", F + "visit.rs")],
  observe=["Frame::decode over multi-segment Buf implementations (including the crate's own segment list)"])

p("C09", "The segment list behaves as the concatenation of its segments",
  "After every sequence of pushes of non-empty segments, advances, copies and reads, the segment list used for reassembly reports exactly the number of bytes not yet consumed, its current chunk is a non-empty prefix of them (empty only when nothing remains), vectored chunks (of segments that themselves keep Buf's contract) are successive non-empty pieces of them starting at the front and filling the caller's slots in order, and copied-out or read bytes are the next bytes in push order. "
  "Asking for more bytes than remain panics and is never answered with wrong bytes.",
  ["histories", "inputs"], "all operation sequences up to a depth over all small segment shapes, including segments that are themselves segmented",
  "Unit tests make one copy_to_bytes call on a fixed list; advance and vectored access are never tested, nor any sequence of operations.",
  ["binate/src/connection/buf.rs"], [("Buf impl of BufList", "binate/src/connection/buf.rs")],
  state=[("bufs", "queue of unread segments", "binate/src/connection/buf.rs")],
  observe=["remaining/chunk/chunks_vectored/advance/copy_to_bytes/get_*"], hook="public wrapper around the crate-private segment list")

p("C10", "Chunking a payload loses, reorders and invents nothing",
  "Splitting a payload by a chunk size yields chunks whose metadata parts concatenate to the metadata and whose data parts concatenate to the data, each part at most the chunk size and exactly the chunk size until that part's last; a part is present in the chunks exactly if it was present in the payload, and once finished the iterator stays finished. "
  "At every point of the iteration the reported length and size hint equal the number of chunks still to come, for payloads of any size. "
  "A chunk size of zero panics.",
  ["inputs", "histories"], "all presence/length combinations x chunk sizes, at every iterator position, including lengths above 2^24",
  "Two payload shapes are tested, lengths only up to 12 bytes, len() only before iteration starts.",
  ["binate/src/payload.rs"], [("PayloadChunks Iterator/ExactSizeIterator", "binate/src/payload.rs")],
  state=[("metadata, data", "what is still to be chunked", "binate/src/payload.rs")], observe=["Payload::chunks, next, len, size_hint"])

p("C11", "A fire-and-forget request delivers exactly its payload on its own stream",
  "A fire-and-forget request hands the connection a non-empty, in-order sequence of fire-and-forget frames on a single stream id that is valid for the role and not in use; with fragmentation on, each carries at most the configured size of metadata and of data, all but the last are flagged as followed by more, and together they reassemble to exactly the payload, empty payloads included; with fragmentation off there is exactly one unfragmented frame. "
  "If the connection refuses a frame, nothing more of that request is sent and the caller gets that error. "
  "Concurrent requests on one connection never share a stream id or mix up their fragments, under any interleaving.",
  ["inputs", "fault_sequences", "schedules"], "payload shapes x fragment sizes x failing send index x thread interleavings",
  "The requester has no tests at all.",
  ["binate/src/connection/socket.rs", "binate/src/payload.rs", "binate/src/connection/stream_id.rs"], [("fire_and_forget", "binate/src/connection/socket.rs")],
  state=[("receivers", "stream ids in use", "binate/src/connection/socket.rs"), ("chunk_payload", "fragment size", "binate/src/connection/socket.rs")],
  observe=["frames handed to DuplexConnection::send_and_forget; the returned result"], hook="public wrapper around the crate-private requester")

p("C12", "Reassembling fragments gives back the original payload",
  "Reassembling any sequence of encoded frames yields the in-order concatenation of the metadata and of the data of all payload-carrying frames (the four requests and PAYLOAD) in it, a part that is empty overall being reported as absent; frames of other types contribute nothing. "
  "If any frame of the sequence cannot be decoded, reassembly fails with that decode error and returns no payload. "
  "Fragmenting any payload by any chunk size, encoding the fragments and reassembling them gives back the payload (empty parts being the same as absent ones).",
  ["inputs", "histories"], "all sequences of up to 3-4 frames over an alphabet of every frame type, part presence and malformed frames; all small payloads x chunk sizes",
  "One three-fragment example is tested, of one frame type, with no malformed frame.",
  ["binate/src/connection/buf.rs", "binate/src/payload.rs"] + CODEC, [("TryInto<Payload> for the segment list", "binate/src/connection/buf.rs")],
  observe=["reassembled payload or error"], hook="public wrapper around the crate-private segment list")

p("C13", "Stream ids are valid, unused and not repeated until the space is used up",
  "Every stream id handed out is between 1 and 2^31-1, odd for a client and even for a server, and not among the ids currently in use. "
  "A provider starts at the lowest id of its parity and hands out the ids that are not in use in increasing order, skipping only those in use, each exactly once before any comes again, and goes on with the lowest after the highest.",
  ["histories", "inputs"], "the full cycle of 2^30 allocations per role; all in-use subsets of the ids around the start and the wrap-around",
  "Unit tests make two allocations, with at most one id in use; the wrap-around is tested for the client parity only.",
  ["binate/src/connection/stream_id.rs"], [("next_stream_id", "binate/src/connection/stream_id.rs")],
  state=[("counter", "next candidate id", "binate/src/connection/stream_id.rs")], observe=["next_stream_id results"], hook="public constructor with a chosen starting counter")

p("C14", "Concurrent allocations never hand out the same or an unusable stream id",
  "When several threads allocate stream ids from one provider at the same time, in every interleaving all returned ids are pairwise distinct, non-zero, of the provider's parity and not in use, also when ids are being put into use or released meanwhile and when the counter wraps around. "
  "No unused id is lost: if the set of ids in use does not change meanwhile, the ids returned together are exactly the first unused ones a single thread would have obtained.",
  ["schedules"], "all interleavings of 2-3 threads x 1-3 allocations, over starting points and in-use sets that collide",
  "The one loom test checks only the final counter, with one starting point and two allocations colliding; it never looks at the ids returned.",
  ["binate/src/connection/stream_id.rs"], [("atomic fetch_add on the counter", "binate/src/connection/stream_id.rs")],
  state=[("counter", "next candidate id", "binate/src/connection/stream_id.rs")], observe=["ids returned to each thread"], hook="public constructor with a chosen starting counter; atomics intercepted from outside the crate")

p("C15", "Request permits are never lost, duplicated or wrapped",
  "The permit counter is atomic: in every interleaving of grants and consumptions from several threads, the final count is the initial count plus all grants minus all consumptions, and the counts returned by the consumptions are those of some sequential order of the operations. "
  "Granting never makes the count smaller: it saturates at 2^31-1 instead of wrapping around. "
  "The zero test is true exactly when the count is 0.",
  ["schedules", "histories", "inputs"], "all interleavings of 2-3 threads x up to 3 operations; all operation sequences over boundary values",
  "Tests are single threaded with one operation each on small numbers.",
  ["binate/src/connection/counter.rs"], [("RequestCounter add/dec/is_zero/load", "binate/src/connection/counter.rs")],
  state=[("count", "permits left", "binate/src/connection/counter.rs")], observe=["values returned by dec, load and is_zero"])

p("C16", "24-bit lengths convert and encode exactly, and never silently truncate",
  "Every value from 0 to 2^24-1 converts to the 24-bit integer and back unchanged through either integer width and through its high/low parts, and encodes as its three big-endian bytes. "
  "Every larger value is refused with a panic rather than truncated.",
  ["inputs"], "all 2^24 values; larger values around every power of two",
  "Tests convert only the maximum value and refuse only the maximum plus one.",
  [F + "u24.rs"], [("U24", F + "u24.rs")], observe=["from_u32/from_usize/into_u32/into_usize/new/encode"])

p("C17", "Protocol versions are ordered by major, then minor number",
  "For all versions, comparison is the lexicographic order of (major, minor), agrees with equality, is a total order, and agrees with all of the operators and min/max derived from it. "
  "The numbers given at construction are those read back, shown as major.minor, and encoded as two big-endian 16-bit numbers; the default version is 1.0.",
  ["inputs"], "all pairs over a boundary alphabet of 16-bit numbers; all 65536 values of each component",
  "Versions have no tests.",
  [F + "version.rs"], [("Ord for Version", F + "version.rs")], observe=["cmp, partial_cmp, operators, Display, encode"])

p("C18", "Frame type and flag bits map one-to-one onto their protocol positions",
  "For every 16-bit header word, the frame type read from it is the one whose protocol number is its upper six bits, or none if that number is unassigned; converting a type to its number or its header bits and back is the identity, and only those 15 numbers are recognised. "
  "Each flag predicate is true exactly when the protocol bit for that flag is set (Ignore 0x200, Metadata 0x100, Follows/Resume/Respond 0x80, Complete/Lease 0x40, Next 0x20), independently of the others.",
  ["inputs"], "all 65536 header words, all 65536 raw values",
  "Tests check one value per type in each direction and no flag bit at all against the protocol.",
  [F + "flags.rs"], [("FrameType and Flags", F + "flags.rs")], observe=["from_value/from_bits/value/bits, Flags::from_bits*/is_*"])

p("C19", "Well-known MIME types convert to their registered names and back",
  "Every well-known MIME type converts to its registered name in the RSocket well-known MIME type registry and parsing that name gives the same type back; different types have different names. "
  "Any other string, including near misses in case, whitespace or length, parses as unparseable, which converts to the empty string. "
  "Every conversion terminates.",
  ["inputs"], "all MIME types; all names and all their single-character edits",
  "The only test converts the unparseable marker; converting any real type is never exercised.",
  ["binate/src/mimetype.rs"], [("From<&str> and From<WellKnownMimeType>", "binate/src/mimetype.rs")], observe=["the two conversions"])

p("C20", "Errors are classified and described as the protocol defines them",
  "Each error satisfies exactly the one specific predicate of its kind, the setup group predicate exactly for the three setup errors, the protocol predicate exactly for the ten protocol errors and the decode predicate exactly for decode errors. "
  "A protocol error is described by its RSocket name and code, the numeric error codes are those of the protocol, and the cause passed in is the error's source and appears in its text. "
  "Decode and I/O errors convert without losing their message.",
  ["inputs"], "all error kinds x with/without cause; all decode errors; all error codes",
  "Tests convert one decode error; no predicate, description or code is tested.",
  ["binate/src/error.rs", F + "decode.rs", F + "codec/error.rs"], [("Error predicates, Display, source", "binate/src/error.rs")], observe=["is_*, Display, source, Code, error frame constants"], hook="public constructor for each error kind")

p("C21", "Connection supervision reacts once to each event and never spins",
  "Every status change the connection publishes is taken up exactly once and in order, a close or failure being reported each time it is published, and between changes the supervisor waits without consuming the processor. "
  "If nothing is received on a connection, keepalive supervision closes it exactly once, not before the keepalive timeout has passed and no later than two timeouts (plus timer granularity), and reports the timeout.",
  ["histories", "schedules", "configurations"], "all sequences of status changes, status-stream end and time steps up to a depth, for both roles and several timeouts",
  "The requester and its supervision have no tests at all.",
  ["binate/src/connection/socket.rs"], [("supervision tasks spawned at creation", "binate/src/connection/socket.rs")],
  state=[("keepalive_last_received", "when something was last received", "binate/src/connection/socket.rs")], observe=["connection_status subscriptions and polls, close() calls, reported errors, in virtual time"], hook="public wrapper around the crate-private requester")

p("C22", "Out-of-range numbers never reach the wire through reserved bits",
  "In an optimised build, constructing a frame with a number wider than its field (31-bit stream ids, request counts and times, 63-bit positions) keeps exactly the low bits that fit: the accessor reports them, the reserved bit is clear on the wire, and no other field, flag or frame is affected. "
  "In a debug build the same construction panics; in-range numbers are kept unchanged in both, including the full 32-bit range of error codes.",
  ["inputs", "configurations"], "all numeric constructor arguments x out-of-range values, in release and debug builds",
  "Tests run only in debug builds and only with in-range numbers.",
  CODEC, [("masking in the constructors", F + "codec/*.rs")], observe=["constructors, accessors and encoded bytes in both build modes"])

p("C23", "The SETUP builder produces what was asked for, in any call order",
  "After any sequence of builder calls, the SETUP frame holds for each property the last value given, or its documented default (version 1.0, keepalive every 30 s with a 60 s lifetime, application/binary MIME types, no token, no payload); the Resume flag is set exactly if a token or the flag was requested, Lease exactly if requested, Metadata exactly if metadata was given, and a token is present exactly if the Resume flag is set. "
  "The builder refuses, by panicking, exactly the tokens and MIME types whose length does not fit their 16-bit and 8-bit length fields. "
  "MIME type accessors return the text exactly if it is ASCII, and durations are in milliseconds.",
  ["histories", "inputs"], "all sequences of builder calls up to a depth; all MIME type lengths 0-300, token lengths around the limit",
  "One builder chain is tested, with every property set once.",
  [F + "codec/setup.rs", "binate/src/consts.rs"], [("SetupFrameBuilder", F + "codec/setup.rs")], observe=["builder methods, SetupFrame accessors, encoded bytes"])

p("C24", "A payload holds exactly what it was built from",
  "After any sequence of builder calls a payload has, for data and metadata separately, the last bytes given or nothing; presence, emptiness, length, splitting and encoding (metadata, then data) all agree with that, whatever the type the bytes were given as. "
  "The UTF-8 views return the text for every valid UTF-8 byte string, an empty text if the part is absent, and an error, never a panic or altered text, otherwise.",
  ["histories", "inputs"], "all sequences of builder calls up to a depth; all byte strings up to length 3 and structured longer ones for the UTF-8 views",
  "The doc examples build one payload from two valid strings.",
  ["binate/src/payload.rs"], [("PayloadBuilder, Payload accessors", "binate/src/payload.rs")], observe=["Payload accessors"])

p("C25", "A metadata push sends one frame and reports the connection's answer",
  "Pushing metadata hands the connection exactly one METADATA_PUSH frame, on stream 0, carrying exactly the given bytes, and resolves to exactly what the connection answered, when it answered: success, any error, or still pending. "
  "It uses up no stream id and is independent of the fragment size.",
  ["inputs", "fault_sequences", "histories"], "metadata sizes x answers (ok, error, pending several times first) x interleaving with other requests",
  "The requester has no tests at all.",
  ["binate/src/connection/socket.rs", F + "codec/metadata_push.rs"], [("metadata_push", "binate/src/connection/socket.rs")], observe=["frames handed to DuplexConnection::send; the future's result"], hook="public wrapper around the crate-private requester")

p("C26", "The codec is safe to use from several threads at once",
  "Frames, payloads and MIME types can be built, encoded, decoded, split, compared, copied and converted from several threads at the same time, including the very first uses in a process; frames and payloads can be passed to and shared among threads: in every interleaving each thread gets exactly what it would get running alone, and no thread waits forever.",
  ["schedules", "inputs"], "all interleavings, at synchronisation operations and looks at the input, of short sequences of codec operations on 2 and 3 threads; first use in a fresh process; uses of one shared frame",
  "No test uses the codec from more than one thread.",
  CODEC + ["binate/src/mimetype.rs", "binate/src/payload.rs"], [("codec functions and the process-wide tables they use", F + "mod.rs"), ("MIME type table", "binate/src/mimetype.rs")], observe=["results of encode, decode, split, conversions per thread"])

p("C27", "Frames and payloads are equal exactly when they say the same",
  "Two frames compare equal exactly if they are of one type and agree in stream id, flags, every field and every part (metadata that is absent differs from metadata that is empty); two payloads compare equal exactly if both parts agree. "
  "Comparison is symmetric, != is its negation, and a copy is equal to its original and says the same through every accessor, also after the original is gone. "
  "(No data and empty data cannot be told apart on the wire; whether they compare equal is not specified.)",
  ["inputs"], "all pairs of frames of a type over small alphabets; pairs differing in one integer or one bit of one part, up to 70000 bytes",
  "Tests compare a few frames with themselves after a round trip; none checks that different frames differ.",
  CODEC + ["binate/src/payload.rs"], [("PartialEq and Clone of frames and payloads", F + "codec/*.rs")], observe=["==, !=, clone() and accessors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
