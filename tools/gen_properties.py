#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Kept as a script so the text stays reviewable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "HTTP/1 requests parse the same however the bytes arrive",
 "For every well-formed HTTP/1.x request head, re-parsing the bytes received so far reports 'partial' at every proper prefix of the head and never an error or a completed request; once the head's last byte is present, and regardless of any body or pipelined bytes that follow it, parsing succeeds with exactly the sent method, target (path and query with their percent-escapes decoded as UTF-8 text, authority from the target or else from Host), version and header fields (names case-insensitive, in order, byte-exact values, last value winning for a repeated name) and reports exactly the head's length, leaving the following bytes unread. Leading empty lines, bare-LF line ends and every buffer type give the same result, and the request reports itself complete exactly when parsing succeeded.",
 ["inputs", "schedules", "fault_sequences"],
 "every well-formed request sequence x every way a byte stream can be segmented, delayed, coalesced, stalled and cut across keep-alive connections",
 "The unit tests parse whole literal requests, and one 'Partial' example; they never cut a request at every byte, pipeline, or deliver through the different buffer types.",
 ["src/http/request.rs", "src/helper.rs", "src/macros.rs", "src/http/header.rs", "src/http/name.rs", "src/http/method.rs", "src/http/version.rs", "src/url/url.rs"],
 [("Request::parse / parse_buffer", "src/http/request.rs"), ("token scanners and Partial reporting", "src/helper.rs"), ("next!/peek!/expect! macros", "src/macros.rs")],
 [("partial flag", "whether the last parse completed", "Request.partial")], ["Request::parse", "Request::parse_buffer", "Request::is_partial"])

prop("C02", "HTTP/1 responses parse the same however the bytes arrive",
 "For every well-formed HTTP/1.x response head (any status code 100-999, any reason phrase), re-parsing the bytes received so far reports 'partial' at every proper prefix and never an error or a completed response; once the head is whole, and regardless of following bytes, it yields exactly the sent version, status code and ordered header fields and the exact head length, leaving following bytes unread. Every buffer type gives the same result.",
 ["inputs", "schedules", "fault_sequences"],
 "every well-formed response sequence x every segmentation, delay, stall and cut of the byte stream",
 "No unit test parses a response from a segmented stream; the tests that exist build responses only.",
 ["src/http/response.rs", "src/helper.rs", "src/http/status.rs", "src/http/header.rs"],
 [("Response::parse / parse_buffer", "src/http/response.rs"), ("StatusCode::try_from", "src/http/status.rs")],
 [("partial flag", "whether the last parse completed", "Response.partial")], ["Response::parse", "Response::parse_buffer"])

prop("C03", "Relaying an HTTP/1 message through hops preserves it",
 "A request (origin-form, * or CONNECT target) or response that is parsed and re-encoded by any number of intermediaries is parsed by the final receiver with the same method, path, query, authority, version, status and ordered header fields as were sent, and as exactly one message: no decoded byte of the target or of a header ever becomes a delimiter, so nothing that travelled inside a message can end it early or start another.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every message x any number of relay hops x every segmentation and connection interleaving at each hop",
 "Round trips are tested for four literal requests, two of which fail on the pinned commit; no test relays percent-escapes, queries, CONNECT or non-canonical status codes.",
 ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/http/value.rs", "src/http/status.rs", "src/url/url.rs"],
 [("encode_header / http1_data / httpdata", "src/http/request.rs, src/http/response.rs"), ("HeaderMap::encode", "src/http/header.rs")],
 (), ["Request::encode_header", "Response::encode_header"])

prop("C04", "Malformed HTTP/1 heads fail promptly, stably and without panic",
 "For arbitrary bytes delivered on an HTTP/1 connection, parsing never panics, never loops and never allocates out of proportion to its input. Its verdict is monotone: once it has answered success or a definite error, delivering more bytes never changes that answer, and a head whose terminating blank line has already arrived is never reported as 'partial'. A head that breaks the line structure (anything but CRLF or LF ending a line, a bare CR, an empty or illegal header name, a missing colon, an unknown method or version, a bad percent escape, a Host or CONNECT port that is no port number) is rejected rather than accepted as some other message.",
 ["inputs", "fault_sequences"],
 "every byte stream, in particular every corruption (flipped, dropped, duplicated, inserted bytes, spliced or truncated streams) of valid traffic, in every segmentation",
 "No test feeds malformed HTTP/1 input at all.",
 ["src/http/request.rs", "src/http/response.rs", "src/helper.rs", "src/url/url.rs", "src/http/value.rs"],
 [("error versus Partial classification", "src/helper.rs"), ("URL percent decoding", "src/url/url.rs")],
 (), ["Request::parse", "Response::parse"])

prop("C05", "HTTP/1 bodies arrive intact and exactly once under any delivery",
 "A body sent as chunks, or delimited by a declared length, is recovered byte for byte, once and in order by a receiver that takes the framing (chunked or content length) from the parsed headers and re-parses as data arrives, and parsing of the next message resumes exactly after it; until a chunk is wholly present, including its closing line end, the chunk parser reports 'partial'. Malformed, oversized or unterminated chunk framing and unrepresentable content lengths yield an error (or, for a length, a length that is not positive) and never a panic, a wrong chunk boundary or an endless 'partial'.",
 ["inputs", "schedules", "fault_sequences"],
 "every body and chunking x every segmentation, truncation and corruption of the framing bytes",
 "No test covers chunk parsing; the encoder has no test with more than one chunk and none with a hostile size.",
 ["src/helper.rs", "src/http/header.rs", "src/http/value.rs"],
 [("Helper::parse_chunk_data / encode_chunk_data", "src/helper.rs"), ("HeaderMap::get_body_len / is_chunked", "src/http/header.rs"), ("integer header values", "src/http/value.rs")],
 (), ["Helper::parse_chunk_data", "HeaderMap::get_body_len", "HeaderMap::is_chunked"])

prop("C06", "HPACK endpoints stay in sync for the life of a connection",
 "Over any history of header blocks on one connection, produced by one or several encoder handles sharing the connection's table and consumed in order by one or several decoder handles sharing theirs, every block decodes to exactly the header list that was encoded, byte for byte and in order, and after every block both dynamic tables hold the same entries in the same order within the configured limit. This holds for any number of entries, for evictions, and for any table limit both ends agree on between blocks, every change of which the encoder announces on the wire.",
 ["histories", "schedules", "configurations"],
 "every history of header lists, stream-task interleavings and table-size configurations on a connection; connection restarts with fresh state",
 "The tests decode six RFC examples with tables of at most a few entries; no test makes the encoder talk to the decoder past 65 dynamic entries or across evictions.",
 ["src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs", "src/http/http2/hpack/huffman.rs"],
 [("Encoder::encode_into", "src/http/http2/hpack/encoder.rs"), ("Decoder::decode_with_cb", "src/http/http2/hpack/decoder.rs"), ("HeaderIndex add/evict/resize", "src/http/http2/hpack/header_index.rs")],
 [("dynamic table", "shared connection compression state", "HeaderIndex")], ["Encoder::encode", "Decoder::decode"])

prop("C07", "HPACK decoding agrees with RFC 7541 for every legal peer",
 "For any sequence of header blocks a conforming RFC 7541 peer may send (indexed, literal with/without/never indexing, indexed or literal names, Huffman or plain strings, multi-byte integers, dynamic table size updates, evictions including entries larger than the table), decoding yields exactly the header list and the dynamic table that RFC 7541 prescribes, and the next block on the connection decodes correctly too.",
 ["histories", "inputs", "configurations"],
 "every history of conforming blocks from a peer that chooses representations freely, with any advertised table limit",
 "The RFC's appendix examples cover a handful of representations and never a size update, a large index, an EOS code or an over-size entry.",
 ["src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs", "src/http/http2/hpack/huffman.rs", "src/http/http2/frame/headers.rs"],
 [("Decoder::decode_with_cb", "src/http/http2/hpack/decoder.rs"), ("static table", "src/http/http2/hpack/header_index.rs"), ("HuffmanDecoder", "src/http/http2/hpack/huffman.rs")],
 [("dynamic table", "decoder side compression state", "HeaderIndex")], ["Decoder::decode", "Headers::parse"])

prop("C08", "Hostile HPACK input is contained",
 "For arbitrary bytes presented as a header block, in any decoder state, decoding terminates with a header list or an error: it never panics, never loops, never allocates out of proportion to the input, and the dynamic table never exceeds its limit. Indices outside the tables, integer overflow, invalid Huffman codes or padding, a size update above the advertised limit, and truncated representations are errors.",
 ["inputs", "fault_sequences", "histories"],
 "every corruption, truncation or fabrication of header blocks after every prior history",
 "No test presents an invalid header block.",
 ["src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/huffman.rs", "src/http/http2/hpack/header_index.rs"],
 [("decode_integer / decode_string / decode_literal", "src/http/http2/hpack/decoder.rs"), ("HuffmanDecoder::decode", "src/http/http2/hpack/huffman.rs")],
 [("dynamic table", "must stay within its limit", "HeaderIndex")], ["Decoder::decode"])

prop("C09", "HTTP/2 frames round-trip over any delivery of the byte stream",
 "Any sequence of HTTP/2 frames of every kind the library can emit, encoded back to back onto a connection and delivered in any segmentation, is read back as the same sequence: each frame's declared length equals the bytes that follow its header, an incomplete frame header is reported as short and consumes nothing, and kind, flags, stream id and every payload field (settings values, ping data, error codes, debug data, window increments, dependency, weight and exclusivity, header fields, promised stream, body bytes) come back exactly.",
 ["inputs", "schedules", "histories"],
 "every frame sequence and field value x every segmentation of the connection",
 "Only DATA has a round-trip style test, and only on a whole buffer; several frame kinds are never parsed in tests.",
 ["src/http/http2/frame/mod.rs", "src/http/http2/frame/frame.rs", "src/http/http2/frame/headers.rs", "src/http/http2/frame/data.rs", "src/http/http2/frame/settings.rs", "src/http/http2/frame/ping.rs", "src/http/http2/frame/go_away.rs", "src/http/http2/frame/priority.rs", "src/http/http2/frame/reset.rs", "src/http/http2/frame/window_update.rs", "src/http/http2/frame/flag.rs", "src/http/http2/frame/kind.rs", "src/http/http2/frame/reason.rs"],
 [("FrameHeader::parse/encode, Frame::parse/encode", "src/http/http2/frame/frame.rs, src/http/http2/frame/mod.rs")],
 (), ["Frame::encode", "Frame::parse", "FrameHeader::parse"])

prop("C10", "Large HTTP/2 messages are split into legal frames and lose nothing",
 "For any peer frame-size limit and any message, sending its headers and body emits only frames whose payload is within the limit; a header block too large for one frame continues contiguously on the same stream with END_HEADERS on its last frame only and END_STREAM on the HEADERS frame, and body frames carry every byte once, in order, with END_STREAM on the last frame only, so an independent RFC 9113 receiver reassembles exactly the sent pseudo-headers, fields and body.",
 ["inputs", "configurations", "schedules"],
 "every message size and frame-size limit, with streams of one connection interleaved by the scheduler at message-part granularity",
 "No test encodes a block or body larger than one frame.",
 ["src/http/http2/frame/headers.rs", "src/http/http2/frame/data.rs", "src/http/http2/hpack/encoder.rs"],
 [("Headers::encode continuation loop", "src/http/http2/frame/headers.rs"), ("Data::encode split loop", "src/http/http2/frame/data.rs"), ("Encoder::encode_into", "src/http/http2/hpack/encoder.rs")],
 (), ["Headers::encode", "Data::encode", "PushPromise::encode"])

prop("C11", "Hostile or padded HTTP/2 frames are contained",
 "For arbitrary frame headers and payloads, frame parsing ends with a frame or an error and never a panic, loop or disproportionate allocation: a payload of a length illegal for its kind, a stream id illegal for its kind, padding not smaller than the payload, or out-of-range settings is an error. Padding on DATA and HEADERS is removed exactly and the priority section of HEADERS is stripped, so padded and unpadded encodings of one frame read the same; unknown flag bits, unknown settings and unknown frame kinds do not corrupt reading of the frames that follow. A header block refused only for its size or for what its fields say leaves the connection's header table as the peer has it, so later blocks still read correctly. The check offered for promised requests accepts exactly those that are safe, cacheable and without content.",
 ["inputs", "fault_sequences"],
 "every corruption, truncation or fabrication of frames, and every legal padding and flag choice of a peer, in every segmentation",
 "No test parses a padded, prioritised or malformed frame.",
 ["src/http/http2/frame/frame.rs", "src/http/http2/frame/mod.rs", "src/http/http2/frame/headers.rs", "src/http/http2/frame/data.rs", "src/http/http2/frame/settings.rs", "src/http/http2/frame/flag.rs", "src/http/http2/frame/go_away.rs"],
 [("Frame::parse, trim_padding", "src/http/http2/frame/frame.rs"), ("Settings::parse", "src/http/http2/frame/settings.rs")],
 (), ["Frame::parse", "FrameHeader::parse"])

prop("C12", "WebSocket frames round-trip under any segmentation and masking",
 "Any sequence of WebSocket frames (every opcode, FIN and reserved bits, masked or not, every payload length class) written back to back and delivered in any segmentation is read back as the same sequence: while a frame is incomplete the reader reports 'not enough data', and once it is complete it yields the same bits, opcode and unmasked payload and consumes exactly the frame's bytes. The bytes on the wire are the RFC 6455 encoding with the shortest length form, the declared sizes equal the bytes written, and client payloads are masked with the mask carried in the frame.",
 ["inputs", "schedules", "fault_sequences"],
 "every frame sequence x every segmentation, stall and connection cut",
 "The tests read and write a few small literal frames from whole buffers.",
 ["src/ws/dataframe.rs", "src/ws/frame_header.rs", "src/ws/mask.rs"],
 [("read_header / write_header", "src/ws/frame_header.rs"), ("DataFrame::read_dataframe*/write_to", "src/ws/dataframe.rs"), ("Masker, mask_data", "src/ws/mask.rs")],
 (), ["DataFrame::read_dataframe", "DataFrame::write_to", "read_header", "write_header"])

prop("C13", "WebSocket messages survive framing and fragmentation intact",
 "Any text, binary, close, ping or pong message converted to frames, sent, and rebuilt by the receiver from its frames is the same message: fragments are joined in order whatever their sizes (a text character may be split between fragments), a close keeps its code and reason, and ping/pong keep their data. Frame lists that are not one message (a reserved bit set, a wrong or repeated opcode in a continuation, FIN anywhere but on the last frame, text that is not UTF-8, a malformed close payload) are rejected rather than delivered altered.",
 ["inputs", "schedules", "fault_sequences"],
 "every message x every fragmentation and interleaving with control frames x faults on the frame list (dropped, duplicated, reordered, re-flagged fragments)",
 "The tests convert a few literal single-frame messages.",
 ["src/ws/message.rs", "src/ws/dataframe.rs"],
 [("OwnedMessage::from_dataframes / Message::from_dataframes, write_to", "src/ws/message.rs"), ("CloseCode conversions", "src/ws/message.rs")],
 (), ["OwnedMessage::from_dataframes", "Message::write_to"])

prop("C14", "Hostile WebSocket bytes are contained",
 "For arbitrary bytes delivered on a WebSocket connection, frame reading terminates with a frame, 'not enough data' or a definite error, and never panics, loops, or allocates out of proportion to the bytes received, whatever length a frame header declares; a declared length above the caller's limit is an error before the payload is awaited, a masked/unmasked frame arriving where the opposite is required is an error, and an oversized or fragmented control frame, a non-minimal length and a 64-bit length with its top bit set are errors. More bytes never change a definite verdict.",
 ["inputs", "fault_sequences"],
 "every corruption, truncation or fabrication of frames in every segmentation and every read limit",
 "One limit test and no corrupt input.",
 ["src/ws/dataframe.rs", "src/ws/frame_header.rs"],
 [("read_header validation", "src/ws/frame_header.rs"), ("read_dataframe_with_limit", "src/ws/dataframe.rs")],
 (), ["DataFrame::read_dataframe_with_limit"])

prop("C15", "HTTP/2 settings survive the h2c upgrade and later updates",
 "Settings placed in an HTTP/1 upgrade request and settings exchanged in SETTINGS frames reach the peer unchanged: decoding the upgrade header of the received request gives exactly the settings the client set, and any history of SETTINGS frames applied in order leaves the receiver with, for each parameter, the last value sent. A corrupt upgrade token (not base64url, not whole parameters, or with a value out of range) is rejected, never a panic and never out-of-range or partly applied values.",
 ["inputs", "histories", "fault_sequences"],
 "every settings value combination, every history of updates, every corruption of the upgrade token, in every segmentation",
 "No test decodes the upgrade header or applies successive settings.",
 ["src/http/http2/frame/settings.rs", "src/http/request.rs", "src/http/header.rs"],
 [("encode_http_settings / parse_http_settings", "src/http/http2/frame/settings.rs"), ("Builder::upgrade_http2", "src/http/request.rs")],
 (), ["Settings::parse_http_settings", "Settings::parse"])

prop("C16", "Reused parsers and concurrent connections never affect each other",
 "A request or response object reused for a new message, whatever it parsed before (complete, partial, failed or abandoned at a connection reset), ends with the same method, target, version, status, headers and completion state as a fresh object would; and the outcome of each connection in a process that interleaves many HTTP/1, HTTP/2 and WebSocket connections is exactly the outcome it would have alone.",
 ["histories", "schedules", "fault_sequences"],
 "every history of earlier parses on the same object, every interleaving of connections, every reset point",
 "Every test uses fresh objects and one connection.",
 ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/encoder.rs", "src/http/http2/frame/headers.rs"],
 [("parse_buffer overwrites every part; parse_header clears", "src/http/request.rs, src/helper.rs"), ("per-connection HeaderIndex", "src/http/http2/hpack/header_index.rs")],
 [("Request/Response parts", "state carried between parses", "Parts")], ["Request::parse", "Response::parse", "Decoder::decode"])

prop("C17", "Encoders report exactly what they wrote, into any sink",
 "Every encoder that reports a byte count (requests, responses, header maps, chunks, HTTP/2 frames of every kind, WebSocket frames and messages) reports exactly the number of bytes it appended, appends the same bytes whatever sink type is used and whatever the sink already holds, and leaves what the sink already held untouched, so a sender that accounts for its output by these counts under back-pressure and short writes transmits the stream without a gap or overlap.",
 ["inputs", "schedules", "fault_sequences"],
 "every message or frame, every sink state, every pattern of short writes and back-pressure",
 "Tests ignore or sum the counts for a few frames on fresh buffers.",
 ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/helper.rs", "src/serialize.rs", "src/http/http2/frame/frame.rs", "src/ws/dataframe.rs", "src/ws/message.rs"],
 [("size accumulation in every encode", "src/http, src/ws"), ("Serialize impls", "src/serialize.rs")],
 (), ["Request::encode_header", "Frame::encode", "DataFrame::write_to", "Helper::encode_chunk_data"])

prop("C18", "URLs keep their meaning wherever they travel as text",
 "A URL built from parts or parsed from text keeps every component (scheme, user, password, host, port, path, query) when rendered as text, carried in a header, stored, or restored after a crash, and parsed again, whatever characters its components hold; the text means the same URL to any RFC 3986 reader; the host, port and authority it names are the ones its author meant, and a request made from it asks for exactly its path and query. Percent encoding and decoding are inverse. Damaged or hostile URL text is refused, or means what any other reader finds in it: it never panics and never names another host.",
 ["inputs", "histories", "fault_sequences"],
 "every URL and every chain of redirects, crashes, torn writes, lost connections and corruptions of the text",
 "Four literal URLs are tested.",
 ["src/url/url.rs", "src/url/builder.rs", "src/url/scheme.rs"],
 [("Url::parse, Display, url_encode, url_decode", "src/url/url.rs"), ("get_authority / get_connect_url", "src/url/url.rs"), ("url::Builder", "src/url/builder.rs")],
 (), ["Url::parse", "Url::to_string", "Url::get_authority", "Url::get_connect_url", "Request::url"])

prop("C19", "The header map is an ordered case-insensitive map through every hop",
 "Any history of insert, append, remove, clear, index and lookup operations on a header map, by any sequence of parties that receive, edit and pass a header section on, gives the results of an ordered list keyed by case-insensitive names, whether given as text or by one of the named constants: an existing name keeps its place and takes the new (or extended) value, a removed name is gone, and what the next party receives over HTTP/1 or HTTP/2 is exactly what the last one left. The accessors derived from it (host, cookie, referer, user agent, body length, keep-alive, chunked, upgrade) always agree with the fields held, and a value read as a number or as text is exactly the one it states.",
 ["inputs", "histories", "schedules"],
 "every sequence of operations by every chain of parties over any delivery",
 "A few literal operations are tested through doc examples.",
 ["src/http/header.rs", "src/http/name.rs", "src/http/value.rs"],
 [("HeaderMap operations and accessors", "src/http/header.rs"), ("case-insensitive HeaderName", "src/http/name.rs")], (), ["HeaderMap"])

prop("C20", "Codes and typed extensions keep their value and meaning everywhere",
 "A status code, method, version, scheme, WebSocket opcode or close code, HTTP/2 error code or frame kind keeps its value and its meaning (number, text, name, reason phrase, class and predicates) through any sequence of conversions between its forms and over any chain of HTTP/1, HTTP/2 and WebSocket connections; what is no such code is refused and never taken for one. The typed extension store of a message returns, through any history of insertions, replacements, removals, merges and moves on any interleaving of connections and threads, exactly the last value stored of each type, and every value stored is dropped exactly once; a copied message shares the connection's compression table.",
 ["inputs", "histories", "schedules"], "every code, every sequence of conversions and connections, every history of every set of stores",
 "Doc examples cover a few values.",
 ["src/http/status.rs", "src/http/method.rs", "src/http/version.rs", "src/url/scheme.rs", "src/extensions.rs", "src/http/http2/frame/reason.rs", "src/http/http2/frame/kind.rs", "src/ws/message.rs", "src/ws/dataframe.rs"],
 [("conversion tables", "src/http/status.rs, src/http/method.rs, src/ws/message.rs, src/http/http2/frame/reason.rs and others"), ("Extensions", "src/extensions.rs")], (), ["StatusCode", "Method", "Version", "Scheme", "CloseCode", "Opcode", "Reason", "Kind", "Extensions"])

prop("C21", "A message built through the API reaches the peer as it was built",
 "Whatever sequence of builder, setter, copying and conversion calls an application uses to make a request or response, with whatever body type, what it encodes is exactly one well-formed message that the peer reads, under any delivery, as what was described: method, target, version, status, header list (with the last value set for a name), and body. Text an application puts into names, values, hosts, paths, queries or methods can never add, end or change another part of the message: it is carried as it is, encoded, or refused when the message is encoded.",
 ["inputs", "histories", "schedules"],
 "every sequence of building calls, every body, every text x every segmentation and pipelining of the exchange",
 "Tests build a few literal messages and compare a few strings.",
 ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/serialize.rs", "src/url/url.rs"],
 [("request::Builder, response::Builder", "src/http/request.rs, src/http/response.rs"), ("httpdata / http1_data / serialize", "src/http/request.rs, src/http/response.rs"), ("Serialize for bodies", "src/serialize.rs"), ("HeaderMap::encode validation", "src/http/header.rs")],
 (), ["Request::http1_data", "Response::httpdata", "Request::builder", "Response::builder"])

prop("C22", "Gateways between HTTP/1 and HTTP/2 neither change nor mix messages",
 "A request and its response that cross any chain of HTTP/1 and HTTP/2 connections through gateways built on the library (HEADERS and DATA frames turned into requests and responses and back) arrive with the same method, host, port, path, query, status, fields and body, exactly once and paired with each other, however streams interleave and deliveries are cut, also when other streams are reset midway. A request that HTTP/1 cannot express is refused: it never becomes another request, gains fields, reaches another host, or disturbs other streams' messages.",
 ["inputs", "schedules", "fault_sequences"],
 "every message, every chain of gateways, every interleaving, segmentation and reset, every inexpressible request",
 "No test converts between the protocols in both directions or carries a body across.",
 ["src/http/http2/frame/headers.rs", "src/http/http2/frame/data.rs", "src/http/request.rs", "src/http/response.rs", "src/url/url.rs", "src/http/header.rs", "src/helper.rs"],
 [("Headers::into_request / into_response, Parts::build_url", "src/http/http2/frame/headers.rs"), ("Parts::request / response, encode_header", "src/http/http2/frame/headers.rs"), ("cookie joining in HeaderBlock::load", "src/http/http2/frame/headers.rs")],
 (), ["Headers::into_request", "Headers::into_response", "Request::http1_data", "Frame::encode"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
