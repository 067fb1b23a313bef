use crate::ctx::{Ctx, Res};

pub mod built;
pub mod codes;
pub mod counts;
pub mod gateway;
pub mod h1;
pub mod h1body;
pub mod h1hostile;
pub mod h1relay;
pub mod h2frames;
pub mod h2hpack;
pub mod h2settings;
pub mod headers;
pub mod redirect;
pub mod reuse;
pub mod ws;

pub type World = fn(&mut Ctx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub worlds: &'static [(&'static str, World)],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const STUB: &str = "sockets and the operating system (simulated byte streams and sinks implementing algorithm::buf::{Bt,BtMut}), the clock (virtual), the applications on both ends (harness event handlers), the reference readers and writers in sim/src/model";

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", worlds: &[("keepalive", h1::c01_keepalive)], quick_runs: 300_000, thorough_runs: 3_000_000,
            rule: "keepalive: a client pipelines requests (with length-delimited bodies) over simulated connections that may be cut and reopened; the server re-parses the bytes received so far on every delivery, with a randomly chosen buffer type.",
            real: "webparse Request parsing, HeaderMap, Url, algorithm buffers", stub: STUB },
        Prop { id: "C02", worlds: &[("responses", h1::c02_responses)], quick_runs: 300_000, thorough_runs: 3_000_000,
            rule: "responses: a server streams responses; the client re-parses on every delivery.",
            real: "webparse Response parsing, HeaderMap, StatusCode, algorithm buffers", stub: STUB },
        Prop { id: "C03", worlds: &[("relays", h1relay::relay_chain)], quick_runs: 150_000, thorough_runs: 5_000_000,
            rule: "relays: pipelined requests or responses with length-delimited bodies pass through 1-3 intermediaries, each parsing with a random buffer type, optionally editing headers and re-encoding into a random sink over a segmented link; every hop and the last receiver are checked, also by an independent reader.",
            real: "webparse Request/Response parsing and encoding, HeaderMap, Url", stub: STUB },
        Prop { id: "C04", worlds: &[("damaged", h1hostile::damaged), ("damaged", h1hostile::damaged), ("damaged", h1hostile::damaged), ("fabricated", h1hostile::fabricated), ("fabricated", h1hostile::fabricated), ("oversized", h1hostile::oversized)], quick_runs: 300_000, thorough_runs: 10_000_000,
            rule: "damaged: valid request/response heads corrupted, spliced, restarted or with line ends damaged; fabricated: streams made of protocol fragments; oversized: huge or random elements. All segmented; at every delivery the verdict is compared with earlier verdicts and with an independent reader.",
            real: "webparse Request/Response parsing, HeaderMap, Url, Method, Version, StatusCode", stub: STUB },
        Prop { id: "C05", worlds: &[("bodies", h1body::bodies), ("bodies", h1body::bodies), ("damaged_chunks", h1body::damaged_chunks), ("lengths", h1body::lengths)], quick_runs: 300_000, thorough_runs: 10_000_000,
            rule: "bodies: pipelined requests/responses with chunked (library-encoded or harness-encoded with legal variations), length-delimited or no body over segmented links, received by a state machine driven only by the parsed headers; damaged_chunks: chunk streams corrupted, truncated or fabricated, judged at each delivery against a reference chunk reader; lengths: extreme and malformed Content-Length values.",
            real: "webparse Request/Response parsing, HeaderMap framing accessors, Helper::{parse_chunk_data, encode_chunk_data, skip_new_line}, HeaderValue integer conversion", stub: STUB },
        Prop { id: "C06", worlds: &[("sync", h2hpack::c06_sync)], quick_runs: 80_000, thorough_runs: 2_000_000,
            rule: "sync: 1-3 connections, several encoder handles and several decoder handles per connection share its tables; blocks travel in order with random latency, SETTINGS changes and their acknowledgements travel between them, connections are reset; every block is also read by an independent RFC 7541 decoder and all three tables are compared after every block.",
            real: "webparse http2::{Encoder, Decoder, HeaderIndex, HuffmanEncoder, HuffmanDecoder}, HeaderName, HeaderValue", stub: STUB },
        Prop { id: "C07", worlds: &[("rfc_peer", h2hpack::c07_rfc_peer)], quick_runs: 150_000, thorough_runs: 2_000_000,
            rule: "rfc_peer: an independent RFC 7541 encoder whose every representation choice is drawn (indexed, three literal forms, Huffman or plain, name index choice, size updates, limit changes) feeds interleaved connections; list and table are compared with the prescribed ones after every block.",
            real: "webparse http2::{Decoder, HeaderIndex, HuffmanDecoder}, HeaderName, HeaderValue", stub: STUB },
        Prop { id: "C08", worlds: &[("hostile", h2hpack::c08_hostile)], quick_runs: 1_000_000, thorough_runs: 30_000_000,
            rule: "hostile: a connection with a history of legal blocks receives corrupted, truncated, spliced and fabricated blocks; verdict, list, table and allocation are judged against a strict independent decoder.",
            real: "webparse http2::{Decoder, HeaderIndex, HuffmanDecoder}, HeaderName, HeaderValue", stub: STUB },
        Prop { id: "C09", worlds: &[("frames", h2frames::c09_frames)], quick_runs: 200_000, thorough_runs: 5_000_000,
            rule: "frames: 1-2 connections, each a chain of a sender (library objects or a reference writer), 0-2 relays that parse and re-encode every frame, and a receiver, over segmented links that may be cut and resumed; at every hop the library and an independent RFC 9113 reader read the same octets and must agree with each other and with what was sent.",
            real: "webparse http2::frame::*, http2 HPACK coders, HeaderMap", stub: STUB },
        Prop { id: "C10", worlds: &[("split", h2frames::c10_split)], quick_runs: 80_000, thorough_runs: 3_000_000,
            rule: "split: streams of a connection interleave their header blocks, body pieces, pushes and trailers under frame-size limits that change between parts; every part is reassembled by a strict independent receiver and by the library.",
            real: "webparse http2::frame::{Headers, Data, PushPromise}, http2 HPACK coders, HeaderMap", stub: STUB },
        Prop { id: "C11", worlds: &[("padded", h2frames::c11_padded), ("hostile", h2frames::c11_hostile), ("hostile", h2frames::c11_hostile)], quick_runs: 300_000, thorough_runs: 10_000_000,
            rule: "padded: a reference peer that pads, sets undefined flag and reserved bits, splits header blocks and sends unknown kinds and settings, read by the library through relays; hostile: frames damaged inside their boundaries, fabricated frames, streams corrupted, truncated or with lost frames; verdicts judged frame by frame against an independent reader, with an allocation bound.",
            real: "webparse http2::frame::*, http2 HPACK coders, HeaderMap", stub: STUB },
        Prop { id: "C12", worlds: &[("frames", ws::c12_frames)], quick_runs: 200_000, thorough_runs: 10_000_000,
            rule: "frames: WebSocket frames of every kind and length class pass through chains of relays that unmask and re-mask them, over segmented links that are cut and resumed; every wire image is compared with the RFC 6455 encoding and every read with what was sent.",
            real: "webparse ws::{DataFrame, frame_header, Masker, Message, OwnedMessage}", stub: STUB },
        Prop { id: "C13", worlds: &[("messages", ws::c13_messages)], quick_runs: 400_000, thorough_runs: 10_000_000,
            rule: "messages: fragmented messages with control messages between their fragments over segmented connections, rebuilt by the receiver and compared; frame lists with dropped, duplicated, reordered, re-flagged and damaged fragments judged against the message rules.",
            real: "webparse ws::{DataFrame, Message, OwnedMessage, CloseData, CloseCode}", stub: STUB },
        Prop { id: "C15", worlds: &[("upgrade", h2settings::c15_upgrade)], quick_runs: 250_000, thorough_runs: 10_000_000,
            rule: "upgrade: an upgrade request built by the library or by another client (own order, repeated and unknown parameters, damaged tokens) crosses 0-2 relays and segmented links; the server's reading of the token is held against an independent one; then both ends exchange SETTINGS and acknowledgements over a segmented connection and their views are compared.",
            real: "webparse http2::frame::{Settings, FrameHeader, Frame}, Request builder/parse/encode, HeaderMap", stub: STUB },
        Prop { id: "C16", worlds: &[("pool", reuse::c16_pool), ("crowd", reuse::c16_crowd)], quick_runs: 100_000, thorough_runs: 5_000_000,
            rule: "pool: connections that end complete, failed or cut are served by a pool of request/response objects with arbitrary pasts (parsed, built, edited, converted), each parse repeated with a fresh object and compared; crowd: 2-6 connections (HTTP/1 requests, responses, chunks, HPACK, HTTP/2 frames, WebSocket, builders), some damaged or reset, interleaved step by step by the seed and migrated between OS threads that run one at a time; each connection's complete log of observations is compared with its log when run alone.",
            real: "all of webparse", stub: STUB },
        Prop { id: "C17", worlds: &[("backpressure", counts::c17_backpressure)], quick_runs: 1_000_000, thorough_runs: 5_000_000,
            rule: "backpressure: senders encode requests, responses, header maps, chunks, HTTP/2 frames, tokens and WebSocket frames into output queues that still hold unsent bytes and drain by short writes, trusting only the returned counts; every item is also encoded into a fresh buffer, and the peer's byte stream is compared with the concatenation of those.",
            real: "every encoder of webparse (http, http2, ws, serialize, helper)", stub: STUB },
        Prop { id: "C18", worlds: &[("redirects", redirect::c18_redirects), ("redirects", redirect::c18_redirects), ("damaged", redirect::c18_damaged)], quick_runs: 250_000, thorough_runs: 5_000_000,
            rule: "redirects: a client follows redirects between servers; URLs are parsed from text or built from parts, sent as Location text, kept as bookmark text across crashes and torn writes, asked for over segmented connections that are lost and retried; at every step every component is compared with what was meant, text is read by an independent RFC 3986 reader, and the server asked must be the one meant; damaged: URL texts truncated, corrupted, spliced and fabricated, where whatever is accepted must mean what the independent reader finds and survive rendering.",
            real: "webparse Url, url::Builder, Scheme, Request/Response building, parsing and encoding, HeaderMap", stub: STUB },
        Prop { id: "C19", worlds: &[("sessions", headers::c19_sessions)], quick_runs: 300_000, thorough_runs: 5_000_000,
            rule: "sessions: header sections pass along 2-4 parties as HTTP/1 requests, responses or HTTP/2 blocks over segmented, cut connections; every party applies a drawn history of map operations to the received map and to an ordered reference map; contents, lookups and derived accessors are compared after steps and after every hop.",
            real: "webparse HeaderMap, HeaderName, HeaderValue, Request/Response parsing and encoding, HPACK and HEADERS frames", stub: STUB },
        Prop { id: "C20", worlds: &[("codes", codes::c20_codes), ("codes", codes::c20_codes), ("stores", codes::c20_stores)], quick_runs: 300_000, thorough_runs: 5_000_000,
            rule: "codes: status codes, methods, versions, schemes, close codes, opcodes, error codes and frame kinds pass along chains of parties over HTTP/1, HTTP/2 and WebSocket connections that are segmented, stalled and cut, each party putting the value through a drawn list of conversions; after every step number, text, name, class and predicates are held against independent registries, and damaged forms must be refused; stores: typed extension stores of messages of several connections go through drawn histories (insert, replace, remove, change, clear, merge, move, conversion of the message, migration to another thread, reset of the connection); every store equals its model after every step and every value is dropped exactly once.",
            real: "webparse StatusCode, Method, Version, Scheme, CloseCode, CloseData, Opcode, Reason, Kind, Extensions, Request/Response, HEADERS/RST_STREAM/GOAWAY frames, WebSocket frames", stub: STUB },
        Prop { id: "C21", worlds: &[("exchange", built::c21_exchange), ("exchange", built::c21_exchange), ("injected", built::c21_injected)], quick_runs: 250_000, thorough_runs: 5_000_000,
            rule: "exchange: a client builds requests and a server builds responses by drawn sequences of builder, setter and conversion calls with every body type, sends them length-delimited or chunked through drawn sinks over a keep-alive connection (pipelined or in turn, segmented, stalled), and the peer must see exactly what was described; injected: text with delimiters, controls and line ends is put into names, values, hosts, paths, queries and methods, and the message must go out meaning exactly that or be refused.",
            real: "webparse Request/Response builders, setters, conversions and encoders, Serialize, HeaderMap, Url, Helper chunk coder", stub: STUB },
        Prop { id: "C22", worlds: &[("gateway", gateway::c22_gateway), ("gateway", gateway::c22_gateway), ("hostile", gateway::c22_hostile)], quick_runs: 80_000, thorough_runs: 5_000_000,
            rule: "gateway: requests and their responses cross chains of 1-3 HTTP/1 and HTTP/2 connections with a gateway between each two, streams interleaved, bodies in DATA frames, chunks or by length, segmented and stalled, streams reset midway; every hop checks what arrives, independent readers check the octets, and every request is answered once, to its own sender; hostile: an HTTP/2 client sends what HTTP/1 cannot say, which may be refused but never become another message or reach another host.",
            real: "webparse http2 frames, HPACK, Headers::into_request/into_response, Parts::request/response/build_url, Request/Response parsing and encoding, Url, HeaderMap, chunk coder", stub: STUB },
        Prop { id: "C14", worlds: &[("hostile", ws::c14_hostile), ("hostile", ws::c14_hostile), ("hostile", ws::c14_hostile), ("hostile", ws::c14_hostile), ("hostile", ws::c14_hostile), ("hostile", ws::c14_hostile), ("hostile", ws::c14_hostile), ("direction", ws::c14_direction)], quick_runs: 600_000, thorough_runs: 20_000_000,
            rule: "hostile: frame streams corrupted, truncated, fabricated or random, delivered in segments to readers with and without limits; verdicts held monotone and against an independent reader, with an allocation bound, and accepted frames tried as messages; direction: frames masked against their direction.",
            real: "webparse ws::{DataFrame, frame_header, OwnedMessage}", stub: STUB },
    ]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
