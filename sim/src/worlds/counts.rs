//! C17: encoders into output queues under back-pressure; the sender trusts only the returned counts.
use super::h2frames::{build, header_map};
use super::ws as wsw;
use crate::buf::SimSink;
use crate::choice::Choices;
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::h2;
use crate::model::http1 as m1;
use crate::model::ws as mws;
use crate::net::Queue;
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use std::sync::{Arc, RwLock};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::{ErrorCode, Flag, FrameHeader, Kind, Ping, SizeIncrement, StreamIdentifier};
use webparse::http2::HeaderIndex;
use webparse::{HeaderName, HeaderValue, Helper, Method, Request, Response, Scheme, Serialize, StatusCode, Version, WebError};

/// One thing to send. `seed` fixes every incidental choice so that it can be built twice alike.
enum Item {
    Req(m1::Req, u64),
    Resp(m1::Resp, u64),
    Headers(Vec<(String, Vec<u8>)>),
    Chunk(Vec<u8>),
    Frame(h2::MF, u64),
    FrameHeader(u8, u8, u32, u32),
    Token(u64),
    Ws(mws::RFrame, u64),
}

impl Item {
    fn name(&self) -> &'static str {
        match self {
            Item::Req(..) => "request",
            Item::Resp(..) => "response",
            Item::Headers(_) => "header map",
            Item::Chunk(_) => "chunk",
            Item::Frame(..) => "HTTP/2 frame",
            Item::FrameHeader(..) => "HTTP/2 frame header",
            Item::Token(_) => "token",
            Item::Ws(..) => "WebSocket frame",
        }
    }
}

/// A body of a drawn type, serialized after the head.
fn body_into<B: Bt + BtMut>(ch: &mut Ctx, body: &[u8], b: &mut B) -> Result<usize, WebError> {
    match ch.ch.below(6) {
        0 => ().serialize(b),
        1 => body.to_vec().serialize(b),
        2 => String::from_utf8_lossy(body).to_string().serialize(b),
        3 => "a fixed \u{6c34} text".serialize(b),
        4 => {
            let mut x = Binary::from(body.to_vec());
            let n = body.len().min(2);
            x.advance(n);
            x.serialize(b)
        }
        _ => {
            let mut x = BinaryMut::from(body.to_vec());
            let n = body.len().min(2);
            x.advance(n);
            x.serialize(b)
        }
    }
}

fn with_body<B: Bt + BtMut>(ch: &mut Ctx, head: &[u8], body: &[u8], b: &mut B) -> Result<usize, WebError> {
    // the whole response, serialized in one call, with a typed body
    fn go<T: Serialize, B: Bt + BtMut>(head: &[u8], body: T, b: &mut B) -> Result<usize, WebError> {
        let mut r = Response::new(());
        r.parse(head)?;
        let (mut r, _) = r.into(body);
        r.serialize(b)
    }
    match ch.ch.below(5) {
        0 => go(head, (), b),
        1 => go(head, body.to_vec(), b),
        2 => go(head, String::from_utf8_lossy(body).to_string(), b),
        3 => go(head, Binary::from(body.to_vec()), b),
        _ => go(head, "fixed", b),
    }
}

/// Encodes one item through the library; the count is all the sender will know.
fn emit<B: Bt + BtMut>(it: &Item, enc: &mut Encoder, b: &mut B) -> Result<usize, WebError> {
    match it {
        Item::Req(r, seed) => {
            let mut cx = Ctx::new(Choices::random(*seed), false);
            let mut q = Request::new();
            q.parse(&r.wire)?;
            let mut n = q.encode_header(b)?;
            n += body_into(&mut cx, &r.body, b)?;
            Ok(n)
        }
        Item::Resp(r, seed) => {
            let mut cx = Ctx::new(Choices::random(*seed), false);
            if cx.ch.chance(1, 2) {
                return with_body(&mut cx, &r.wire, &r.body, b);
            }
            let mut q = Response::new(());
            q.parse(&r.wire)?;
            let mut n = q.encode_header(b)?;
            n += body_into(&mut cx, &r.body, b)?;
            Ok(n)
        }
        Item::Headers(l) => {
            let mut cx = Ctx::new(Choices::random(7), false);
            let f: Vec<(Vec<u8>, Vec<u8>)> = l.iter().map(|(n, v)| (n.clone().into_bytes(), v.clone())).collect();
            header_map(&mut cx, &f).encode(b)
        }
        Item::Chunk(d) => Helper::encode_chunk_data(b, d).map_err(WebError::from),
        Item::Frame(f, seed) => {
            let mut cx = Ctx::new(Choices::random(*seed), false);
            let direct = cx.ch.chance(1, 8);
            if let (true, h2::MF::Ping { ack, data }) = (direct, f) {
                let mut p = if *ack { Ping::pong(*data) } else { Ping::new(*data) };
                return p.serialize(b);
            }
            build(&mut cx, f).encode(b, enc)
        }
        Item::FrameHeader(k, fl, id, len) => {
            let mut h = FrameHeader::new(Kind::new(*k), Flag::from_bits_truncate(*fl), StreamIdentifier(*id));
            h.length = *len;
            h.encode(b)
        }
        Item::Token(seed) => {
            let mut cx = Ctx::new(Choices::random(*seed), false);
            let v = cx.ch.below(1 << 32) as u32;
            match cx.ch.below(9) {
                0 => {
                    let s = cx.ch.pick(&m1::METHODS);
                    Method::try_from(s)?.encode(b)
                }
                1 => {
                    let mut x = cx.ch.pick(&[0, 1, 2, 3]);
                    x += 0;
                    let mut ver = [Version::Http10, Version::Http11, Version::Http2, Version::Http3][x].clone();
                    ver.encode(b)
                }
                2 => StatusCode::from_u16(100 + (v % 900) as u16).expect("three digits").encode(b),
                3 => {
                    let n = m1::gen_name(&mut cx);
                    HeaderName::from_bytes(n.as_bytes()).ok_or(WebError::Extension("harness: legal name refused"))?.encode(b)
                }
                4 => {
                    let x = m1::gen_value(&mut cx);
                    HeaderValue::from_bytes(&x).encode(b)
                }
                5 => {
                    let s = cx.ch.pick(&["http", "https", "ws", "wss", "ftp", "gopher"]);
                    Scheme::try_from(s)?.serialize(b)
                }
                6 => SizeIncrement(v).serialize(b),
                7 => ErrorCode(v).serialize(b),
                _ => Ok(SizeIncrement(v).encode(b)),
            }
        }
        Item::Ws(f, seed) => {
            let mut cx = Ctx::new(Choices::random(*seed), false);
            wsw::emit_frame(&mut cx, f, b)
        }
    }
}

fn gen_item(cx: &mut Ctx, family: u64) -> Item {
    let seed = cx.ch.below(1 << 16);
    let family = if family == 5 { cx.ch.below(5) } else { family };
    match family {
        0 => match cx.ch.below(3) {
            0 => Item::Chunk({
                let n = h2::gen_bytes(cx, 9000);
                n
            }),
            1 => {
                let mut r = m1::gen_req(cx, true, true);
                r.body = h2::gen_bytes(cx, 300);
                Item::Req(r, seed)
            }
            _ => {
                let mut r = m1::gen_resp(cx);
                r.body = h2::gen_bytes(cx, 300);
                Item::Resp(r, seed)
            }
        },
        1 => {
            let n = cx.ch.skew(8);
            let l = (0..n).map(|_| (m1::gen_name(cx), m1::gen_value(cx))).collect();
            Item::Headers(l)
        }
        2 => {
            let big = if cx.ch.chance(1, 12) { 50_000 } else { 400 };
            Item::Frame(h2::gen_mf(cx, big), seed)
        }
        3 => {
            if cx.ch.chance(1, 4) {
                let k = cx.ch.below(10) as u8;
                let fl = cx.ch.below(256) as u8;
                let id = cx.ch.below(1 << 31) as u32;
                let len = cx.ch.below(1 << 24) as u32;
                Item::FrameHeader(k, fl, id, len)
            } else {
                Item::Token(seed)
            }
        }
        _ => {
            let masked = cx.ch.chance(1, 2);
            Item::Ws(wsw::gen_frame(cx, masked), seed)
        }
    }
}

/// The output queue of one connection.
enum Out {
    Bin(BinaryMut),
    Sim(SimSink),
}

impl Out {
    fn view(&self) -> Vec<u8> {
        match self {
            Out::Bin(b) => b.chunk().to_vec(),
            Out::Sim(s) => s.chunk().to_vec(),
        }
    }
    fn len(&self) -> usize {
        match self {
            Out::Bin(b) => b.remaining(),
            Out::Sim(s) => s.remaining(),
        }
    }
    fn take(&mut self, n: usize) -> Vec<u8> {
        match self {
            Out::Bin(b) => b.advance_chunk(n).to_vec(),
            Out::Sim(s) => s.advance_chunk(n).to_vec(),
        }
    }
}

struct Sender {
    items: Vec<Item>,
    next: usize,
    out: Out,
    enc: Encoder,
    twin: Encoder,
    /// bytes the counts say are waiting
    owed: usize,
    want: Vec<u8>,
    wire: Vec<u8>,
    /// send buffer of the peer's socket: bytes accepted per write
    window: u64,
    high_water: usize,
}

enum Ev {
    Produce(usize),
    Writable(usize),
}

fn enc(max: usize) -> Encoder {
    Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), max)
}

/// What the numeric tokens are on the wire, whoever writes them: network order.
fn octets(it: &Item) -> Option<Vec<u8>> {
    match it {
        Item::Token(seed) => {
            let mut cx = Ctx::new(Choices::random(*seed), false);
            let v = cx.ch.below(1 << 32) as u32;
            (cx.ch.below(9) >= 6).then(|| v.to_be_bytes().to_vec())
        }
        Item::Frame(h2::MF::Ping { ack, data }, _) => {
            let mut o = vec![0, 0, 8, 6, *ack as u8, 0, 0, 0, 0];
            o.extend_from_slice(data);
            Some(o)
        }
        _ => None,
    }
}

pub fn c17_backpressure(cx: &mut Ctx) -> Res {
    let mut q: Queue<Ev> = Queue::new();
    let nconn = 1 + cx.ch.below(2) as usize;
    let mut conns = vec![];
    for c in 0..nconn {
        let family = cx.ch.below(6);
        let n = 1 + cx.ch.below(6);
        let items = (0..n).map(|_| gen_item(cx, family)).collect();
        let max = cx.ch.pick(&[16_384usize, 64, 100, 1000, 1 << 20]);
        let out = match cx.ch.below(3) {
            0 => Out::Bin(BinaryMut::new()),
            1 => {
                // a small buffer that compacts itself as it drains
                let mut b = BinaryMut::with_capacity(16);
                b.set_resort(64);
                Out::Bin(b)
            }
            _ => {
                let w = 1 + cx.ch.skew(500) as usize;
                Out::Sim(SimSink::new(b"", w))
            }
        };
        let window = 1 + cx.ch.skew(4000);
        let high_water = cx.ch.skew(20_000) as usize;
        conns.push(Sender { items, next: 0, out, enc: enc(max), twin: enc(max), owed: 0, want: vec![], wire: vec![], window, high_water });
        q.push(cx, 0, Ev::Produce(c));
        q.push(cx, 1, Ev::Writable(c));
    }
    let mut steps = 0;
    while let Some(ev) = q.pop(cx) {
        steps += 1;
        ensure!(steps < 100_000, "no-progress", "the output never drains");
        match ev {
            Ev::Produce(c) => {
                let s = &mut conns[c];
                if s.next >= s.items.len() {
                    continue;
                }
                if s.owed > s.high_water {
                    cx.fault("back_pressure");
                    let at = cx.now + 20 + cx.ch.below(50);
                    q.push(cx, at, Ev::Produce(c));
                    continue;
                }
                let it = &s.items[s.next];
                s.next += 1;
                cx.cov.lib_calls += 2;
                // the same item into a fresh buffer
                let mut fresh = BinaryMut::new();
                let rf = emit(it, &mut s.twin, &mut fresh);
                let before = s.out.view();
                let r = match &mut s.out {
                    Out::Bin(b) => emit(it, &mut s.enc, b),
                    Out::Sim(b) => emit(it, &mut s.enc, b),
                };
                let after = s.out.view();
                ensure!(after.starts_with(&before), "sink-damaged", "encoding a {} changed what the sink already held: {} became {}", it.name(), show(&before), show(&after));
                let added = &after[before.len()..];
                cx.ev("emit", &[c as u64, added.len() as u64, before.len() as u64]);
                cx.bytes_ev("emitted", added);
                match (r, rf) {
                    (Ok(n), Ok(f)) => {
                        ensure!(n == added.len(), "count-mismatch", "a {} reported {} bytes and appended {}: {}", it.name(), n, added.len(), show(added));
                        ensure!(f == fresh.chunk().len(), "count-mismatch", "a {} reported {} bytes and appended {} to an empty buffer: {}", it.name(), f, fresh.chunk().len(), show(fresh.chunk()));
                        ensure!(added == fresh.chunk(), "sink-dependent", "a {} is {} in one sink and {} in another", it.name(), show(fresh.chunk()), show(added));
                        if let Some(o) = octets(it) {
                            ensure!(added == o, "token-octets", "a {} is {} on the wire, expected {}", it.name(), show(added), show(&o));
                        }
                        if !before.is_empty() {
                            cx.probe("encoded_behind_unsent_bytes");
                        }
                        s.owed += n;
                        s.want.extend_from_slice(fresh.chunk());
                        cx.message();
                    }
                    (Err(a), Err(b)) => return viol("encode-error", format!("{}: {:?} / {:?}", it.name(), a, b)),
                    (a, b) => return viol("sink-dependent", format!("{}: {:?} in one sink, {:?} in another", it.name(), a, b)),
                }
                let at = cx.now + cx.ch.below(30);
                q.push(cx, at, Ev::Produce(c));
            }
            Ev::Writable(c) => {
                let s = &mut conns[c];
                if s.owed > 0 {
                    // the socket takes what it likes of what the counts promise
                    let k = 1 + cx.ch.below(s.window) as usize + s.owed / 40;
                    let held = s.out.len();
                    ensure!(s.owed <= held, "count-mismatch", "the counts promise {} bytes, the queue holds {}", s.owed, held);
                    let k = if k < s.owed {
                        cx.fault("short_write");
                        k
                    } else {
                        s.owed
                    };
                    let w = s.out.take(k);
                    s.wire.extend_from_slice(&w);
                    s.owed -= k;
                    cx.ev("write", &[c as u64, k as u64]);
                } else {
                    cx.fault("nothing_to_write");
                }
                if s.owed > 0 || s.next < s.items.len() {
                    let stall = cx.ch.chance(1, 20);
                    if stall {
                        cx.fault("stall");
                    }
                    let at = cx.now + 1 + cx.ch.below(20) + if stall { 500 } else { 0 };
                    q.push(cx, at, Ev::Writable(c));
                } else if s.wire.len() < s.want.len() {
                    return viol("stream-gap", format!("{} bytes owed by the counts are gone, {} were encoded", s.wire.len(), s.want.len()));
                }
            }
        }
    }
    for (c, s) in conns.iter().enumerate() {
        ensure!(s.next == s.items.len() && s.owed == 0 && s.out.len() == 0, "not-delivered", "connection {}: {} of {} items, {} bytes left", c, s.next, s.items.len(), s.owed);
        ensure!(s.wire == s.want, "stream-gap", "connection {}: the peer received {} instead of {}", c, show(&s.wire), show(&s.want));
    }
    Ok(())
}
