//! HTTP/2 frame worlds: C09 (round trip), C10 (splitting), C11 (padded and hostile peers).
use super::h2hpack::lib_name;
use crate::alloc;
use crate::buf::{SimBuf, SimSink};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::h2::{self as h2, Joiner, Parts, Raw, Style, MF};
use crate::model::hpack::{self as hp, Bad, Field};
use crate::net::{corrupt, Link, Queue};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt, BtMut};
use std::collections::BTreeMap;
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::{
    Data, Flag, Frame, FrameHeader, GoAway, Headers, Kind, Ping, Priority, PriorityFrame, PushPromise, Reason, Reset, Settings, StreamIdentifier, Truncate, WindowUpdate,
};
use webparse::http2::{Decoder, HeaderIndex, Http2Error};
use webparse::{HeaderMap, HeaderValue, Method, Request, Scheme, StatusCode, WebError};

pub const NO_LIMIT: usize = 1 << 30;

// ------------------------------------------------------------------ library -> model

fn fields_of(h: &HeaderMap) -> Vec<Field> {
    h.iter().map(|(n, v)| (n.as_bytes().to_ascii_lowercase(), v.as_bytes().to_vec())).collect()
}

pub fn settings_of(s: &Settings) -> BTreeMap<u16, u32> {
    let mut m = BTreeMap::new();
    let mut put = |k: u16, v: Option<u32>| {
        if let Some(v) = v {
            m.insert(k, v);
        }
    };
    put(1, s.header_table_size());
    put(2, s.is_push_enabled().map(|b| b as u32));
    put(3, s.max_concurrent_streams());
    put(4, s.initial_window_size());
    put(5, s.max_frame_size());
    put(6, s.max_header_list_size());
    put(8, s.is_extended_connect_protocol_enabled().map(|b| b as u32));
    m
}

/// What a parsed frame says through its accessors. Priority sections are not exposed by HEADERS.
pub fn to_mf<T: Bt>(f: &mut Frame<T>) -> MF {
    match f {
        Frame::Data(d) => MF::Data { sid: d.stream_id().0, data: d.payload().chunk().to_vec(), end: d.is_end_stream() },
        Frame::Headers(h) => {
            let parts = Parts {
                method: h.method().as_ref().map(|m| m.as_str().to_string()),
                scheme: h.scheme().as_ref().map(|m| m.as_str().to_string()),
                authority: h.authority().clone(),
                path: h.path().clone(),
                status: h.status().map(|s| s.as_u16()),
            };
            MF::Headers { sid: h.stream_id().0, parts, fields: fields_of(h.fields()), end: h.is_end_stream(), prio: None }
        }
        Frame::Priority(p) => MF::Priority { sid: p.stream_id().0, prio: h2::Prio { dep: p.dependency_id().0, weight: p.weight(), excl: false } },
        Frame::PushPromise(p) => {
            let mut parts = Parts {
                method: p.method().as_ref().map(|m| m.as_str().to_string()),
                scheme: None,
                authority: p.authority().clone(),
                path: p.path().clone(),
                status: p.status().map(|s| s.as_u16()),
            };
            let fields = fields_of(p.fields());
            let (sid, promised) = (p.stream_id().0, p.promised_id().0);
            // the scheme has no accessor that leaves the frame intact
            parts.scheme = None;
            MF::Push { sid, promised, parts, fields }
        }
        Frame::Settings(s) => MF::Settings { ack: s.is_ack(), vals: settings_of(s) },
        Frame::Ping(p) => MF::Ping { ack: p.is_ack(), data: *p.payload() },
        Frame::GoAway(g) => MF::GoAway { last: g.last_stream_id().0, code: g.reason().into(), debug: g.debug_data().chunk().to_vec() },
        Frame::WindowUpdate(w) => MF::WinUp { sid: w.stream_id().0, inc: w.size_increment() },
        Frame::Reset(r) => MF::Reset { sid: r.stream_id().0, code: r.reason().into() },
    }
}

/// Removes from a model frame what the accessors cannot show.
pub fn visible(f: &MF) -> MF {
    let mut f = f.clone();
    match &mut f {
        MF::Headers { prio, .. } => *prio = None,
        MF::Priority { prio, .. } => prio.excl = false,
        MF::Push { parts, .. } => parts.scheme = None,
        _ => {}
    }
    f
}

// ------------------------------------------------------------------ model -> library

pub fn header_map(cx: &mut Ctx, fields: &[Field]) -> HeaderMap {
    let mut h = HeaderMap::new();
    for (n, v) in fields {
        let name = lib_name(cx, n);
        if cx.ch.chance(1, 4) {
            h.push(name, HeaderValue::from_bytes(v));
        } else {
            h.insert(name, HeaderValue::from_bytes(v));
        }
    }
    h
}

fn scheme(s: &str) -> Scheme {
    match s {
        "http" => Scheme::Http,
        "https" => Scheme::Https,
        "ws" => Scheme::Ws,
        "wss" => Scheme::Wss,
        "ftp" => Scheme::Ftp,
        o => Scheme::Extension(o.to_string()),
    }
}

fn lib_parts(p: &Parts) -> webparse::http2::frame::Headers {
    let mut h = Headers::empty();
    if let Some(m) = &p.method {
        h.set_method(Method::try_from(m.as_str()).expect("registered method"));
    }
    if let Some(s) = &p.scheme {
        h.set_scheme(scheme(s));
    }
    if let Some(s) = &p.authority {
        h.set_authority(s.clone());
    }
    if let Some(s) = &p.path {
        h.set_path(s.clone());
    }
    if let Some(s) = p.status {
        h.set_status(StatusCode::from_u16(s).expect("status"));
    }
    h
}

/// What the library's own constructors can express; the rest of a frame is dropped from the model.
pub fn expressible(f: &mut MF) {
    match f {
        MF::Headers { prio, .. } => *prio = None,
        _ => {}
    }
}

/// Builds the frame with the library's constructors and setters.
pub fn build(cx: &mut Ctx, f: &MF) -> Frame<Binary> {
    let id = StreamIdentifier;
    match f {
        MF::Data { sid, data, end } => {
            let mut fl = if cx.ch.chance(1, 2) { Flag::zero() } else { Flag::default() };
            let late = cx.ch.chance(1, 2);
            if *end && !late {
                if cx.ch.chance(1, 2) {
                    fl.set_end_stream();
                } else {
                    fl = Flag::end_stream();
                }
            }
            let header = FrameHeader::new(Kind::Data, fl, id(*sid));
            let mut d = match cx.ch.below(4) {
                // the payload is made from another type, or replaced
                0 => Data::new(header, data.clone()).map(Binary::from),
                1 => {
                    let mut d = Data::new(header, Binary::from(b"earlier".to_vec()));
                    *d.payload_mut() = Binary::from(data.clone());
                    d
                }
                _ => Data::new(header, Binary::from(data.clone())),
            };
            if late {
                // a flag set by mistake is taken back
                if cx.ch.chance(1, 4) {
                    d.set_end_stream(!*end);
                }
                d.set_end_stream(*end);
            }
            if cx.ch.chance(1, 8) {
                // as a forwarder has it from a padded frame
                d.set_padded();
            }
            Frame::Data(d)
        }
        MF::Headers { sid, parts, fields, end, .. } => {
            let map = header_map(cx, fields);
            let mut h = if cx.ch.chance(1, 2) {
                let mut fl = match cx.ch.below(3) {
                    0 => Flag::zero(),
                    // as a forwarder has them from a received frame
                    1 => Flag::padded() | Flag::end_headers(),
                    _ => Flag::end_headers(),
                };
                if cx.ch.chance(1, 4) {
                    fl.unset_end_headers();
                }
                let mut map = Some(map);
                let now = cx.ch.chance(1, 2);
                let mut h = Headers::new(FrameHeader::new(Kind::Headers, fl, id(*sid)), if now { map.take().unwrap() } else { HeaderMap::new() });
                if let Some(m) = map {
                    *h.fields_mut() = m;
                }
                let mut src = lib_parts(parts);
                std::mem::swap(h.parts_mut(), src.parts_mut());
                h
            } else {
                let (p, _) = lib_parts(parts).into_parts();
                Headers::trailers(id(*sid), p, map)
            };
            if *end {
                if cx.ch.chance(1, 2) {
                    h.set_end_stream();
                } else {
                    h.flags_mut().set_end_stream();
                }
            }
            if cx.ch.chance(1, 2) {
                h.set_end_headers();
            }
            assert!(!h.is_over_size(), "a frame just built claims to be over the size limit");
            Frame::from(h)
        }
        MF::Priority { sid, prio } => {
            let raw = h2::ref_write(cx, f, &mut hp::Encoder::new(4096), Style { pad: false, noise: false, split: false, unknown: false });
            let _ = prio;
            let mut b = Binary::from(raw[0].payload.clone());
            Frame::from(Priority::parse(FrameHeader::new(Kind::Priority, Flag::zero(), id(*sid)), &mut b).expect("legal PRIORITY"))
        }
        MF::Push { sid, promised, parts, fields } => {
            let mut map = header_map(cx, fields);
            if let Some(s) = &parts.scheme {
                map.insert(":scheme", s.clone());
            }
            let fl = match cx.ch.below(3) {
                0 => Flag::zero(),
                1 => Flag::padded(),
                _ => Flag::end_headers(),
            };
            let mut p = PushPromise::new(FrameHeader::new(Kind::PushPromise, fl, id(*sid)), id(*promised), map);
            if cx.ch.chance(1, 3) {
                p.set_end_headers();
            }
            if let Some(m) = &parts.method {
                p.set_method(Method::try_from(m.as_str()).expect("registered method"));
            }
            if let Some(s) = &parts.authority {
                p.set_authority(s.clone());
            }
            if let Some(s) = &parts.path {
                p.set_path(s.clone());
            }
            Frame::from(p)
        }
        MF::Settings { ack: true, .. } => Frame::Settings(Settings::ack()),
        MF::Settings { vals, .. } => {
            let mut s = Settings::default();
            if vals.contains_key(&1) {
                // no setter: only a received value can be passed on
                let raw = h2::ref_write(cx, f, &mut hp::Encoder::new(4096), Style { pad: false, noise: false, split: false, unknown: false });
                let mut b = Binary::from(raw[0].payload.clone());
                s = Settings::parse(FrameHeader::new(Kind::Settings, Flag::zero(), id(0)), &mut b).expect("legal SETTINGS");
            }
            for (k, v) in vals {
                match k {
                    2 => s.set_enable_push(*v != 0),
                    3 => s.set_max_concurrent_streams(Some(*v)),
                    4 => s.set_initial_window_size(Some(*v)),
                    5 => s.set_max_frame_size(Some(*v)),
                    6 => s.set_max_header_list_size(Some(*v)),
                    8 => s.set_enable_connect_protocol(Some(*v)),
                    _ => {}
                }
            }
            Frame::Settings(s)
        }
        MF::Ping { ack, data } => Frame::from(match (ack, cx.ch.chance(1, 2)) {
            (false, _) => Ping::new(*data),
            (true, true) => Ping::pong(*data),
            (true, false) => Ping::new(*data).ret_pong(),
        }),
        MF::GoAway { last, code, debug } => Frame::from(if debug.is_empty() && cx.ch.chance(1, 2) {
            GoAway::new(id(*last), Reason::from(*code))
        } else {
            GoAway::with_debug_data(id(*last), Reason::from(*code), Binary::from(debug.clone()))
        }),
        MF::WinUp { sid, inc } => Frame::from(WindowUpdate::new(id(*sid), *inc)),
        MF::Reset { sid, code } => Frame::from(Reset::new(id(*sid), Reason::from(*code))),
        MF::Unknown => unreachable!(),
    }
}

/// A promise together with the head of the promised response, in one call.
fn build_pair(cx: &mut Ctx, push: &MF, head: &MF) -> Option<Frame<Binary>> {
    let (MF::Push { promised, fields: none, .. }, MF::Headers { sid, parts, fields, end, .. }) = (push, head) else { return None };
    let status = parts.status?;
    if sid != promised || !none.is_empty() || parts.method.is_some() || parts.path.is_some() {
        return None;
    }
    let mut both = push.clone();
    if let MF::Push { fields: f, .. } = &mut both {
        *f = fields.clone();
    }
    match build(cx, &both) {
        Frame::PushPromise(mut p) => {
            p.set_status(StatusCode::from_u16(status).expect("status"));
            if *end {
                if cx.ch.chance(1, 2) {
                    p.set_end_stream();
                } else {
                    p.flags_mut().set_end_stream();
                }
            }
            Some(Frame::PushPromise(p))
        }
        _ => None,
    }
}

/// Encodes through a drawn sink and entry point; the returned count must be what was appended.
pub fn lib_encode_frame(cx: &mut Ctx, f: Frame<Binary>, enc: &mut Encoder) -> Res<Vec<u8>> {
    fn one<B: Bt + BtMut>(f: Frame<Binary>, direct: bool, b: &mut B, e: &mut Encoder) -> Result<usize, WebError> {
        if !direct {
            return f.encode(b, e);
        }
        match f {
            Frame::Data(mut d) => d.encode(e, b),
            Frame::Headers(h) => h.encode(e, b),
            Frame::Priority(p) => p.encode(b),
            Frame::PushPromise(p) => p.encode(e, b),
            Frame::Settings(s) => s.encode(b),
            Frame::Ping(p) => p.encode(b),
            Frame::GoAway(g) => g.encode(b),
            Frame::WindowUpdate(w) => w.encode(b),
            Frame::Reset(r) => r.encode(b),
        }
    }
    cx.cov.lib_calls += 1;
    let direct = cx.ch.chance(1, 2);
    let (r, all, kept) = match cx.ch.below(3) {
        0 => {
            let mut b = BinaryMut::new();
            let r = one(f, direct, &mut b, enc);
            (r, b.chunk().to_vec(), 0)
        }
        1 => {
            let mut b = BinaryMut::from(b"\x00\x00earlier".to_vec());
            let r = one(f, direct, &mut b, enc);
            (r, b.chunk().to_vec(), 9)
        }
        _ => {
            let w = 1 + cx.ch.skew(300) as usize;
            let mut b = SimSink::new(b"old", w);
            let r = one(f, direct, &mut b, enc);
            (r, b.written().to_vec(), 3)
        }
    };
    let n = match r {
        Ok(n) => n,
        Err(e) => return viol("encode-error", format!("{:?}", e)),
    };
    ensure!(all.len() >= kept && (kept == 0 || all[..kept] == *if kept == 9 { &b"\x00\x00earlier"[..] } else { &b"old"[..] }), "sink-damaged", "{}", show(&all));
    ensure!(n == all.len() - kept, "count-mismatch", "encode reported {} octets and appended {}: {}", n, all.len() - kept, show(&all[kept..]));
    Ok(all[kept..].to_vec())
}

// ------------------------------------------------------------------ receiving

/// Reads a frame header and, once all of it is there, the frame's payload.
pub fn lib_take(cx: &mut Ctx, buf: &[u8]) -> Res<Option<(FrameHeader, Vec<u8>, usize)>> {
    cx.cov.lib_calls += 1;
    macro_rules! go {
        ($b:expr) => {{
            let mut b = $b;
            let r = FrameHeader::parse(&mut b);
            (r, b.remaining())
        }};
    }
    let (r, left) = match cx.ch.below(5) {
        0 => go!(Binary::from(buf.to_vec())),
        1 => go!(SimBuf::new(buf)),
        2 => go!(BinaryRef::from(buf)),
        3 => {
            let mut v = b"gone".to_vec();
            v.extend_from_slice(buf);
            let mut b = BinaryMut::from(v);
            b.advance(4);
            go!(b)
        }
        _ => go!(buf),
    };
    match r {
        Err(WebError::Http2(Http2Error::Short)) => {
            ensure!(buf.len() < 9, "short-with-header", "short reported with {} octets there", buf.len());
            ensure!(left == buf.len(), "short-consumed", "an incomplete header lost {} octets", buf.len() - left);
            Ok(None)
        }
        Err(e) => viol("header-error", format!("{:?} for frame header {}", e, show(&buf[..buf.len().min(9)]))),
        Ok(h) => {
            ensure!(buf.len() >= 9, "header-from-nothing", "a header was read from {} octets", buf.len());
            ensure!(left == buf.len() - 9, "header-size", "a header consumed {} octets", buf.len() - left);
            let declared = u32::from_be_bytes([0, buf[0], buf[1], buf[2]]);
            ensure!(h.length == declared, "header-length", "length {} of {}", h.length, show(&buf[..9]));
            let sid = u32::from_be_bytes([buf[5], buf[6], buf[7], buf[8]]) & 0x7fff_ffff;
            ensure!(h.stream_id().0 == sid, "header-stream", "stream {} of {}", h.stream_id().0, show(&buf[..9]));
            let k = *h.kind();
            ensure!((buf[3] <= 9 && k.encode() == buf[3]) || (buf[3] > 9 && k == Kind::Unregistered), "header-kind", "kind {:?} of {}", k, show(&buf[..9]));
            let n = 9 + h.length as usize;
            if buf.len() < n {
                return Ok(None);
            }
            Ok(Some((h, buf[9..n].to_vec(), n)))
        }
    }
}

/// Parses a complete frame through a drawn payload type.
pub fn lib_parse(cx: &mut Ctx, h: FrameHeader, payload: &[u8], dec: &mut Decoder, limit: usize, want_frame: bool) -> Res<Result<(MF, Option<Frame<Binary>>), WebError>> {
    cx.cov.lib_calls += 1;
    fn go<T: Truncate>(h: FrameHeader, b: T, dec: &mut Decoder, limit: usize) -> Result<MF, WebError> {
        let mut f = Frame::parse(h, b, dec, limit)?;
        Ok(to_mf(&mut f))
    }
    let kind = if want_frame { 0 } else { cx.ch.below(6) };
    let r = match kind {
        0 => {
            let r = Frame::parse(h, Binary::from(payload.to_vec()), dec, limit);
            match r {
                Err(e) => Err(e),
                Ok(mut f) => {
                    let m = to_mf(&mut f);
                    let sid = match &m {
                        MF::Data { sid, .. } | MF::Headers { sid, .. } | MF::Priority { sid, .. } | MF::Reset { sid, .. } | MF::Push { sid, .. } | MF::WinUp { sid, .. } => *sid,
                        _ => 0,
                    };
                    ensure!(f.stream_id().0 == sid, "frame-stream-id", "{} says stream {}", m.show(), f.stream_id().0);
                    let end = matches!(&m, MF::Data { end: true, .. } | MF::Headers { end: true, .. });
                    ensure!(f.is_end_stream() == end, "frame-end-stream", "{} says end of stream {}", m.show(), f.is_end_stream());
                    ensure!(f.is_header() == (m.kind() == h2::HEADERS) && f.is_data() == (m.kind() == h2::DATA), "frame-kind", "{}", m.show());
                    let ack = matches!(&m, MF::Settings { ack: true, .. } | MF::Ping { ack: true, .. });
                    // bit 0 means nothing on a PUSH_PROMISE
                    ensure!(f.flags().bits() & !(1 | 4 | 8 | 0x20) == 0, "unknown-flags", "{} has flags {:?}", m.show(), f.flags());
                    ensure!(m.kind() == h2::PUSH || f.flags().is_ack() == (ack || end), "frame-flags", "{} has flags {:?}", m.show(), f.flags());
                    Ok((m, Some(f)))
                }
            }
        }
        1 => go(h, SimBuf::new(payload), dec, limit).map(|m| (m, None)),
        2 => go(h, BinaryRef::from(payload), dec, limit).map(|m| (m, None)),
        3 => {
            let mut v = b"gone".to_vec();
            v.extend_from_slice(payload);
            let mut b = BinaryMut::from(v);
            b.advance(4);
            go(h, b, dec, limit).map(|m| (m, None))
        }
        4 => {
            let mut b = Binary::from(payload.to_vec());
            go(h, &mut b, dec, limit).map(|m| (m, None))
        }
        _ => go(h, payload, dec, limit).map(|m| (m, None)),
    };
    Ok(r)
}

/// Library receiver: joins header blocks the way a caller of this library has to.
#[derive(Default)]
pub struct LibJoin {
    open: Option<(FrameHeader, Vec<u8>)>,
}

impl LibJoin {
    pub fn push(&mut self, h: FrameHeader, payload: Vec<u8>) -> Result<Option<(FrameHeader, Vec<u8>)>, WebError> {
        if let Some((_, b)) = &mut self.open {
            b.extend_from_slice(&payload);
            if h.flag().is_end_headers() {
                let (mut h, b) = self.open.take().unwrap();
                h.flags_mut().set_end_headers();
                h.length = b.len() as u32;
                return Ok(Some((h, b)));
            }
            return Ok(None);
        }
        if matches!(h.kind(), Kind::Headers | Kind::PushPromise) && !h.flag().is_end_headers() {
            let mut b = Binary::from(payload);
            Frame::trim_padding(&h, &mut b)?;
            let mut h = h;
            h.flags_mut().unset_padded();
            self.open = Some((h, b.chunk().to_vec()));
            return Ok(None);
        }
        Ok(Some((h, payload)))
    }
}

/// One receiving end: the library and the reference read the same octets side by side.
pub struct Rx {
    pub buf: Vec<u8>,
    pub lib: LibJoin,
    pub dec: Decoder,
    pub joiner: Joiner,
    pub rdec: hp::Decoder,
    /// header blocks seen on this connection
    pub blocks: u64,
    /// promised requests are put to the library's check
    pub promises: bool,
}

pub enum Step {
    More,
    Frame(MF, Option<Frame<Binary>>),
    Skipped,
}

impl Rx {
    pub fn new() -> Rx {
        Rx { buf: vec![], lib: LibJoin::default(), dec: Decoder::new(), joiner: Joiner::default(), rdec: hp::Decoder::new(4096), blocks: 0, promises: false }
    }

    /// Takes one frame of a legal peer.
    pub fn step(&mut self, cx: &mut Ctx, max: Option<usize>, want_frame: bool) -> Res<Step> {
        loop {
            let raw = Raw::take(&self.buf);
            let lib = lib_take(cx, &self.buf)?;
            let (raw, (h, payload, n)) = match (raw, lib) {
                (None, None) => return Ok(Step::More),
                (Some((r, n)), Some(l)) if n == l.2 => (r, l),
                _ => return viol("frame-boundary", format!("the library and the reference disagree where a frame ends: {}", show(&self.buf))),
            };
            self.buf.drain(..n);
            if let Some(m) = max {
                if let Err(e) = h2::strict(&raw, m) {
                    return viol("illegal-frame-sent", format!("{}: kind {} stream {} {}", e, raw.kind, raw.sid, show(&raw.payload)));
                }
            }
            let unknown = *h.kind() == Kind::Unregistered;
            let (kind, fl) = (raw.kind, raw.flags);
            let joined = match self.joiner.push(raw) {
                Ok(j) => j,
                Err(b) => return viol("block-interrupted", format!("{:?} by kind {} flags {:x}", b, kind, fl)),
            };
            let lj = match self.lib.push(h, payload) {
                Ok(j) => j,
                Err(e) => return viol("legal-rejected", format!("padding: {:?}", e)),
            };
            if unknown {
                cx.probe("unknown_kind_skipped");
                return Ok(Step::Skipped);
            }
            let (raw, (h, payload)) = match (joined, lj) {
                (None, None) => continue,
                (Some(r), Some(l)) => (r, l),
                _ => return viol("block-boundary", "END_HEADERS read differently".to_string()),
            };
            if matches!(raw.kind, h2::HEADERS | h2::PUSH) {
                self.blocks += 1;
            }
            let want = match h2::read(&raw, &mut self.rdec) {
                Ok(m) => m,
                Err(b) => return viol("illegal-frame-sent", format!("an independent reader finds {:?} in kind {} flags {:x} stream {} {}", b, raw.kind, raw.flags, raw.sid, show(&raw.payload))),
            };
            let got = lib_parse(cx, h, &payload, &mut self.dec, NO_LIMIT, want_frame)?;
            let (m, f) = match got {
                Ok(x) => x,
                Err(e) => return viol("legal-rejected", format!("{:?} for {}", e, want.show())),
            };
            ensure!(m == visible(&want), "frame-differs", "the frame is {}\nthe library reads {}", visible(&want).show(), m.show());
            if !want_frame {
                if let Some(f) = f {
                    consume(cx, f, &want, self.promises)?;
                }
                return Ok(Step::Frame(want, None));
            }
            return Ok(Step::Frame(want, f));
        }
    }
}

fn parts_of(p: webparse::http2::frame::Parts) -> Parts {
    Parts {
        method: p.method.as_ref().map(|m| m.as_str().to_string()),
        scheme: p.scheme.as_ref().map(|s| s.as_str().to_string()),
        authority: p.authority.clone(),
        path: p.path.clone(),
        status: p.status.map(|s| s.as_u16()),
    }
}

/// The last receiver takes a frame apart; what comes out is what the frame held.
fn consume(cx: &mut Ctx, f: Frame<Binary>, want: &MF, promises: bool) -> Res {
    match (f, want) {
        (Frame::Data(mut d), MF::Data { data, end, sid, .. }) => {
            ensure!(d.payload_mut().chunk() == &data[..], "data-payload", "payload_mut() of {} gives {}", want.show(), show(d.payload_mut().chunk()));
            if cx.ch.chance(1, 2) {
                let m = d.map(|b| b.chunk().len());
                ensure!(m.stream_id().0 == *sid && m.is_end_stream() == *end && *m.payload() == data.len(), "data-map", "{}", want.show());
            } else {
                let b = d.into_payload();
                ensure!(b.chunk() == &data[..], "data-payload", "into_payload() of {} gives {}", want.show(), show(b.chunk()));
            }
        }
        (Frame::Headers(mut h), MF::Headers { parts, fields, .. }) => {
            let info = matches!(parts.status, Some(100..=199));
            ensure!(h.is_informational() == info, "headers-informational", "{} says {}", want.show(), h.is_informational());
            ensure!(!h.is_over_size(), "headers-over-size", "{}", want.show());
            ensure!(fields_of(h.fields_mut()) == *fields, "headers-fields", "fields_mut() of {}", want.show());
            let (p, f) = h.into_parts();
            ensure!(p.is_informational() == info, "parts-informational", "{}", want.show());
            let p = parts_of(p);
            ensure!(p == *parts && fields_of(&f) == *fields, "headers-parts", "into_parts() of {}: {:?} {:?}", want.show(), p, f.to_string());
        }
        (Frame::PushPromise(p), MF::Push { parts, fields, .. }) => {
            ensure!(!p.is_over_size(), "push-over-size", "{}", want.show());
            if cx.ch.chance(1, 4) {
                let f = p.into_fields();
                ensure!(fields_of(&f) == *fields, "push-fields", "into_fields() of {}: {:?}", want.show(), f.to_string());
                return Ok(());
            }
            let (p, f) = p.into_parts();
            let p = parts_of(p);
            ensure!(p == *parts && fields_of(&f) == *fields, "push-parts", "into_parts() of {}: {:?} {:?}", want.show(), p, f.to_string());
            if promises {
                promised_request(cx, parts, f)?;
            }
        }
        (Frame::Priority(p), MF::Priority { sid, prio }) => {
            let (s, d, w) = p.into();
            ensure!(s.0 == *sid && d.0 == prio.dep && w == prio.weight, "priority-into", "{} gives {} {} {}", want.show(), s.0, d.0, w);
        }
        (Frame::Ping(p), MF::Ping { data, .. }) => {
            ensure!(p.into_payload() == *data, "ping-into", "{}", want.show());
        }
        _ => {}
    }
    Ok(())
}

/// What the check offered for promised requests says (RFC 9113, 8.4): safe, cacheable, without content.
fn promised_request(cx: &mut Ctx, parts: &Parts, mut fields: HeaderMap) -> Res {
    let Some(m) = &parts.method else { return Ok(()) };
    let len = match cx.ch.below(4) {
        0 => Some("0"),
        1 => Some("7"),
        _ => None,
    };
    fields.remove(&"content-length");
    if let Some(l) = len {
        fields.insert("content-length", l);
    }
    let mut r = Request::new();
    r.set_method(Method::try_from(m.as_str()).expect("registered method"));
    *r.headers_mut() = fields;
    let ok = matches!(m.as_str(), "GET" | "HEAD") && len != Some("7");
    let got = PushPromise::validate_request(&r);
    ensure!(got.is_ok() == ok, "promised-request", "a promised {} with content-length {:?} gives {:?}", m, len, got);
    Ok(())
}

pub fn new_encoder(max: usize) -> Encoder {
    Encoder::new_index(std::sync::Arc::new(std::sync::RwLock::new(HeaderIndex::new())), max)
}

// ------------------------------------------------------------------ C09 / C11 padded: chains

struct Hop {
    rx: Rx,
    link: Link,
    enc: Encoder,
    max: usize,
    next: usize,
    /// pieces of the next DATA frame, which an earlier hop had to split
    acc: Vec<u8>,
}

enum Ev {
    Send(u64, usize),
    Arrive(u64, usize, Vec<u8>),
    Cut(u64),
}

struct Chain {
    sent: Vec<MF>,
    hops: Vec<Hop>,
    /// frames expected at hop i since the last cut start at `base`
    base: usize,
    epoch: u64,
    renc: hp::Encoder,
    senc: Encoder,
    smax: usize,
    out: usize,
    /// what comes before this one is sent
    paired: usize,
    judge: bool,
}

fn gen_max(cx: &mut Ctx) -> usize {
    match cx.ch.below(5) {
        0 | 1 => 16_384,
        2 => 6 + cx.ch.below(60) as usize,
        3 => 6 + cx.ch.skew(3000) as usize,
        _ => 65_536,
    }
}

fn fresh_chain(cx: &mut Ctx, c: &mut Chain) {
    c.renc = hp::Encoder::new(4096);
    c.smax = gen_max(cx);
    c.senc = new_encoder(c.smax);
    for h in c.hops.iter_mut() {
        h.rx = Rx::new();
        h.rx.promises = c.judge;
        h.max = gen_max(cx);
        h.enc = new_encoder(h.max);
        h.next = c.base;
        h.acc.clear();
    }
    c.out = c.base;
}

/// `style`: None for a library sender, otherwise a reference peer with these freedoms.
fn chain_world(cx: &mut Ctx, style: Option<Style>) -> Res {
    let nconn = 1 + cx.ch.below(2) as usize;
    let mut q: Queue<(usize, Ev)> = Queue::new();
    let mut chains: Vec<Chain> = vec![];
    let mut api: Vec<bool> = vec![];
    for ci in 0..nconn {
        let n = 1 + cx.ch.below(8) as usize;
        let api_sender = style.is_none() && cx.ch.chance(2, 3);
        let big = cx.ch.chance(1, 12);
        let mut sent: Vec<MF> = (0..n)
            .map(|_| {
                let mut f = h2::gen_mf(cx, if big { 40_000 } else { 300 });
                if api_sender {
                    expressible(&mut f);
                }
                f
            })
            .collect();
        if api_sender && cx.ch.chance(1, 4) {
            let (sid, promised) = (1 + 2 * cx.ch.below(50) as u32, 2 + 2 * cx.ch.below(50) as u32);
            let mut parts = h2::gen_parts(cx, 0);
            if parts.method.is_none() {
                parts.method = Some("GET".into());
            }
            let i = cx.ch.below(n as u64 + 1) as usize;
            let end = cx.ch.chance(1, 2);
            let head = h2::gen_parts(cx, 1);
            let fields = h2::gen_fields(cx, 8);
            sent.insert(i, MF::Push { sid, promised, parts, fields: vec![] });
            sent.insert(i + 1, MF::Headers { sid: promised, parts: head, fields, end, prio: None });
        }
        let n = sent.len();
        let nhops = 1 + cx.ch.below(3) as usize;
        let hops = (0..nhops).map(|_| Hop { rx: Rx::new(), link: Link::new(cx), enc: new_encoder(16_384), max: 16_384, next: 0, acc: vec![] }).collect();
        let mut c = Chain { sent, hops, base: 0, epoch: 0, renc: hp::Encoder::new(4096), senc: new_encoder(16_384), smax: 16_384, out: 0, paired: 0, judge: style.is_some() };
        fresh_chain(cx, &mut c);
        // the sender writes its frames in bursts
        let mut at = 0;
        for i in 0..n {
            if cx.ch.chance(1, 2) {
                at += cx.ch.below(60);
            }
            q.push(cx, at, (ci, Ev::Send(0, i)));
        }
        if cx.ch.chance(1, 5) {
            let t = cx.ch.below(120);
            q.push(cx, t, (ci, Ev::Cut(0)));
        }
        chains.push(c);
        api.push(api_sender);
    }
    while let Some((ci, ev)) = q.pop(cx) {
        match ev {
            Ev::Cut(e) => {
                let c = &mut chains[ci];
                if e != c.epoch || c.hops.last().unwrap().next >= c.sent.len() {
                    continue;
                }
                cx.fault("connection_cut");
                c.base = c.hops.last().unwrap().next;
                c.epoch += 1;
                c.paired = 0;
                fresh_chain(cx, c);
                cx.ev("cut", &[ci as u64, c.base as u64]);
                let mut at = cx.now + 5;
                let (base, n, ep) = (c.base, c.sent.len(), c.epoch);
                for i in base..n {
                    at += cx.ch.below(20);
                    q.push(cx, at, (ci, Ev::Send(ep, i)));
                }
            }
            Ev::Send(ep, i) => {
                let c = &mut chains[ci];
                if ep != c.epoch {
                    continue;
                }
                let f = c.sent[i].clone();
                // the head of a promised response was sent with its promise
                if i < c.paired {
                    continue;
                }
                let mut bytes = vec![];
                let mut marks = vec![];
                if api[ci] {
                    let pair = match c.sent.get(i + 1) {
                        Some(next) if c.smax > 256 || cx.ch.chance(1, 2) => build_pair(cx, &f, next),
                        _ => None,
                    };
                    if pair.is_some() {
                        cx.probe("promise_with_response");
                        c.paired = i + 2;
                    }
                    let lf = match pair {
                        Some(p) => p,
                        None => build(cx, &f),
                    };
                    bytes = lib_encode_frame(cx, lf, &mut c.senc)?;
                } else {
                    let st = style.unwrap_or(Style { pad: false, noise: false, split: false, unknown: false });
                    for r in h2::ref_write(cx, &f, &mut c.renc, st) {
                        marks.push(bytes.len());
                        marks.push(bytes.len() + 9);
                        r.write(&mut bytes);
                    }
                }
                c.out = i + 1;
                cx.ev("send", &[ci as u64, f.kind() as u64, bytes.len() as u64]);
                marks.push(9);
                let segs = c.hops[0].link.segments(cx, &bytes, &marks);
                for (at, s) in segs {
                    q.push(cx, at, (ci, Ev::Arrive(ep, 0, s)));
                }
            }
            Ev::Arrive(ep, hi, s) => {
                let c = &mut chains[ci];
                if ep != c.epoch {
                    continue;
                }
                cx.cov.deliveries += 1;
                cx.ev("rx", &[ci as u64, hi as u64, s.len() as u64]);
                cx.bytes_ev("rx-bytes", &s);
                let last = hi + 1 == c.hops.len();
                let from_lib = hi > 0 || api[ci];
                let wmax = if hi == 0 { c.smax } else { c.hops[hi - 1].max };
                // the smallest frame size any sender so far had to keep to
                let pmin = c.hops[..hi].iter().map(|h| h.max).chain(std::iter::once(if api[ci] { c.smax } else { usize::MAX })).min().unwrap();
                c.hops[hi].rx.buf.extend_from_slice(&s);
                loop {
                    let h = &mut c.hops[hi];
                    let max = if from_lib { Some(wmax) } else { None };
                    match h.rx.step(cx, max.map(|m| m.max(256)), !last)? {
                        Step::More => break,
                        Step::Skipped => {}
                        Step::Frame(m, f) => {
                            ensure!(h.next < c.sent.len(), "extra-frame", "hop {} of chain {} read one frame too many: {}", hi, ci, m.show());
                            let want = &c.sent[h.next];
                            let piece = match (&m, want) {
                                (MF::Data { sid, data, end: false }, MF::Data { sid: wsid, data: all, .. }) if from_lib && sid == wsid && all.len() > pmin && h.acc.len() + data.len() < all.len() => {
                                    h.acc.extend_from_slice(data);
                                    cx.probe("data_split_by_sender");
                                    true
                                }
                                _ => false,
                            };
                            if !piece {
                                let mut whole = m.clone();
                                if let MF::Data { data, .. } = &mut whole {
                                    h.acc.extend_from_slice(data);
                                    *data = std::mem::take(&mut h.acc);
                                }
                                ensure!(whole == *want, "frame-changed", "hop {} of chain {}: sent {}\narrived {}", hi, ci, want.show(), whole.show());
                                h.next += 1;
                                cx.message();
                            }
                            if !last {
                                cx.fault("intermediary_hop");
                                let out = lib_encode_frame(cx, f.expect("a relay asked for the frame"), &mut h.enc)?;
                                let segs = c.hops[hi + 1].link.segments(cx, &out, &[9]);
                                for (at, s) in segs {
                                    q.push(cx, at, (ci, Ev::Arrive(ep, hi + 1, s)));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for (ci, c) in chains.iter().enumerate() {
        for (hi, h) in c.hops.iter().enumerate() {
            ensure!(h.next == c.sent.len() && h.rx.buf.is_empty(), "not-delivered", "chain {} hop {} has {} of {} frames and {} octets left", ci, hi, h.next, c.sent.len(), h.rx.buf.len());
        }
    }
    Ok(())
}

pub fn c09_frames(cx: &mut Ctx) -> Res {
    if cx.ch.chance(1, 16) {
        stream_ids(cx)?;
    }
    chain_world(cx, None)
}

/// The ids of the streams an endpoint opens, as its frames carry them: both
/// ends count by two and never meet.
fn stream_ids(cx: &mut Ctx) -> Res {
    let start = match cx.ch.below(6) {
        0 => 1,
        1 => 2,
        2 => 0xfff0 + cx.ch.below(20) as u32,
        3 => 0xff_fff0 + cx.ch.below(20) as u32,
        4 => 0x7fff_ff00 + cx.ch.below(100) as u32,
        _ => cx.ch.below(0x7fff_0000) as u32 + 1,
    };
    let mut ids = match start {
        1 => StreamIdentifier::client_first(),
        2 => StreamIdentifier::server_first(),
        n => StreamIdentifier::from(n),
    };
    let mut before: Option<StreamIdentifier> = None;
    for i in 0..2 + cx.ch.below(40) as u32 {
        let id = ids.next_id();
        let want = start + 2 * i;
        let mut b = BinaryMut::new();
        let n = match id.encode(&mut b) {
            Ok(n) => n,
            Err(e) => return viol("stream-id", format!("{:?} for {}", e, want)),
        };
        let mut bytes = b.chunk().to_vec();
        ensure!(n == 4 && bytes == want.to_be_bytes(), "stream-id", "stream {} of the ones opened from {} is {:?} on the wire", i, start, bytes);
        ensure!(id.to_string() == want.to_string() && !id.is_zero() && StreamIdentifier::zero().is_zero(), "stream-id", "{} for {}", id, want);
        if let Some(p) = before {
            ensure!(p < id && id > p && p != id && p.cmp(&id).is_lt(), "stream-order", "{} then {}", p, id);
        }
        // the reserved bit of a peer is ignored
        if cx.ch.chance(1, 2) {
            bytes[0] |= 0x80;
        }
        let got = StreamIdentifier::parse(&mut BinaryMut::from(bytes));
        ensure!(got == id, "stream-id", "{} read as {}", id, got);
        before = Some(id);
    }
    cx.probe("stream_ids");
    Ok(())
}

pub fn c11_padded(cx: &mut Ctx) -> Res {
    let mut b = || cx.ch.chance(3, 4);
    let st = Style { pad: b(), noise: b(), split: b(), unknown: b() };
    chain_world(cx, Some(st))
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug)]
enum Part {
    Head(MF),
    Body(MF),
    Push(MF),
}

struct Stream {
    parts: std::collections::VecDeque<Part>,
}

enum Ev10 {
    Send(usize),
    Limit(usize, usize),
    Arrive(usize, Vec<u8>),
}

struct Conn10 {
    enc: Encoder,
    streams: Vec<Stream>,
    link: Link,
    rx: Vec<u8>,
    /// (part, frame size when it was written, octets)
    written: std::collections::VecDeque<(Part, usize, usize)>,
    rdec: hp::Decoder,
    dec: Decoder,
    /// parts waiting, heaviest stream first; None: streams take turns as drawn
    heap: Option<std::collections::BinaryHeap<PriorityFrame>>,
    waiting: std::collections::BTreeMap<u32, (u8, Part)>,
    weights: Vec<u8>,
}

fn big_fields(cx: &mut Ctx, max: u64) -> Vec<Field> {
    let mut f = h2::gen_fields(cx, max);
    if cx.ch.chance(1, 3) {
        let v = h2::gen_bytes(cx, 6000);
        f.push((b"x-large".to_vec(), v));
    }
    f
}

pub fn c10_split(cx: &mut Ctx) -> Res {
    let nconn = 1 + cx.ch.below(2) as usize;
    let mut q: Queue<Ev10> = Queue::new();
    let mut conns: Vec<Conn10> = vec![];
    for ci in 0..nconn {
        let huge = cx.ch.chance(1, 25);
        let max = if huge { cx.ch.pick(&[16_384usize, 16_385, 20_000, 100_000]) } else { limit10(cx) };
        let ns = 1 + cx.ch.below(4);
        let mut streams = vec![];
        for si in 0..ns {
            let sid = 1 + 2 * si as u32 + cx.ch.below(2) as u32 * 1000;
            let mut parts = std::collections::VecDeque::new();
            let nbody = cx.ch.below(4);
            let trailers = cx.ch.chance(1, 4);
            let k = cx.ch.below(2);
            let p = h2::gen_parts(cx, k);
            let fields = big_fields(cx, 14);
            parts.push_back(Part::Head(MF::Headers { sid, parts: p, fields, end: nbody == 0 && !trailers, prio: None }));
            for b in 0..nbody {
                if cx.ch.chance(1, 6) {
                    let p = h2::gen_parts(cx, 0);
                    let fields = big_fields(cx, 8);
                    parts.push_back(Part::Push(MF::Push { sid, promised: 2 + 2 * b as u32 + 100 * si as u32, parts: p, fields }));
                }
                let data = if cx.ch.chance(1, 3) { let n = max * cx.ch.below(4) as usize + cx.ch.pick(&[0usize, 1, max - 1]); fill(cx, n.min(200_000)) } else { h2::gen_bytes(cx, if huge { 120_000 } else { 3000 }) };
                parts.push_back(Part::Body(MF::Data { sid, data, end: b + 1 == nbody && !trailers }));
            }
            if trailers {
                let fields = big_fields(cx, 6);
                parts.push_back(Part::Head(MF::Headers { sid, parts: Parts::default(), fields, end: true, prio: None }));
            }
            let n = parts.len();
            let mut at = cx.ch.below(10);
            for _ in 0..n {
                q.push(cx, at, Ev10::Send(ci));
                at += cx.ch.below(15);
            }
            streams.push(Stream { parts });
        }
        for _ in 0..cx.ch.below(4) {
            let t = cx.ch.below(60);
            let m = if huge { cx.ch.pick(&[16_384usize, 16_777_215, 40_000]) } else { limit10(cx) };
            q.push(cx, t, Ev10::Limit(ci, m));
        }
        let heap = if cx.ch.chance(1, 3) { Some(Default::default()) } else { None };
        let weights = streams.iter().map(|_| cx.ch.pick(&[0u8, 1, 15, 15, 200, 255])).collect();
        conns.push(Conn10 { heap, waiting: Default::default(), weights, enc: new_encoder(max), streams, link: Link::new(cx), rx: vec![], written: Default::default(), rdec: hp::Decoder::new(4096), dec: Decoder::new() });
    }
    while let Some(ev) = q.pop(cx) {
        match ev {
            Ev10::Limit(ci, m) => {
                conns[ci].enc.max_frame_size = m;
                cx.fault("frame_size_change");
                cx.ev("limit", &[ci as u64, m as u64]);
            }
            Ev10::Send(ci) => {
                // any stream that still has something to say may go next
                let c = &mut conns[ci];
                if c.heap.is_some() {
                    for si in 0..c.streams.len() {
                        let part = match c.streams[si].parts.front() {
                            Some(p) => p.clone(),
                            None => continue,
                        };
                        let (Part::Head(mf) | Part::Body(mf) | Part::Push(mf)) = &part;
                        let (MF::Headers { sid, .. } | MF::Data { sid, .. } | MF::Push { sid, .. }) = mf else { continue };
                        if c.waiting.contains_key(sid) {
                            continue;
                        }
                        c.streams[si].parts.pop_front();
                        let mut f = PriorityFrame::new(build(cx, mf), 0);
                        f.set_weight(c.weights[si]);
                        ensure!(f.weight() == c.weights[si], "priority", "weight {} became {}", c.weights[si], f.weight());
                        if let Some(o) = c.heap.as_ref().unwrap().peek() {
                            let want = f.weight().cmp(&o.weight());
                            if !want.is_eq() {
                                ensure!(f.cmp(o) == want && o.cmp(&f) == want.reverse() && f != *o, "priority", "weights {} and {} compare as {:?}", f.weight(), o.weight(), f.cmp(o));
                                ensure!(f.partial_cmp(o) == Some(want), "priority", "weights {} and {} compare as {:?}", f.weight(), o.weight(), f.partial_cmp(o));
                            }
                        }
                        c.waiting.insert(*sid, (c.weights[si], part.clone()));
                        c.heap.as_mut().unwrap().push(f);
                    }
                    cx.cov.lib_calls += 1;
                    let top = c.heap.as_mut().unwrap().pop();
                    let best = c.waiting.values().map(|w| w.0).max();
                    ensure!(top.as_ref().map(|t| t.weight()) == best, "priority", "{:?} was taken, the heaviest waiting is {:?}", top.as_ref().map(|t| t.weight()), best);
                    let Some(f) = top else { continue };
                    let (_, part) = c.waiting.remove(&f.frame.stream_id().0).expect("queued");
                    let bytes = lib_encode_frame(cx, f.frame, &mut c.enc)?;
                    cx.probe("sent_by_weight");
                    cx.ev("part", &[ci as u64, bytes.len() as u64, c.enc.max_frame_size as u64]);
                    c.written.push_back((part, c.enc.max_frame_size, bytes.len()));
                    let marks: Vec<usize> = vec![9, 9 + c.enc.max_frame_size];
                    let segs = c.link.segments(cx, &bytes, &marks);
                    for (at, s) in segs {
                        q.push(cx, at, Ev10::Arrive(ci, s));
                    }
                    continue;
                }
                let live: Vec<usize> = (0..c.streams.len()).filter(|i| !c.streams[*i].parts.is_empty()).collect();
                if live.is_empty() {
                    continue;
                }
                let si = cx.ch.pick(&live);
                let part = c.streams[si].parts.pop_front().unwrap();
                let mf = match &part {
                    Part::Head(m) | Part::Body(m) | Part::Push(m) => m.clone(),
                };
                let lf = build(cx, &mf);
                let bytes = lib_encode_frame(cx, lf, &mut c.enc)?;
                cx.ev("part", &[ci as u64, si as u64, mf.kind() as u64, bytes.len() as u64, c.enc.max_frame_size as u64]);
                c.written.push_back((part, c.enc.max_frame_size, bytes.len()));
                let marks: Vec<usize> = vec![9, 9 + c.enc.max_frame_size];
                let segs = c.link.segments(cx, &bytes, &marks);
                for (at, s) in segs {
                    q.push(cx, at, Ev10::Arrive(ci, s));
                }
            }
            Ev10::Arrive(ci, s) => {
                cx.cov.deliveries += 1;
                let c = &mut conns[ci];
                c.rx.extend_from_slice(&s);
                cx.ev("rx", &[ci as u64, s.len() as u64]);
                while let Some((part, max, n)) = c.written.front().cloned() {
                    if c.rx.len() < n {
                        break;
                    }
                    c.written.pop_front();
                    let wire: Vec<u8> = c.rx.drain(..n).collect();
                    cx.bytes_ev("part-bytes", &wire);
                    check_part(cx, &part, max, &wire, &mut c.rdec, &mut c.dec)?;
                    cx.message();
                }
            }
        }
    }
    for c in &conns {
        ensure!(c.written.is_empty() && c.rx.is_empty(), "not-delivered", "{} parts, {} octets left", c.written.len(), c.rx.len());
        ensure!(c.streams.iter().all(|s| s.parts.is_empty()), "not-sent", "parts were never scheduled");
    }
    Ok(())
}

fn fill(cx: &mut Ctx, n: usize) -> Vec<u8> {
    let a = cx.ch.below(251);
    (0..n as u64).map(|i| (i.wrapping_mul(31) ^ (i >> 8) ^ a) as u8).collect()
}

fn limit10(cx: &mut Ctx) -> usize {
    match cx.ch.below(5) {
        0 => 5 + cx.ch.below(8) as usize,
        1 => 10 + cx.ch.below(50) as usize,
        2 => 50 + cx.ch.below(300) as usize,
        3 => 16_384,
        _ => 5 + cx.ch.skew(2000) as usize,
    }
}

fn check_part(cx: &mut Ctx, part: &Part, max: usize, wire: &[u8], rdec: &mut hp::Decoder, dec: &mut Decoder) -> Res {
    let mut raws = vec![];
    let mut p = 0;
    while p < wire.len() {
        match Raw::take(&wire[p..]) {
            Some((r, n)) => {
                if let Err(e) = h2::strict(&r, max) {
                    return viol("illegal-frame-sent", format!("{} (frame {} of the part, kind {} flags {:x})", e, raws.len(), r.kind, r.flags));
                }
                raws.push(r);
                p += n;
            }
            None => return viol("frame-length", format!("declared lengths do not match what was written: {}", show(&wire[p..]))),
        }
    }
    let n = raws.len();
    if n > 1 {
        cx.probe("split_part");
        if n > 20 {
            cx.probe("split_over_20_frames");
        }
    }
    ensure!(n > 0, "nothing-sent", "a part wrote no frame");
    match part {
        Part::Body(MF::Data { sid, data, end }) => {
            let mut all = vec![];
            for (i, r) in raws.iter().enumerate() {
                ensure!(r.kind == h2::DATA && r.sid == *sid, "body-frame", "frame {} of a body has kind {} stream {}", i, r.kind, r.sid);
                ensure!((r.flags & 1 != 0) == (*end && i + 1 == n), "end-stream", "frame {} of {} has flags {:x}, the part ends the stream: {}", i, n, r.flags, end);
                all.extend_from_slice(&r.payload);
            }
            ensure!(all == *data, "body-changed", "body {} became {}", show(data), show(&all));
        }
        Part::Head(mf) | Part::Push(mf) => {
            let sid = match mf {
                MF::Headers { sid, .. } | MF::Push { sid, .. } => *sid,
                _ => unreachable!(),
            };
            let mut joiner = Joiner::default();
            let mut joined = None;
            for (i, r) in raws.iter().enumerate() {
                ensure!(r.sid == sid, "block-stream", "frame {} of a block is on stream {}", i, r.sid);
                ensure!(if i == 0 { r.kind == mf.kind() } else { r.kind == h2::CONT }, "block-frame", "frame {} of a block has kind {}", i, r.kind);
                ensure!((r.flags & 4 != 0) == (i + 1 == n), "end-headers", "frame {} of {} has flags {:x}", i, n, r.flags);
                joined = joiner.push(r.clone()).map_err(|b| crate::ctx::Violation { class: "block-interrupted".into(), detail: format!("{:?}", b) })?;
            }
            let raw = match joined {
                Some(r) => r,
                None => return viol("block-open", "the block never ends".to_string()),
            };
            // pseudo fields come first
            let block = match raw.kind {
                h2::PUSH => &raw.payload[4..],
                _ => &raw.payload[..],
            };
            let list = match rdec.decode(block) {
                Ok(l) => l,
                Err(b) => return viol("block-illegal", format!("an independent reader finds {:?} in {}", b, show(block))),
            };
            let (parts, fields) = match h2::split_list(list.clone()) {
                Ok(x) => x,
                Err(b) => return viol("block-malformed", format!("{:?} in [{}]", b, hp::show_list(&list))),
            };
            let got = match mf {
                MF::Headers { sid, prio, .. } => MF::Headers { sid: *sid, parts, fields, end: raw.flags & 1 != 0, prio: prio.clone() },
                MF::Push { sid, .. } => MF::Push { sid: *sid, promised: u32::from_be_bytes([raw.payload[0], raw.payload[1], raw.payload[2], raw.payload[3]]), parts, fields },
                _ => unreachable!(),
            };
            ensure!(got == *mf, "message-changed", "sent {}\nreassembled {}", mf.show(), got.show());
        }
        _ => unreachable!(),
    }
    // the library's own receiver reassembles the same
    let mut lj = LibJoin::default();
    let mut p = 0;
    let mut body = vec![];
    let mut ended = false;
    let mut head = None;
    while p < wire.len() {
        let (h, payload, k) = match lib_take(cx, &wire[p..])? {
            Some(x) => x,
            None => return viol("frame-length", "the library finds no whole frame".to_string()),
        };
        p += k;
        match lj.push(h, payload) {
            Err(e) => return viol("legal-rejected", format!("{:?}", e)),
            Ok(None) => {}
            Ok(Some((h, b))) => match lib_parse(cx, h, &b, dec, NO_LIMIT, false)? {
                Err(e) => return viol("legal-rejected", format!("{:?}", e)),
                Ok((MF::Data { data, end, .. }, _)) => {
                    ensure!(!ended, "data-after-end", "a DATA frame follows END_STREAM");
                    body.extend(data);
                    ended = end;
                }
                Ok((m, _)) => head = Some(m),
            },
        }
    }
    match part {
        Part::Body(MF::Data { data, end, .. }) => ensure!(body == *data && ended == *end, "library-reassembly", "body {} became {} end {}", show(data), show(&body), ended),
        Part::Head(m) | Part::Push(m) => ensure!(head.as_ref() == Some(&visible(m)), "library-reassembly", "sent {}\nreassembled {:?}", visible(m).show(), head.map(|h| h.show())),
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------ C11 hostile

fn fabricate(cx: &mut Ctx) -> Raw {
    let kind = if cx.ch.chance(1, 10) { cx.ch.below(256) as u8 } else { cx.ch.below(10) as u8 };
    let flags = match cx.ch.below(3) {
        0 => 0,
        1 => cx.ch.pick(&[1u8, 4, 5, 8, 9, 0x0d, 0x20, 0x2d, 0x24, 0x25, 0x0c]),
        _ => cx.ch.below(256) as u8,
    };
    let sid = match cx.ch.below(4) {
        0 => 0,
        1 => cx.ch.below(1 << 31) as u32,
        _ => 1 + cx.ch.below(7) as u32,
    };
    let near = match kind {
        h2::PRIORITY => 5,
        h2::RST | h2::WINUP | h2::PUSH => 4,
        h2::SETTINGS => 6 * cx.ch.below(4),
        h2::PING | h2::GOAWAY => 8,
        _ => cx.ch.below(30),
    };
    let len = match cx.ch.below(4) {
        0 | 1 => near,
        2 => (near + cx.ch.below(4)).saturating_sub(cx.ch.below(4)),
        _ => cx.ch.below(40),
    };
    let mut payload: Vec<u8> = (0..len).map(|_| if cx.ch.chance(1, 2) { cx.ch.pick(&[0u8, 1, 2, 4, 5, 8, 0x82, 0x84, 0xff, 0x40]) } else { cx.ch.below(256) as u8 }).collect();
    if kind == h2::SETTINGS && cx.ch.chance(2, 3) {
        for c in payload.chunks_mut(6) {
            if c.len() == 6 {
                let id = cx.ch.below(10) as u16;
                let v: u32 = cx.ch.pick(&[0u32, 1, 2, 16_383, 16_384, 16_777_215, 16_777_216, 0x7fff_ffff, 0x8000_0000, u32::MAX]);
                c[..2].copy_from_slice(&id.to_be_bytes());
                c[2..].copy_from_slice(&v.to_be_bytes());
            }
        }
    }
    if flags & 8 != 0 && !payload.is_empty() && cx.ch.chance(1, 2) {
        let n = payload.len() as i64;
        payload[0] = (n - 2 + cx.ch.below(4) as i64).clamp(0, 255) as u8;
    }
    // stream ids inside the payload that make no sense: a promise of stream 0, a stream that depends on itself
    if kind == h2::PUSH && payload.len() >= 4 && cx.ch.chance(1, 3) {
        let r = if cx.ch.chance(1, 4) { 0x80 } else { 0 };
        let block = cx.ch.pick(&[&b""[..], b"\x82\x84\x86", b"\x82\x84\x86\x41\x01a", b"\x88"]);
        payload = [&[r, 0, 0, 0][..], block].concat();
        let sid = if cx.ch.chance(1, 6) { 0 } else { 1 + cx.ch.below(7) as u32 };
        cx.probe("promise_of_stream_0");
        return Raw { kind, flags: 4, r: cx.ch.chance(1, 8), sid, payload };
    }
    if kind == h2::PRIORITY && payload.len() == 5 && cx.ch.chance(1, 2) {
        let top = if cx.ch.chance(1, 2) { 1 << 31 } else { 0 };
        payload[..4].copy_from_slice(&(sid | top).to_be_bytes());
        cx.probe("self_dependency");
    }
    Raw { kind, flags, r: cx.ch.chance(1, 8), sid, payload }
}

/// How large a header list is by the RFC 9113 measure.
fn list_size(l: &[Field]) -> usize {
    l.iter().map(|(n, v)| n.len() + v.len() + 32).sum()
}

pub fn c11_hostile(cx: &mut Ctx) -> Res {
    let mut renc = hp::Encoder::new(4096);
    let n = 1 + cx.ch.below(7);
    let mut wire = vec![];
    let mut marks = vec![];
    let tiny = cx.ch.chance(1, 4);
    for _ in 0..n {
        let mut raws = match cx.ch.below(6) {
            5 => {
                // a whole, well-framed block whose fields make no message
                let mut f = h2::gen_mf(cx, 60);
                if let MF::Headers { fields, .. } | MF::Push { fields, .. } = &mut f {
                    let k = 1 + cx.ch.below(2);
                    for _ in 0..k {
                        let (n, v): (&[u8], &[u8]) = cx.ch.pick(&[
                            (&b":status"[..], &b"abc"[..]), (b":status", b"99"), (b":status", b"1000"), (b":method", b"FETCH"), (b":method", b"get"), (b":scheme", b""), (b":path", b"/\xff\xfe"),
                            (b":foo", b"x"), (b"X-Upper", b"v"), (b":authority", b"b.c"), (b":path", b"/2"), (b":method", b"PUT"),
                        ]);
                        let at = cx.ch.below(fields.len() as u64 + 1) as usize;
                        fields.insert(at, (n.to_vec(), v.to_vec()));
                    }
                    cx.fault("message_malformed");
                }
                let st = Style { pad: cx.ch.chance(1, 4), noise: cx.ch.chance(1, 4), split: cx.ch.chance(1, 4), unknown: false };
                h2::ref_write(cx, &f, &mut renc, st)
            }
            0 | 1 => {
                let f = h2::gen_mf(cx, 60);
                let mut b = || cx.ch.chance(1, 2);
                let st = Style { pad: b(), noise: b(), split: b(), unknown: b() };
                h2::ref_write(cx, &f, &mut renc, st)
            }
            2 => {
                let f = h2::gen_mf(cx, 60);
                let st = Style { pad: true, noise: cx.ch.chance(1, 2), split: cx.ch.chance(1, 3), unknown: false };
                let mut v = h2::ref_write(cx, &f, &mut renc, st);
                // damage inside a frame whose boundaries stay right
                let i = cx.ch.below(v.len() as u64) as usize;
                damage_frame(cx, &mut v[i]);
                v
            }
            _ => {
                cx.fault("frame_fabricated");
                vec![fabricate(cx)]
            }
        };
        if cx.ch.chance(1, 12) && raws.len() > 1 {
            let i = cx.ch.below(raws.len() as u64) as usize;
            raws.remove(i);
            cx.fault("frame_lost");
        }
        for r in raws {
            marks.push(wire.len());
            marks.push(wire.len() + 9);
            r.write(&mut wire);
        }
    }
    if cx.ch.chance(1, 5) {
        corrupt(cx, &mut wire, &[0, 1, 4, 5, 8, 0xff, 0x80]);
    }
    if cx.ch.chance(1, 6) && !wire.is_empty() {
        let at = cx.ch.below(wire.len() as u64) as usize;
        wire.truncate(at);
        cx.fault("stream_truncated");
    }
    let mut link = Link::new(cx);
    let mut q: Queue<Vec<u8>> = Queue::new();
    for (at, s) in link.segments(cx, &wire, &marks) {
        q.push(cx, at, s);
    }
    let mut rx = Rx::new();
    let limit_tiny = 32 + cx.ch.below(200) as usize;
    while let Some(s) = q.pop(cx) {
        cx.cov.deliveries += 1;
        cx.ev("rx", &[s.len() as u64]);
        cx.bytes_ev("rx-bytes", &s);
        rx.buf.extend_from_slice(&s);
        loop {
            let raw = Raw::take(&rx.buf);
            let base = alloc::start();
            let lib = lib_take(cx, &rx.buf)?;
            let peak = alloc::peak_since(base);
            ensure!(peak <= 8 * rx.buf.len() as i64 + 200_000, "allocation", "{} octets allocated while {} are there", peak, rx.buf.len());
            let (raw, (h, payload, n)) = match (raw, lib) {
                (None, None) => break,
                (Some((r, n)), Some(l)) if n == l.2 => (r, l),
                _ => return viol("frame-boundary", format!("the library and the reference disagree where a frame ends: {}", show(&rx.buf))),
            };
            rx.buf.drain(..n);
            if *h.kind() == Kind::Unregistered || raw.kind == h2::CONT {
                // on their own these are no frames: an error, and nothing worse
                let mut d = Decoder::new();
                let r = lib_parse(cx, h, &payload, &mut d, NO_LIMIT, false)?;
                ensure!(r.is_err(), "accepted-malformed", "kind {} alone was read as a frame", raw.kind);
            }
            let joined = match rx.joiner.push(raw) {
                Ok(j) => j,
                Err(b) => {
                    // an interrupted block is noticed by whoever joins it
                    if let Err(_) = rx.lib.push(h, payload) {
                        cx.probe("padding_error_in_open_block");
                    } else if let Bad::Must(w) = b {
                        if w.starts_with("padd") {
                            return viol("accepted-malformed", format!("{} in an open block", w));
                        }
                    }
                    cx.probe("connection_ended_by_joiner");
                    return Ok(());
                }
            };
            let unknown = *h.kind() == Kind::Unregistered;
            let lj = match rx.lib.push(h, payload) {
                Ok(j) => j,
                Err(e) => return viol("legal-rejected", format!("padding: {:?}", e)),
            };
            if unknown {
                cx.probe("unknown_kind_skipped");
                continue;
            }
            let (raw, (h, payload)) = match (joined, lj) {
                (None, None) => continue,
                (Some(r), Some(l)) => (r, l),
                _ => return viol("block-boundary", "END_HEADERS read differently".to_string()),
            };
            let block = matches!(raw.kind, h2::HEADERS | h2::PUSH);
            let before = rx.rdec.table.clone();
            let want = h2::read(&raw, &mut rx.rdec);
            let limit = if tiny { limit_tiny } else { NO_LIMIT };
            let whole = cx.ch.chance(1, 4);
            let base = alloc::start();
            let got = lib_parse(cx, h, &payload, &mut rx.dec, limit, whole)?;
            let peak = alloc::peak_since(base);
            let bound = if block { 400_000 + 400 * payload.len() as i64 * 40 } else { 20 * payload.len() as i64 + 200_000 };
            ensure!(peak <= bound, "allocation", "{} octets allocated for a {}-octet payload of kind {}", peak, payload.len(), raw.kind);
            let code = match &want {
                Ok(m) => m.kind() as u64,
                Err(Bad::Must(w)) => 100 + w.len() as u64,
                Err(Bad::May(w)) => 200 + w.len() as u64,
            };
            cx.ev("verdict", &[code, raw.kind as u64, raw.flags as u64, raw.payload.len() as u64]);
            match (&want, &got) {
                (Ok(m), Ok((g, _))) => {
                    if tiny && block {
                        let l = match m {
                            MF::Headers { .. } | MF::Push { .. } => reread(&raw, before),
                            _ => None,
                        };
                        if let Some(l) = l {
                            if list_size(&l) > limit {
                                return viol("list-limit", format!("a header list of {} octets passed the limit {}", list_size(&l), limit));
                            }
                        }
                    }
                    ensure!(*g == visible(m), "frame-differs", "the frame is {}\nthe library reads {}", visible(m).show(), g.show());
                    cx.message();
                }
                (Ok(m), Err(e)) => {
                    let over = tiny && block && reread(&raw, before).map_or(false, |l| list_size(&l) > limit);
                    ensure!(over, "legal-rejected", "{:?} for {}", e, m.show());
                    cx.probe("header_list_over_limit");
                    // the stream is refused, the connection's header tables stay in step
                }
                (Err(Bad::Must(w)), Ok((g, _))) => return viol("accepted-malformed", format!("{}: kind {} flags {:x} stream {} {} read as {}", w, raw.kind, raw.flags, raw.sid, show(&raw.payload), g.show())),
                (Err(Bad::Must(w)), Err(_)) => {
                    cx.probe(w);
                    if block {
                        return Ok(());
                    }
                }
                (Err(Bad::May(w)), r) => {
                    cx.probe(w);
                    let text = || reread(&raw, before).map_or(false, |l| l.iter().all(|f| std::str::from_utf8(&f.0).is_ok()));
                    if block && !(h2::is_meaning(w) && text()) {
                        return Ok(());
                    }
                    if block && r.is_err() {
                        cx.probe("stream_refused_connection_goes_on");
                    }
                }
            }
            if block {
                let want: Vec<Field> = rx.rdec.table.entries.iter().cloned().collect();
                super::h2hpack::check_table("decoder", &rx.dec.index, &want, rx.rdec.table.max)?;
            }
        }
    }
    Ok(())
}

/// The header list of a block, decoded from the table as it was before it.
fn reread(raw: &Raw, table: hp::Table) -> Option<Vec<Field>> {
    let mut d = hp::Decoder::new(4096);
    d.table = table;
    let mut p = raw.payload.clone();
    if raw.flags & 8 != 0 {
        let n = *p.first()? as usize;
        let l = p.len();
        if n >= l {
            return None;
        }
        p = p[1..l - n].to_vec();
    }
    let skip = match raw.kind {
        h2::PUSH => 4,
        _ if raw.flags & 0x20 != 0 => 5,
        _ => 0,
    };
    d.decode(p.get(skip..)?).ok()
}

fn damage_frame(cx: &mut Ctx, r: &mut Raw) {
    match cx.ch.below(6) {
        0 => {
            r.flags ^= 1 << cx.ch.below(8);
            cx.fault("flag_flipped");
        }
        1 => {
            r.sid = if r.sid == 0 { 1 } else { 0 };
            cx.fault("stream_id_damaged");
        }
        2 => {
            let l = r.payload.len() as u64;
            let n = cx.ch.below(l + 1) as usize;
            r.payload.truncate(n);
            cx.fault("payload_shortened");
        }
        3 => {
            let n = 1 + cx.ch.below(4);
            for _ in 0..n {
                r.payload.push(cx.ch.below(256) as u8);
            }
            cx.fault("payload_extended");
        }
        4 => {
            if let Some(b) = r.payload.first_mut() {
                *b = cx.ch.below(256) as u8;
            }
            cx.fault("first_octet_damaged");
        }
        _ => {
            let mut p = std::mem::take(&mut r.payload);
            corrupt(cx, &mut p, &[0, 1, 0xff, 0x80, 0x82]);
            r.payload = p;
        }
    }
}
