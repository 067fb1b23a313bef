//! C16: pooled parser objects against fresh ones, and crowds of connections against each one alone.
use super::h1::{parse_any_req, parse_any_resp, BUF_KINDS};
use super::h2frames::{build, expressible, header_map, lib_parse, lib_take, new_encoder, LibJoin};
use super::h2hpack::{lib_decode, lib_encode, lib_list, table_of};
use super::ws as wsw;
use crate::choice::Choices;
use crate::ctx::{show, viol, Ctx, Res, Violation};
use crate::ensure;
use crate::model::h2::{self, MF};
use crate::model::hpack::{self as hp, Field};
use crate::model::http1 as m1;
use crate::model::ws::RFrame;
use crate::net::{corrupt, Link, Queue};
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::mpsc;
use std::sync::{Arc, RwLock};
use webparse::http2::frame::Kind;
use webparse::http2::encoder::Encoder;
use webparse::http2::{Decoder, HeaderIndex};
use webparse::ws::{DataFrame, OwnedMessage};
use webparse::{HeaderMap, HeaderValue, Helper, Method, Request, Response, Serialize, StatusCode, Url, Version, WebError};

// ---------------------------------------------------------------- what can be observed

fn headers_of(h: &HeaderMap) -> String {
    let mut s = String::new();
    for (n, v) in h.iter() {
        s.push_str(&format!("{}={};", n.name(), show(v.as_bytes())));
        let up = n.name().to_ascii_uppercase();
        match h.get_option_value(&up) {
            Some(x) => s.push_str(&format!("<{}>", show(x.as_bytes()))),
            None => s.push_str("<none>"),
        }
    }
    s.push_str(&format!(" n={} host={:?} cookie={:?} ref={:?} agent={:?} len={} keep={} chunked={} up={:?}", h.len(), h.get_host(), h.get_cookie(), h.get_referer(), h.get_user_agent(), h.get_body_len(), h.is_keep_alive(), h.is_chunked(), h.get_upgrade_protocol()));
    s
}

fn see_req<T: Serialize>(r: &Request<T>) -> String {
    format!(
        "{} {:?} {:?} [{}] partial={} complete={} host={:?} conn={:?} auth={:?} scheme={:?}/{:?} path={:?}",
        r.method().as_str(), r.url(), r.version(), headers_of(r.headers()), r.is_partial(), r.is_complete(), r.get_host(), r.get_connect_url(), r.get_authority(), r.get_scheme(), r.scheme(), r.path()
    )
}

fn see_resp<T: Serialize>(r: &Response<T>) -> String {
    format!("{:?} {} [{}] partial={} len={}", r.version(), r.status().as_u16(), headers_of(r.headers()), r.is_partial(), r.get_body_len())
}

// ---------------------------------------------------------------- pooled objects

/// A request object with some past that did not come from parsing.
fn odd_req(cx: &mut Ctx) -> Request<()> {
    match cx.ch.below(4) {
        0 => Request::new(),
        1 => Request::default(),
        2 => {
            let b = Request::builder()
                .method(cx.ch.pick(&["POST", "CONNECT", "OPTIONS"]))
                .url(cx.ch.pick(&["https://u:p@old.example:99/old?stale=1", "/old", "http://old/"]))
                .version(Version::Http10)
                .header("Host", "stale.example:1")
                .header("Content-Length", "77")
                .header("X-Stale", "yes");
            b.body(()).unwrap_or_else(|_| Request::new())
        }
        _ => {
            let b = Request::builder().method("GET").url("/h2c").header("Transfer-Encoding", "chunked");
            b.upgrade_http2(Default::default()).body(()).unwrap_or_else(|_| Request::new())
        }
    }
}

fn odd_resp(cx: &mut Ctx) -> Response<()> {
    match cx.ch.below(3) {
        0 => Response::new(()),
        1 => Response::default(),
        _ => {
            let b = Response::builder().status(503u16).version(Version::Http10).header("Server", "stale").header("Content-Length", "12").header("Connection", "close");
            b.body(()).unwrap_or_else(|_| Response::new(()))
        }
    }
}

/// What an application does to a request after it has been handled.
fn touch_req(cx: &mut Ctx, o: &mut Request<()>) {
    cx.probe("application_edits");
    match cx.ch.below(10) {
        0 => {
            o.headers_mut().insert("X-Left", "over");
        }
        1 => o.headers_mut().clear(),
        2 => o.set_method(Method::Options),
        3 => o.set_version(Version::Http2),
        4 => o.set_path("/left/over".to_string()),
        5 => {
            if let Ok(u) = Url::try_from("wss://left.over:8/x?y".to_string()) {
                o.set_url(u);
            }
        }
        6 => {
            let mut b = BinaryMut::new();
            let _ = o.encode_header(&mut b);
        }
        7 => {
            *o = o.replace_clone(());
        }
        8 => {
            let old = std::mem::take(o);
            let (n, _) = old.into(());
            *o = n;
        }
        _ => {
            o.extensions_mut().insert(7u32);
            o.headers_mut().insert(":scheme", "https");
            o.headers_mut().system_insert("left".to_string(), "over".to_string());
        }
    }
}

fn touch_resp(cx: &mut Ctx, o: &mut Response<()>) {
    cx.probe("application_edits");
    match cx.ch.below(8) {
        0 => {
            o.headers_mut().insert("X-Left", "over");
        }
        1 => o.headers_mut().clear(),
        2 => *o.status_mut() = StatusCode::NOT_FOUND,
        3 => *o.version_mut() = Version::Http2,
        4 => {
            let mut b = BinaryMut::new();
            let _ = o.encode_header(&mut b);
        }
        5 => {
            *o = o.replace_clone(());
        }
        6 => {
            let old = std::mem::take(o);
            let (n, _) = old.into(());
            *o = n;
        }
        _ => {
            o.extensions_mut().insert(7u32);
            o.replace_body(());
        }
    }
}

/// One message's bytes as they will appear on a connection: legal, damaged or cut short.
fn gen_h1(cx: &mut Ctx, responses: bool) -> (Vec<u8>, Vec<usize>, &'static str) {
    let n = cx.ch.skew(40) as usize;
    let body = vec![b'b'; n];
    let extra: Vec<(String, Vec<u8>)> = match cx.ch.below(4) {
        0 => vec![("Transfer-Encoding".to_string(), b"chunked".to_vec())],
        1 => vec![("Connection".to_string(), b"close".to_vec())],
        _ => vec![("Content-Length".to_string(), n.to_string().into_bytes())],
    };
    let (mut w, marks) = if responses {
        let r = m1::gen_resp_with(cx, &extra);
        (r.wire, r.marks)
    } else {
        let r = m1::gen_req_with(cx, true, true, &extra);
        (r.wire, r.marks)
    };
    match cx.ch.below(5) {
        0 => {
            corrupt(cx, &mut w, b"\r\n :%/?#@\t\0\x7f\x80aZ09=.[]");
            (w, marks, "damaged")
        }
        1 => {
            let i = cx.ch.below(w.len() as u64) as usize;
            w.truncate(i);
            cx.fault("abandoned_midway");
            (w, marks, "cut")
        }
        _ => {
            w.extend_from_slice(&body);
            (w, marks, "whole")
        }
    }
}

enum PEv {
    Open(usize),
    Data(usize, Vec<u8>),
    Close(usize),
}

struct Slot {
    /// index of the pooled object serving this connection
    obj: usize,
    rx: Vec<u8>,
    left: u64,
    done: bool,
    link: Link,
}

/// Connections come and go; each new one is handed an object from the pool, whatever it did before.
pub fn c16_pool(cx: &mut Ctx) -> Res {
    let responses = cx.ch.chance(1, 3);
    let nobj = 1 + cx.ch.below(3) as usize;
    let mut reqs: Vec<Request<()>> = (0..nobj).map(|_| odd_req(cx)).collect();
    let mut resps: Vec<Response<()>> = (0..nobj).map(|_| odd_resp(cx)).collect();
    let mut free: Vec<usize> = (0..nobj).collect();
    let mut q: Queue<PEv> = Queue::new();
    let nconn = 1 + cx.ch.below(3) as usize;
    let kinds = cx.ch.below(BUF_KINDS + 1);
    let mut slots: Vec<Slot> = vec![];
    for c in 0..nconn {
        let link = Link::new(cx);
        let left = 1 + cx.ch.below(5);
        slots.push(Slot { obj: usize::MAX, rx: vec![], left, done: true, link });
        let at = cx.ch.below(40);
        q.push(cx, at, PEv::Open(c));
    }
    let mut steps = 0;
    while let Some(ev) = q.pop(cx) {
        steps += 1;
        ensure!(steps < 20_000, "no-progress", "the pool never empties");
        match ev {
            PEv::Open(c) => {
                if slots[c].left == 0 {
                    continue;
                }
                if free.is_empty() {
                    cx.fault("pool_exhausted");
                    let at = cx.now + 50;
                    q.push(cx, at, PEv::Open(c));
                    continue;
                }
                slots[c].left -= 1;
                let k = cx.ch.below(free.len() as u64) as usize;
                slots[c].obj = free.remove(k);
                slots[c].rx.clear();
                slots[c].done = false;
                let (w, marks, how) = gen_h1(cx, responses);
                cx.ev("open", &[c as u64, slots[c].obj as u64, w.len() as u64]);
                cx.note(|| format!("{} message {}", how, show(&w)));
                let segs = slots[c].link.segments(cx, &w, &marks);
                let mut last = cx.now;
                for (at, s) in segs {
                    last = at;
                    q.push(cx, at, PEv::Data(c, s));
                }
                q.push(cx, last + 1, PEv::Close(c));
            }
            PEv::Data(c, bytes) => {
                cx.cov.deliveries += 1;
                cx.bytes_ev("rx", &bytes);
                let s = &mut slots[c];
                s.rx.extend_from_slice(&bytes);
                if s.done {
                    continue;
                }
                let kind = if kinds == BUF_KINDS { cx.ch.below(BUF_KINDS) } else { kinds };
                let (a, b, va, vb) = if responses {
                    let mut fresh = Response::new(());
                    let a = parse_any_resp(cx, &mut resps[s.obj], &s.rx, kind)?;
                    let b = parse_any_resp(cx, &mut fresh, &s.rx, kind)?;
                    let both = a.is_ok() && b.is_ok();
                    ensure!(resps[s.obj].is_partial() == fresh.is_partial(), "reuse-completion", "after {} the reused response says partial={} ({:?}), a fresh one {} ({:?})", show(&s.rx), resps[s.obj].is_partial(), a, fresh.is_partial(), b);
                    if both {
                        let (va, vb) = (see_resp(&resps[s.obj]), see_resp(&fresh));
                        let (ea, eb) = (resps[s.obj].httpdata().ok(), fresh.httpdata().ok());
                        (a, b, format!("{} {:?}", va, ea.map(|e| show(&e))), format!("{} {:?}", vb, eb.map(|e| show(&e))))
                    } else {
                        (a, b, String::new(), String::new())
                    }
                } else {
                    let mut fresh = Request::new();
                    let a = parse_any_req(cx, &mut reqs[s.obj], &s.rx, kind)?;
                    let b = parse_any_req(cx, &mut fresh, &s.rx, kind)?;
                    let both = a.is_ok() && b.is_ok();
                    let (x, y) = (&reqs[s.obj], &fresh);
                    ensure!(x.is_partial() == y.is_partial() && x.is_complete() == y.is_complete(), "reuse-completion", "after {} the reused request says partial={} ({:?}), a fresh one {} ({:?})", show(&s.rx), x.is_partial(), a, y.is_partial(), b);
                    if both {
                        let (va, vb) = (see_req(&reqs[s.obj]), see_req(&fresh));
                        let (ea, eb) = (reqs[s.obj].http1_data().ok(), fresh.http1_data().ok());
                        (a, b, format!("{} {:?}", va, ea.map(|e| show(&e))), format!("{} {:?}", vb, eb.map(|e| show(&e))))
                    } else {
                        (a, b, String::new(), String::new())
                    }
                };
                cx.ev("parse", &[c as u64, a.is_ok() as u64, s.rx.len() as u64]);
                match (a, b) {
                    (Ok(x), Ok(y)) => {
                        ensure!(x == y, "reuse-length", "a reused object takes {} bytes, a fresh one {}: {}", x, y, show(&s.rx));
                        ensure!(va == vb, "reuse-differs", "after {}\nreused: {}\nfresh:  {}", show(&s.rx), va, vb);
                        cx.message();
                        s.done = true;
                    }
                    (Err(x), Err(y)) => {
                        ensure!(x.is_partial() == y.is_partial(), "reuse-verdict", "a reused object answers {:?}, a fresh one {:?}: {}", x, y, show(&s.rx));
                        if !x.is_partial() {
                            cx.fault("parse_failed");
                            s.done = true;
                        }
                    }
                    (x, y) => return viol("reuse-verdict", format!("a reused object answers {:?}, a fresh one {:?}: {}", x, y, show(&s.rx))),
                }
            }
            PEv::Close(c) => {
                let s = &mut slots[c];
                if !s.done {
                    cx.fault("closed_while_partial");
                }
                cx.ev("close", &[c as u64, s.done as u64]);
                if cx.ch.chance(1, 3) {
                    if responses {
                        touch_resp(cx, &mut resps[s.obj]);
                    } else {
                        touch_req(cx, &mut reqs[s.obj]);
                    }
                }
                free.push(s.obj);
                s.done = true;
                let at = cx.now + cx.ch.below(30);
                q.push(cx, at, PEv::Open(c));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- crowds

#[derive(Clone)]
enum Script {
    Req(Vec<Vec<u8>>),
    Resp(Vec<Vec<u8>>),
    Chunk(Vec<Vec<u8>>),
    Hpack { blocks: Vec<Vec<Field>>, limits: Vec<Option<usize>>, hurt: Vec<bool> },
    H2 { frames: Vec<MF>, hurt: Vec<bool>, max: usize },
    Ws { frames: Vec<RFrame>, hurt: Vec<bool>, masked: bool },
    Build(Vec<(m1::Req, Vec<u8>)>),
}

enum State {
    Req(Request<()>),
    Resp(Response<()>),
    Chunk,
    Hpack { enc: Encoder, dec: Decoder, ei: Arc<RwLock<HeaderIndex>>, di: Arc<RwLock<HeaderIndex>> },
    H2 { enc: Encoder, dec: Decoder, join: LibJoin },
    Ws { open: Vec<DataFrame> },
    Build,
}

/// One connection: a script of deliveries, the library objects that serve it, and all it observed.
struct Actor {
    script: Script,
    pos: usize,
    st: State,
    rx: Vec<u8>,
    dead: bool,
    cx: Ctx,
    log: Vec<String>,
}

fn index() -> Arc<RwLock<HeaderIndex>> {
    Arc::new(RwLock::new(HeaderIndex::new()))
}

impl Actor {
    fn new(script: &Script, seed: u64) -> Actor {
        let st = match script {
            Script::Req(_) => State::Req(Request::new()),
            Script::Resp(_) => State::Resp(Response::new(())),
            Script::Chunk(_) => State::Chunk,
            Script::Hpack { .. } => {
                let (ei, di) = (index(), index());
                State::Hpack { enc: Encoder::new_index(ei.clone(), 1 << 20), dec: Decoder::new_index(di.clone()), ei, di }
            }
            Script::H2 { max, .. } => State::H2 { enc: new_encoder(*max), dec: Decoder::new(), join: LibJoin::default() },
            Script::Ws { .. } => State::Ws { open: vec![] },
            Script::Build(_) => State::Build,
        };
        Actor { script: script.clone(), pos: 0, st, rx: vec![], dead: false, cx: Ctx::new(Choices::random(seed), false), log: vec![] }
    }
    fn len(&self) -> usize {
        match &self.script {
            Script::Req(v) | Script::Resp(v) | Script::Chunk(v) => v.len(),
            Script::Hpack { blocks, .. } => blocks.len(),
            Script::H2 { frames, .. } => frames.len(),
            Script::Ws { frames, .. } => frames.len(),
            Script::Build(v) => v.len(),
        }
    }
    fn step(&mut self) -> Res {
        let i = self.pos;
        self.pos += 1;
        let cx = &mut self.cx;
        match (&self.script, &mut self.st) {
            (Script::Req(v), State::Req(o)) => {
                self.rx.extend_from_slice(&v[i]);
                while !self.rx.is_empty() && !self.dead {
                    let kind = cx.ch.below(BUF_KINDS);
                    match parse_any_req(cx, o, &self.rx, kind)? {
                        Ok(n) => {
                            let len = o.get_body_len().max(0) as usize;
                            self.log.push(format!("{} {} {:?}", n, see_req(o), o.http1_data().map(|d| show(&d)).ok()));
                            let n = (n + len).min(self.rx.len());
                            self.rx.drain(..n);
                        }
                        Err(e) if e.is_partial() => {
                            self.log.push("partial".to_string());
                            break;
                        }
                        Err(e) => {
                            self.log.push(format!("error {:?}", e));
                            self.dead = true;
                        }
                    }
                }
            }
            (Script::Resp(v), State::Resp(o)) => {
                self.rx.extend_from_slice(&v[i]);
                while !self.rx.is_empty() && !self.dead {
                    let kind = cx.ch.below(BUF_KINDS);
                    match parse_any_resp(cx, o, &self.rx, kind)? {
                        Ok(n) => {
                            let len = o.headers().get_body_len().max(0) as usize;
                            self.log.push(format!("{} {} {:?}", n, see_resp(o), o.httpdata().map(|d| show(&d)).ok()));
                            let n = (n + len).min(self.rx.len());
                            self.rx.drain(..n);
                        }
                        Err(e) if e.is_partial() => {
                            self.log.push("partial".to_string());
                            break;
                        }
                        Err(e) => {
                            self.log.push(format!("error {:?}", e));
                            self.dead = true;
                        }
                    }
                }
            }
            (Script::Chunk(v), State::Chunk) => {
                self.rx.extend_from_slice(&v[i]);
                while !self.rx.is_empty() && !self.dead {
                    let mut b = Binary::from(self.rx.clone());
                    match Helper::parse_chunk_data(&mut b) {
                        Ok((a, n)) => {
                            let used = self.rx.len() - b.remaining();
                            self.log.push(format!("chunk {} {} {}", a, n, used));
                            let n = (a + n).max(used).max(1).min(self.rx.len());
                            self.rx.drain(..n);
                            if Helper::skip_new_line(&mut Binary::from(self.rx.clone())).is_ok() {
                                let k = if self.rx.first() == Some(&b'\r') { 2 } else { 1 };
                                self.rx.drain(..k);
                            }
                        }
                        Err(e) if e.is_partial() => {
                            self.log.push("partial".to_string());
                            break;
                        }
                        Err(e) => {
                            self.log.push(format!("error {:?}", e));
                            self.dead = true;
                        }
                    }
                }
            }
            (Script::Hpack { blocks, limits, hurt }, State::Hpack { enc, dec, ei, di }) => {
                if self.dead {
                    return Ok(());
                }
                if let Some(l) = limits[i] {
                    ei.write().unwrap().set_max_table_size(l);
                    di.write().unwrap().set_max_table_size(l);
                }
                let h = lib_list(cx, &blocks[i]);
                let mut b = lib_encode(cx, enc, &h)?;
                if hurt[i] {
                    corrupt(cx, &mut b, &[0xff, 0x80, 0, 0x3f]);
                }
                match lib_decode(cx, dec, &b)? {
                    Ok(l) => self.log.push(format!("{} {} {:?}", show(&b), hp::show_list(&l), table_of(di))),
                    Err(e) => {
                        self.log.push(format!("{} {:?}", show(&b), e));
                        self.dead = true;
                    }
                }
            }
            (Script::H2 { frames, hurt, .. }, State::H2 { enc, dec, join }) => {
                if self.dead {
                    return Ok(());
                }
                let mut b = BinaryMut::new();
                let r = build(cx, &frames[i]).encode(&mut b, enc);
                self.log.push(format!("{:?} {}", r, show(b.chunk())));
                let mut w = b.chunk().to_vec();
                if hurt[i] {
                    corrupt(cx, &mut w, &[0xff, 0x80, 0, 0x3f]);
                }
                self.rx.extend_from_slice(&w);
                while let Some((h, payload, n)) = lib_take(cx, &self.rx)? {
                    self.rx.drain(..n);
                    let unknown = *h.kind() == Kind::Unregistered;
                    let r = join.push(h, payload);
                    let (h, p) = match r {
                        Ok(None) => continue,
                        Ok(Some(x)) => x,
                        Err(e) => {
                            self.log.push(format!("{:?}", e));
                            self.dead = true;
                            break;
                        }
                    };
                    if unknown {
                        continue;
                    }
                    match lib_parse(cx, h, &p, dec, usize::MAX / 2, false)? {
                        Ok((m, _)) => self.log.push(m.show()),
                        Err(e) => {
                            self.log.push(format!("{:?}", e));
                            self.dead = true;
                            break;
                        }
                    }
                }
            }
            (Script::Ws { frames, hurt, masked }, State::Ws { open }) => {
                if self.dead {
                    return Ok(());
                }
                let mut b = BinaryMut::new();
                let n = wsw::emit_frame(cx, &frames[i], &mut b).map_err(|e| Violation { class: "encode-error".into(), detail: format!("{:?}", e) })?;
                let mut w = b.chunk().to_vec();
                if hurt[i] {
                    corrupt(cx, &mut w, &[0x7e, 0x7f, 0xfe, 0, 0x80]);
                }
                self.log.push(format!("{} {}", n, show(&w)));
                self.rx.extend_from_slice(&w);
                loop {
                    let kind = cx.ch.below(5);
                    let how = cx.ch.below(2);
                    match wsw::lib_read(cx, &self.rx, *masked, how, 1 << 20, kind) {
                        Ok((d, n)) => {
                            self.rx.drain(..n);
                            self.log.push(format!("{:?}", d));
                            let fin = d.finished;
                            open.push(d);
                            if fin {
                                let r = OwnedMessage::from_dataframes(std::mem::take(open));
                                self.log.push(format!("{:?}", r));
                            }
                            if n == 0 {
                                break;
                            }
                        }
                        Err(e) => {
                            self.log.push(format!("{:?}", e));
                            self.dead = !wsw::needs_more(&e);
                            break;
                        }
                    }
                }
            }
            (Script::Build(v), State::Build) => {
                let (e, body) = &v[i];
                let mut b = Request::builder().method(e.method.as_str()).url(e.path.as_str()).version(super::h1::ver(e.http10));
                for (n, v) in &e.headers {
                    b = b.header(n.clone(), HeaderValue::from_bytes(v));
                }
                match b.body(body.clone()) {
                    Ok(mut r) => {
                        let seen = format!("{} {:?}", see_req(&r), r.body());
                        self.log.push(format!("{} {:?}", seen, r.http1_data().map(|d| show(&d))));
                    }
                    Err(x) => self.log.push(format!("{:?}", x)),
                }
                let fields: Vec<Field> = e.headers.iter().map(|(n, v)| (n.clone().into_bytes(), v.clone())).collect();
                let mut r = Response::builder().status(100 + (body.len() as u16 * 7) % 900).headers(header_map(cx, &fields)).body(body.clone()).map_err(|e| Violation { class: "builder-error".into(), detail: format!("{:?}", e) })?;
                let seen = format!("{} {:?}", see_resp(&r), r.body());
                self.log.push(format!("{} {:?}", seen, r.httpdata().map(|d| show(&d))));
                let mut c = BinaryMut::new();
                let n = Helper::encode_chunk_data(&mut c, body).map_err(WebError::from);
                self.log.push(format!("{:?} {}", n, show(c.chunk())));
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

fn bytes_script(cx: &mut Ctx, msgs: Vec<(Vec<u8>, Vec<usize>)>) -> Vec<Vec<u8>> {
    let mut link = Link::new(cx);
    let mut w = vec![];
    let mut marks = vec![];
    for (b, m) in msgs {
        marks.extend(m.iter().map(|x| x + w.len()));
        w.extend_from_slice(&b);
        marks.push(w.len());
    }
    let mut v: Vec<Vec<u8>> = link.segments(cx, &w, &marks).into_iter().map(|s| s.1).collect();
    if v.is_empty() {
        v.push(vec![]);
    }
    if v.len() > 60 {
        let rest: Vec<u8> = v.drain(60..).flatten().collect();
        v.push(rest);
    }
    v
}

fn gen_script(cx: &mut Ctx) -> Script {
    let hurtful = cx.ch.chance(1, 4);
    match cx.ch.below(8) {
        k @ (0 | 1 | 7) => {
            let n = 1 + cx.ch.below(3);
            let msgs = (0..n).map(|_| {
                let (w, m, _) = gen_h1(cx, k == 1);
                (w, m)
            }).collect();
            let v = bytes_script(cx, msgs);
            if k == 1 { Script::Resp(v) } else { Script::Req(v) }
        }
        2 => {
            let n = 1 + cx.ch.below(4);
            let mut msgs = vec![];
            for _ in 0..n {
                let d = h2::gen_bytes(cx, 300);
                let mut b = BinaryMut::new();
                let _ = Helper::encode_chunk_data(&mut b, &d);
                let mut w = b.chunk().to_vec();
                if hurtful && cx.ch.chance(1, 3) {
                    corrupt(cx, &mut w, b"\r\n0aF; ");
                }
                msgs.push((w, vec![]));
            }
            Script::Chunk(bytes_script(cx, msgs))
        }
        3 => {
            let pool = hp::gen_list(cx, 8);
            let n = 1 + cx.ch.below(5) as usize;
            let mut blocks = vec![];
            for _ in 0..n {
                let mut l = hp::gen_list(cx, 4);
                for f in &pool {
                    if cx.ch.chance(1, 2) {
                        l.push(f.clone());
                    }
                }
                blocks.push(l);
            }
            let limits = (0..n).map(|_| if cx.ch.chance(1, 4) { Some(cx.ch.skew(4096) as usize) } else { None }).collect();
            let hurt = (0..n).map(|_| hurtful && cx.ch.chance(1, 4)).collect();
            Script::Hpack { blocks, limits, hurt }
        }
        4 => {
            let n = 1 + cx.ch.below(6) as usize;
            let frames = (0..n).map(|_| {
                let mut f = h2::gen_mf(cx, 300);
                expressible(&mut f);
                f
            }).collect();
            let hurt = (0..n).map(|_| hurtful && cx.ch.chance(1, 4)).collect();
            let max = cx.ch.pick(&[16_384usize, 64, 200]);
            Script::H2 { frames, hurt, max }
        }
        5 => {
            let n = 1 + cx.ch.below(6) as usize;
            let masked = cx.ch.chance(1, 2);
            let frames = (0..n).map(|_| {
                let mut f = wsw::gen_frame(cx, masked);
                f.data.truncate(3000);
                f
            }).collect();
            let hurt = (0..n).map(|_| hurtful && cx.ch.chance(1, 4)).collect();
            Script::Ws { frames, hurt, masked }
        }
        _ => {
            let n = 1 + cx.ch.below(3);
            Script::Build((0..n).map(|_| (m1::gen_req(cx, false, false), h2::gen_bytes(cx, 60))).collect())
        }
    }
}

type Back = (Actor, Result<Res, (bool, String, String)>);

/// OS threads that run one step each time they are handed a connection; one runs at a time, so the
/// schedule is the simulator's alone.
struct Crew {
    tx: Vec<mpsc::Sender<Actor>>,
    rx: mpsc::Receiver<Back>,
    joins: Vec<std::thread::JoinHandle<()>>,
}

impl Crew {
    fn new(n: usize) -> Crew {
        let (btx, rx) = mpsc::channel::<Back>();
        let mut tx = vec![];
        let mut joins = vec![];
        for _ in 0..n {
            let (t, r) = mpsc::channel::<Actor>();
            let b = btx.clone();
            tx.push(t);
            joins.push(std::thread::spawn(move || {
                while let Ok(mut a) = r.recv() {
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.step()));
                    let res = res.map_err(|p| {
                        let (l, m) = crate::run::take_panic();
                        (p.downcast_ref::<crate::buf::StepBudget>().is_some(), l, m)
                    });
                    if b.send((a, res)).is_err() {
                        break;
                    }
                }
            }));
        }
        Crew { tx, rx, joins }
    }
    fn step(&self, w: usize, a: Actor) -> Result<Actor, Violation> {
        let _ = self.tx[w].send(a);
        match self.rx.recv() {
            Ok((a, Ok(Ok(())))) => Ok(a),
            Ok((_, Ok(Err(v)))) => Err(v),
            Ok((_, Err((true, _, _)))) => Err(Violation { class: "no-progress".into(), detail: "endless loop".into() }),
            Ok((_, Err((_, l, m)))) => Err(crate::run::panic_violation(&l, &m)),
            Err(_) => Err(Violation { class: "harness".into(), detail: "worker thread lost".into() }),
        }
    }
    fn end(self) {
        drop(self.tx);
        for j in self.joins {
            let _ = j.join();
        }
    }
}

pub fn c16_crowd(cx: &mut Ctx) -> Res {
    let n = 2 + cx.ch.below(5) as usize;
    let mut scripts: Vec<(Script, u64)> = vec![];
    for i in 0..n {
        let s = if i > 0 && cx.ch.chance(1, 6) {
            // the same traffic on two connections
            cx.probe("twin_connections");
            scripts[i - 1].clone()
        } else {
            (gen_script(cx), cx.ch.below(1 << 16))
        };
        scripts.push(s);
    }
    // alone, one after the other
    let mut alone: Vec<Vec<String>> = vec![];
    for (s, seed) in &scripts {
        let mut a = Actor::new(s, *seed);
        while a.pos < a.len() {
            a.step()?;
        }
        cx.cov.lib_calls += a.cx.cov.lib_calls;
        alone.push(a.log);
    }
    // together
    let threads = if cx.ch.chance(1, 4) { 1 + cx.ch.below(3) as usize } else { 0 };
    let crew = if threads > 0 { Some(Crew::new(threads)) } else { None };
    let mut actors: Vec<Option<Actor>> = scripts.iter().map(|(s, seed)| Some(Actor::new(s, *seed))).collect();
    let mut ready: Vec<usize> = (0..n).collect();
    let sticky = cx.ch.below(4);
    let mut last = usize::MAX;
    let mut bad = None;
    while !ready.is_empty() {
        // now and then a connection keeps the processor for a while
        let k = if sticky > 0 && last < ready.len() && cx.ch.chance(sticky, 5) { last } else { cx.ch.below(ready.len() as u64) as usize };
        if k != last {
            cx.fault("switched_connection");
        }
        last = k;
        let i = ready[k];
        let mut a = actors[i].take().expect("present");
        let w = if threads > 0 { cx.ch.below(threads as u64 + 1) as usize } else { 0 };
        cx.ev("step", &[i as u64, a.pos as u64, w as u64]);
        let r = if w > 0 {
            cx.fault("migrated_thread");
            crew.as_ref().unwrap().step(w - 1, a)
        } else {
            a.step().map(|_| a)
        };
        match r {
            Ok(a) => {
                if cx.ch.chance(1, 40) {
                    // reset in the middle; its peers must not notice
                    cx.fault("connection_reset");
                    ready.swap_remove(k);
                    ensure_prefix(&alone[i], &a.log, i)?;
                    continue;
                }
                if a.pos >= a.len() {
                    ready.swap_remove(k);
                }
                actors[i] = Some(a);
            }
            Err(v) => {
                bad = Some(v);
                break;
            }
        }
    }
    if let Some(c) = crew {
        c.end();
    }
    if let Some(v) = bad {
        return Err(v);
    }
    for i in 0..n {
        if let Some(a) = &actors[i] {
            ensure_prefix(&alone[i], &a.log, i)?;
            ensure!(a.log.len() == alone[i].len(), "crowd-differs", "connection {} observed {} things in a crowd and {} alone", i, a.log.len(), alone[i].len());
            for l in &a.log {
                cx.bytes_ev("saw", l.as_bytes());
            }
            cx.message();
        }
    }
    Ok(())
}

fn ensure_prefix(alone: &[String], crowd: &[String], i: usize) -> Res {
    for (k, l) in crowd.iter().enumerate() {
        match alone.get(k) {
            Some(x) if x == l => {}
            other => return viol("crowd-differs", format!("connection {} observation {}\nin a crowd: {}\nalone:      {:?}", i, k, l, other)),
        }
    }
    Ok(())
}
