//! HTTP/1 worlds.
use crate::buf::SimBuf;
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::http1::{self as m, Req, Resp};
use crate::net::{Link, Queue};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use webparse::{Request, Response, Version, WebError};

// ---------------------------------------------------------------- calling the library

pub const BUF_KINDS: u64 = 5;

/// Parses through one of the buffer types and checks what the buffer looks like afterwards.
macro_rules! parse_via {
    ($cx:expr, $obj:expr, $data:expr, $kind:expr) => {{
        $cx.cov.lib_calls += 1;
        let data: &[u8] = $data;
        let (r, left): (Result<usize, WebError>, Option<Vec<u8>>) = match $kind {
            0 => ($obj.parse(data), None),
            1 => {
                let mut b = SimBuf::new(data);
                let r = $obj.parse_buffer(&mut b);
                let left = data[b.pos()..].to_vec();
                (r, Some(left))
            }
            2 => {
                let mut b = Binary::from(data.to_vec());
                let r = $obj.parse_buffer(&mut b);
                (r, Some(b.chunk().to_vec()))
            }
            3 => {
                let mut v = b"GET /stale".to_vec();
                v.extend_from_slice(data);
                let mut b = BinaryMut::from(v);
                b.advance(10);
                let r = $obj.parse_buffer(&mut b);
                (r, Some(b.chunk().to_vec()))
            }
            _ => {
                let mut b = BinaryRef::from(data);
                let r = $obj.parse_buffer(&mut b);
                (r, Some(b.chunk().to_vec()))
            }
        };
        if let (Ok(n), Some(l)) = (&r, &left) {
            if *n > data.len() || l[..] != data[*n..] {
                return viol("consumed-mismatch", format!("parse of {} returned {} but left {} in the buffer", show(data), n, show(l)));
            }
        }
        r
    }};
}

pub fn check_headers<'a>(h: &webparse::HeaderMap, exp: &[(String, Vec<u8>)]) -> Res {
    let got: Vec<(String, Vec<u8>)> = h.iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
    ensure!(got.len() == exp.len(), "header-list", "expected {} fields, got {}: {:?} vs {:?}", exp.len(), got.len(), dbg_h(exp), dbg_h(&got));
    for (g, e) in got.iter().zip(exp) {
        ensure!(m::lower(&g.0) == m::lower(&e.0) && g.1 == e.1, "header-list", "expected {:?}, got {:?}", dbg_h(exp), dbg_h(&got));
    }
    for (n, v) in exp {
        let up = n.to_ascii_uppercase();
        match h.get_option_value(&up) {
            Some(x) if x.as_bytes() == &v[..] => {}
            other => return viol("header-lookup", format!("lookup of {:?} gave {:?}, expected {}", up, other.map(|x| show(x.as_bytes())), show(v))),
        }
    }
    Ok(())
}

pub fn dbg_h(h: &[(String, Vec<u8>)]) -> Vec<String> {
    h.iter().map(|(n, v)| format!("{}: {}", n, show(v))).collect()
}

pub fn ver(http10: bool) -> Version {
    if http10 { Version::Http10 } else { Version::Http11 }
}

pub fn check_req(r: &Request<()>, e: &Req) -> Res {
    ensure!(r.method().as_str() == e.method, "method", "sent {}, got {}", e.method, r.method().as_str());
    ensure!(r.version() == ver(e.http10), "version", "sent http10={}, got {:?}", e.http10, r.version());
    let u = r.url();
    ensure!(u.path == e.path && r.path() == &e.path, "path", "sent {:?}, got {:?} ({})", e.path, u.path, show(&e.wire));
    ensure!(u.query == e.query, "query", "sent {:?}, got {:?} ({})", e.query, u.query, show(&e.wire));
    ensure!(u.domain == e.domain, "authority", "sent {:?}, got {:?} ({})", e.domain, u.domain, show(&e.wire));
    // without an authority, or with a scheme that has no well-known port, there is no port to report
    let none = e.domain.is_none() || e.port.is_none() && u.port.unwrap_or(0) == 0;
    ensure!(u.port == e.port || none, "authority-port", "sent {:?}, got {:?} ({})", e.port, u.port, show(&e.wire));
    ensure!(u.scheme.as_str() == e.scheme, "scheme", "sent {:?}, got {:?}", e.scheme, u.scheme);
    ensure!(u.username == e.user && u.password == e.pass, "userinfo", "sent {:?}:{:?}, got {:?}:{:?}", e.user, e.pass, u.username, u.password);
    check_headers(r.headers(), &e.headers)?;
    // who is asked: the target names it, or else the Host field does
    let host = e.domain.clone().or_else(|| e.headers.iter().rev().find(|(n, _)| n.eq_ignore_ascii_case("host")).map(|(_, v)| String::from_utf8_lossy(v).to_string()));
    ensure!(r.get_host() == host && r.parts().get_host() == host, "host", "{:?} and {:?}, expected {:?}", r.get_host(), r.parts().get_host(), host);
    ensure!(r.is_complete() && !r.is_partial(), "completion-flag", "a fully parsed request reports itself partial");
    Ok(())
}

pub fn check_resp(r: &Response<()>, e: &Resp) -> Res {
    ensure!(r.status().as_u16() == e.status, "status", "sent {}, got {}", e.status, r.status().as_u16());
    ensure!(r.version() == ver(e.http10), "version", "sent http10={}, got {:?}", e.http10, r.version());
    check_headers(r.headers(), &e.headers)?;
    ensure!(!r.is_partial(), "completion-flag", "a fully parsed response reports itself partial");
    Ok(())
}

fn gen_body(cx: &mut Ctx) -> Vec<u8> {
    let n = cx.ch.skew(64) as usize;
    (0..n).map(|_| cx.ch.pick(b"\r\n :GETaHTTP/1.1\x00\xff")).collect()
}

// ---------------------------------------------------------------- generic streaming receiver

enum Ev {
    Data { conn: usize, bytes: Vec<u8> },
    Cut { conn: usize },
    Tick { conn: usize },
}

pub trait Msg {
    fn wire(&self) -> &[u8];
    fn marks(&self) -> &[usize];
    fn body(&self) -> &[u8];
}
impl Msg for Req {
    fn wire(&self) -> &[u8] { &self.wire }
    fn marks(&self) -> &[usize] { &self.marks }
    fn body(&self) -> &[u8] { &self.body }
}
impl Msg for Resp {
    fn wire(&self) -> &[u8] { &self.wire }
    fn marks(&self) -> &[usize] { &self.marks }
    fn body(&self) -> &[u8] { &self.body }
}

pub trait Receiver {
    type M: Msg + Clone;
    fn gen(&self, cx: &mut Ctx) -> Self::M;
    /// A parser object lives per connection; `fresh` replaces it.
    fn fresh(&mut self, conn: usize);
    fn parse(&mut self, cx: &mut Ctx, conn: usize, data: &[u8], kind: u64) -> Res<Result<usize, WebError>>;
    fn check(&self, conn: usize, m: &Self::M) -> Res;
    fn flag_partial(&self, conn: usize) -> bool;
}

struct Conn<M> {
    link: Link,
    sent: Vec<M>,
    next: usize,
    body_left: usize,
    rx: Vec<u8>,
    alive: bool,
    lazy: bool,
}

/// Client(s) stream messages to a receiver over cut, stalled and segmented connections.
pub fn stream_world<R: Receiver>(cx: &mut Ctx, r: &mut R) -> Res {
    let mut q: Queue<Ev> = Queue::new();
    let nconn = 1 + cx.ch.below(3) as usize;
    let reuse = cx.ch.chance(1, 2);
    let kinds = cx.ch.below(BUF_KINDS + 1);
    let cutting = cx.ch.chance(1, 4);
    let mut conns: Vec<Conn<R::M>> = vec![];
    for c in 0..nconn {
        let link = Link::new(cx);
        let lazy = cx.ch.chance(1, 4);
        let n = 1 + cx.ch.below(3) as usize;
        let mut msgs = vec![];
        for _ in 0..n {
            msgs.push(r.gen(cx));
        }
        r.fresh(c);
        conns.push(Conn { link, sent: msgs, next: 0, body_left: 0, rx: vec![], alive: true, lazy });
        transmit(cx, &mut q, &mut conns[c], c, 0, cutting);
    }
    let mut steps = 0;
    while let Some(ev) = q.pop(cx) {
        steps += 1;
        if steps > 5000 {
            break;
        }
        match ev {
            Ev::Data { conn, bytes } => {
                if !conns[conn].alive {
                    continue;
                }
                cx.cov.deliveries += 1;
                cx.ev("rx", &[conn as u64, bytes.len() as u64]);
                cx.bytes_ev("rx-bytes", &bytes);
                conns[conn].rx.extend_from_slice(&bytes);
                if conns[conn].lazy && cx.ch.chance(1, 2) {
                    // a slow receiver: lets data pile up and looks at it later
                    cx.fault("slow_receiver");
                    let at = cx.now + 200;
                    q.push(cx, at, Ev::Tick { conn });
                    continue;
                }
                drain(cx, r, &mut conns[conn], conn, reuse, kinds)?;
            }
            Ev::Tick { conn } => {
                if conns[conn].alive {
                    drain(cx, r, &mut conns[conn], conn, reuse, kinds)?;
                }
            }
            Ev::Cut { conn } => {
                // connection reset: received-but-unparsed bytes vanish; the sender retries what was not taken
                drain(cx, r, &mut conns[conn], conn, reuse, kinds)?;
                cx.fault("connection_cut");
                cx.ev("cut", &[conn as u64, conns[conn].next as u64]);
                let c = &mut conns[conn];
                c.rx.clear();
                c.body_left = 0;
                let from = c.next;
                c.link = Link::new(cx);
                if !reuse {
                    r.fresh(conn);
                }
                transmit(cx, &mut q, c, conn, from, false);
            }
        }
    }
    for (i, c) in conns.iter_mut().enumerate() {
        drain(cx, r, c, i, reuse, kinds)?;
        // progress: once faults stop every message has been delivered
        ensure!(c.next == c.sent.len() && c.rx.is_empty(), "not-delivered", "connection {}: {} of {} messages parsed, {} bytes left: {}", i, c.next, c.sent.len(), c.rx.len(), show(&c.rx));
    }
    Ok(())
}

fn transmit<M: Msg>(cx: &mut Ctx, q: &mut Queue<Ev>, c: &mut Conn<M>, conn: usize, from: usize, cutting: bool) {
    let mut bytes = vec![];
    let mut marks = vec![];
    for m in &c.sent[from..] {
        marks.extend(m.marks().iter().map(|x| x + bytes.len()));
        bytes.extend_from_slice(m.wire());
        bytes.extend_from_slice(m.body());
        marks.push(bytes.len());
    }
    if cutting && !bytes.is_empty() {
        let at = cx.ch.below(bytes.len() as u64) as usize;
        bytes.truncate(at);
    }
    let segs = c.link.segments(cx, &bytes, &marks);
    let mut last = cx.now;
    for (at, s) in segs {
        last = at;
        q.push(cx, at, Ev::Data { conn, bytes: s });
    }
    if cutting {
        q.push(cx, last + 500, Ev::Cut { conn });
    }
}

fn drain<R: Receiver>(cx: &mut Ctx, r: &mut R, c: &mut Conn<R::M>, conn: usize, reuse: bool, kinds: u64) -> Res {
    loop {
        if c.body_left > 0 {
            let n = c.body_left.min(c.rx.len());
            c.rx.drain(..n);
            c.body_left -= n;
            if c.body_left > 0 {
                return Ok(());
            }
        }
        if c.next >= c.sent.len() {
            return Ok(());
        }
        let kind = if kinds == BUF_KINDS { cx.ch.below(BUF_KINDS) } else { kinds };
        let head = c.sent[c.next].wire().to_vec();
        if c.rx.is_empty() && cx.ch.chance(1, 2) {
            return Ok(());
        }
        let res = r.parse(cx, conn, &c.rx, kind)?;
        cx.ev("parse", &[conn as u64, c.rx.len() as u64, res.is_ok() as u64]);
        if c.rx.len() < head.len() {
            match res {
                Err(e) if e.is_partial() => {
                    ensure!(r.flag_partial(conn), "completion-flag", "partial result but the object claims to be complete");
                    cx.probe("partial_reported");
                    return Ok(());
                }
                Err(e) => return viol("error-on-prefix", format!("error {:?} on a proper prefix {} of {}", e, show(&c.rx), show(&head))),
                Ok(n) => return viol("complete-on-prefix", format!("parsed {} bytes from a proper prefix {} of {}", n, show(&c.rx), show(&head))),
            }
        }
        match res {
            Ok(n) => {
                ensure!(n == head.len(), "wrong-length", "head is {} bytes, parser reports {} for {}", head.len(), n, show(&c.rx));
                let m = c.sent[c.next].clone();
                r.check(conn, &m)?;
                cx.message();
                c.rx.drain(..n);
                c.body_left = m.body().len();
                c.next += 1;
                if c.next < c.sent.len() && !c.rx.is_empty() {
                    cx.probe("pipelined_bytes_after_head");
                }
                if !reuse {
                    r.fresh(conn);
                } else {
                    cx.probe("object_reused");
                }
            }
            Err(e) => {
                let class = if e.is_partial() { "partial-on-complete" } else { "error-on-complete" };
                return viol(class, format!("{:?} for a complete head {}", e, show(&head)));
            }
        }
    }
}

struct ReqRecv(Vec<Request<()>>);
impl Receiver for ReqRecv {
    type M = Req;
    fn gen(&self, cx: &mut Ctx) -> Req {
        let mut r = m::gen_req(cx, true, true);
        r.body = gen_body(cx);
        r
    }
    fn fresh(&mut self, conn: usize) {
        while self.0.len() <= conn {
            self.0.push(Request::new());
        }
        self.0[conn] = Request::new();
    }
    fn parse(&mut self, cx: &mut Ctx, conn: usize, data: &[u8], kind: u64) -> Res<Result<usize, WebError>> {
        let o = &mut self.0[conn];
        Ok(parse_via!(cx, o, data, kind))
    }
    fn check(&self, conn: usize, m: &Req) -> Res {
        check_req(&self.0[conn], m)
    }
    fn flag_partial(&self, conn: usize) -> bool {
        self.0[conn].is_partial() && !self.0[conn].is_complete()
    }
}

struct RespRecv(Vec<Response<()>>);
impl Receiver for RespRecv {
    type M = Resp;
    fn gen(&self, cx: &mut Ctx) -> Resp {
        let mut r = m::gen_resp(cx);
        r.body = gen_body(cx);
        r
    }
    fn fresh(&mut self, conn: usize) {
        while self.0.len() <= conn {
            self.0.push(Response::new(()));
        }
        self.0[conn] = Response::new(());
    }
    fn parse(&mut self, cx: &mut Ctx, conn: usize, data: &[u8], kind: u64) -> Res<Result<usize, WebError>> {
        let o = &mut self.0[conn];
        Ok(parse_via!(cx, o, data, kind))
    }
    fn check(&self, conn: usize, m: &Resp) -> Res {
        check_resp(&self.0[conn], m)
    }
    fn flag_partial(&self, conn: usize) -> bool {
        self.0[conn].is_partial()
    }
}

pub fn parse_any_req(cx: &mut Ctx, o: &mut Request<()>, data: &[u8], kind: u64) -> Res<Result<usize, WebError>> {
    Ok(parse_via!(cx, o, data, kind))
}
pub fn parse_any_resp(cx: &mut Ctx, o: &mut Response<()>, data: &[u8], kind: u64) -> Res<Result<usize, WebError>> {
    Ok(parse_via!(cx, o, data, kind))
}

pub fn c01_keepalive(cx: &mut Ctx) -> Res {
    stream_world(cx, &mut ReqRecv(vec![]))
}

pub fn c02_responses(cx: &mut Ctx) -> Res {
    stream_world(cx, &mut RespRecv(vec![]))
}
