//! C22: messages that cross between HTTP/2 and HTTP/1 through chains of gateways.
use super::built::take_body;
use super::h1::{dbg_h, parse_any_req, parse_any_resp};
use super::h2frames::{lib_encode_frame, lib_parse, lib_take, new_encoder, LibJoin, Rx, Step, NO_LIMIT};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::h2::{self, Style, MF};
use crate::model::hpack as hp;
use crate::model::http1::{self as m, Read};
use crate::net::{Link, Queue};
use algorithm::buf::Binary;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::{Data, Flag, Frame, FrameHeader, Headers, Kind, Parts, StreamIdentifier};
use webparse::{HeaderMap, Helper, Method, Request, Response, Scheme, StatusCode, Url, Version};

const SPECIAL: [&str; 12] =
    ["host", "content-length", "transfer-encoding", "connection", "upgrade", "te", "keep-alive", "proxy-connection", "http2-settings", "x-id", "trailer", "cookie"];
/// What a gateway or builder adds of its own accord.
const ADDED: [&str; 5] = ["host", "content-length", "transfer-encoding", "user-agent", "server"];
const BODYLESS: [u16; 2] = [204, 304];

/// A request as its sender means it, and the response its origin gives.
#[derive(Clone, Debug)]
struct M {
    id: u64,
    method: String,
    scheme: &'static str,
    domain: String,
    port: Option<u16>,
    path: String,
    query: Option<String>,
    target: Vec<u8>,
    fields: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
    status: u16,
    rfields: Vec<(String, Vec<u8>)>,
    rbody: Vec<u8>,
    /// what an HTTP/2 client sends instead of an expressible message
    evil: Option<(h2::Parts, Vec<hp::Field>)>,
    /// the client gives up midway
    reset: bool,
    /// Cookie split into several fields, as HTTP/2 allows
    crumbs: Vec<Vec<u8>>,
    /// the HTTP/2 client also sends a Host field
    host: bool,
    /// interim responses before the final one
    interim: Vec<(u16, Vec<(String, Vec<u8>)>)>,
    /// fields after the bodies; HTTP/1 hops drop them
    trailers: Vec<(String, Vec<u8>)>,
    rtrailers: Vec<(String, Vec<u8>)>,
}

type Key = u64;
type Fields = Vec<(String, Vec<u8>)>;

/// One end of a connection.
struct Side {
    h2: bool,
    lenient: bool,
    dead: bool,
    // incoming
    buf: Vec<u8>,
    rx: Rx,
    join: LibJoin,
    open: BTreeMap<u32, Half>,
    /// HTTP/1: the head whose body has not all arrived
    head: Option<Half>,
    /// HTTP/1: keys of requests in the order they were taken or given
    order: VecDeque<Key>,
    // outgoing
    enc: Encoder,
    renc: hp::Encoder,
    by_lib: bool,
    max: usize,
    out: Vec<(u32, VecDeque<Item>)>,
    pumping: bool,
    link: Link,
    next_sid: u32,
    ids: StreamIdentifier,
    sid_of: BTreeMap<Key, u32>,
    key_of: BTreeMap<u32, Key>,
    /// HTTP/1 responses wait for their turn; true when the final one is there
    ready: BTreeMap<Key, (Vec<u8>, bool)>,
}

enum Half {
    Req(Request<()>, Vec<u8>, Fields),
    Resp(Response<()>, Vec<u8>, Fields),
    Dropped,
}

enum Item {
    Lib(Frame<Binary>),
    Ref(MF),
    Raw(Vec<u8>),
}

enum Ev {
    /// octets arrive at a node from its upstream (true) or downstream neighbour
    Arrive(usize, bool, Vec<u8>),
    Pump(usize, bool),
    Send(usize),
}

impl Side {
    fn new(cx: &mut Ctx, h2: bool) -> Side {
        let max = cx.ch.pick(&[16_384usize, 16_384, 100, 17]);
        Side {
            h2,
            lenient: false,
            dead: false,
            buf: vec![],
            rx: Rx::new(),
            join: LibJoin::default(),
            open: BTreeMap::new(),
            head: None,
            order: VecDeque::new(),
            enc: new_encoder(max),
            renc: hp::Encoder::new(4096),
            by_lib: cx.ch.chance(1, 2),
            max,
            out: vec![],
            pumping: false,
            link: Link::new(cx),
            next_sid: 1,
            ids: StreamIdentifier::client_first(),
            sid_of: BTreeMap::new(),
            key_of: BTreeMap::new(),
            ready: BTreeMap::new(),
        }
    }

    /// What is sent on one stream stays in order; HTTP/1 is one stream.
    fn send(&mut self, sid: u32, items: VecDeque<Item>) {
        match self.out.iter_mut().find(|q| q.0 == sid) {
            Some(q) => q.1.extend(items),
            None => self.out.push((sid, items)),
        }
    }
}

fn gen_fields(cx: &mut Ctx, max: u64) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..cx.ch.skew(max) {
        let n = m::gen_name(cx);
        let l = m::lower(&n);
        let v = m::gen_value(cx);
        if SPECIAL.contains(&l.as_str()) || out.iter().any(|f| m::lower(&f.0) == l) {
            continue;
        }
        out.push((n, v));
    }
    let mut many = vec![];
    m::crowd(cx, &mut many);
    for f in many {
        if !out.iter().any(|o| m::lower(&o.0) == f.0) {
            out.push(f);
        }
    }
    out
}

fn gen_body(cx: &mut Ctx) -> Vec<u8> {
    if cx.ch.chance(1, 40) {
        return m::bulk(cx).into_bytes();
    }
    match cx.ch.below(4) {
        0 | 1 => vec![],
        2 => (0..1 + cx.ch.skew(80)).map(|_| cx.ch.pick(b"\r\n0 :GETaHTTP/1.1\x00\xff")).collect(),
        _ => h2::gen_bytes(cx, 3000),
    }
}

fn gen_msg(cx: &mut Ctx, id: u64) -> M {
    let method = cx.ch.pick(&m::METHODS).to_string();
    let (mut path, mut target) = ("/".to_string(), b"/".to_vec());
    let (t, w) = m::gen_escaped(cx, 20, m::PATH_PLAIN, m::MUST);
    path.push_str(&t);
    target.extend(w);
    if cx.ch.chance(1, 60) {
        let b = m::bulk(cx);
        path.push_str(&b);
        target.extend(b.bytes());
    }
    let mut query = None;
    if cx.ch.chance(1, 2) {
        let (t, w) = m::gen_escaped(cx, 20, m::QUERY_PLAIN, m::MUST);
        target.push(b'?');
        target.extend(w);
        let b = if cx.ch.chance(1, 40) { m::bulk(cx) } else { String::new() };
        target.extend(b.bytes());
        query = Some(t + &b);
    }
    let mut port = if cx.ch.chance(1, 2) { Some(cx.ch.pick(&[80u16, 443, 8080, 1, 65535, 81])) } else { None };
    if method == "OPTIONS" && cx.ch.chance(1, 3) {
        path = "*".into();
        target = b"*".to_vec();
        query = None;
    }
    if method == "CONNECT" {
        path = "/".into();
        query = None;
        port = port.or(Some(443));
    }
    let nobody = method == "CONNECT" || method == "HEAD";
    let body = if nobody { vec![] } else { gen_body(cx) };
    let status = loop {
        let s = if cx.ch.chance(1, 2) { cx.ch.pick(&[200u16, 204, 304, 404, 500, 301]) } else { 200 + cx.ch.below(800) as u16 };
        if !(method == "CONNECT" && s / 100 == 2 && s != 200) {
            break s;
        }
    };
    let rbody = if nobody || BODYLESS.contains(&status) { vec![] } else { gen_body(cx) };
    let mut fields = gen_fields(cx, 5);
    let mut rfields = gen_fields(cx, 5);
    let tag = ("X-Id".to_string(), id.to_string().into_bytes());
    let at = cx.ch.us(0, fields.len());
    fields.insert(at, tag.clone());
    let at = cx.ch.us(0, rfields.len());
    rfields.insert(at, tag.clone());
    if cx.ch.chance(1, 5) {
        rfields.retain(|f| m::lower(&f.0) != "set-cookie");
        rfields.push(("set-cookie".into(), b"a=b; Path=/".to_vec()));
    }
    let mut crumbs = vec![];
    if cx.ch.chance(1, 4) {
        for i in 0..1 + cx.ch.below(3) {
            // pieces may hold the separator themselves, at either end
            let odd = if cx.ch.chance(1, 4) { cx.ch.pick(&[";", "; d=e", ";;", "=", ",x"]) } else { "" };
            let pre = if cx.ch.chance(1, 10) { ";" } else { "" };
            crumbs.push(format!("{}c{}={}{}", pre, i, cx.ch.below(100), odd).into_bytes());
        }
        fields.push(("cookie".into(), crumbs.join(&b"; "[..])));
    }
    let mut interim = vec![];
    if method != "CONNECT" && cx.ch.chance(1, 5) {
        for _ in 0..1 + cx.ch.below(3) {
            let mut s = cx.ch.pick(&[100u16, 102, 103, 103, 199, 150]);
            if cx.ch.chance(1, 4) {
                s = 102 + cx.ch.below(98) as u16;
            }
            let mut f = gen_fields(cx, 3);
            f.push(tag.clone());
            interim.push((s, f));
        }
    }
    let trailers = if !body.is_empty() && cx.ch.chance(1, 4) { gen_fields(cx, 4) } else { vec![] };
    let rtrailers = if !rbody.is_empty() && cx.ch.chance(1, 4) { gen_fields(cx, 4) } else { vec![] };
    let scheme = cx.ch.pick(&["http", "https"]);
    // HTTP/1 has no scheme: a Host field that names no port means the default one of the connection there
    let host = method != "CONNECT" && (port.is_some() || scheme == "http") && cx.ch.chance(1, 4);
    M { id, method, scheme, domain: m::gen_host(cx), port, path, query, target, fields, body, status, rfields, rbody, evil: None, reset: false, crumbs, host, interim, trailers, rtrailers }
}

fn authority(x: &M) -> String {
    match x.port {
        Some(p) => format!("{}:{}", x.domain, p),
        None => x.domain.clone(),
    }
}

/// An HTTP/2 request no HTTP/1 message can say, or that must not say something else.
fn make_evil(cx: &mut Ctx, x: &mut M) {
    let mut p = parts_of(x);
    let mut f = wire_fields(x);
    let smuggled = "\r\n\r\nGET /smuggled HTTP/1.1\r\nHost: evil\r\nX-Id: 999\r\n\r\n";
    let tail = cx.ch.pick(&["", "x", "\r\nX-Evil: 1", "\n", "\r", " HTTP/1.1\r\nX-Id: 999\r\nHost: evil\r\n\r\n", " ", "\t", "\0", smuggled, "#@evil", "?a", "\\evil"]);
    match cx.ch.below(8) {
        0 => p.path = Some(format!("/a{}", tail)),
        1 => p.path = Some(cx.ch.pick(&["@evil/x", ".evil/x", ":81/x", "http://evil/x", "evil", "?q", "#f", "*", "", "\\x"]).to_string()),
        2 => p.authority = Some(format!("{}{}", x.domain, tail)),
        3 => p.authority = Some(cx.ch.pick(&["evil/", "evil/@good", "good@evil/", "evil?", "evil#", "a b", "", "[::1", "a:b:c", "a:", "a:99999"]).to_string()),
        4 => p.scheme = Some(cx.ch.pick(&["http://evil/?", "http://evil", "", "a b", "http://evil/#", "1x", "http:", "ht\r\ntp"]).to_string()),
        5 => f.push((b"x-evil".to_vec(), format!("v{}", tail).into_bytes())),
        6 => f.push((format!("x-e{}", cx.ch.pick(&[":y", "\r\nx-id: 999", " ", "\n", "\0", "é", "(", "\r\n\r\nGET / HTTP/1.1\r\nX-Id: 999\r\n\r\n"])).into_bytes(), b"1".to_vec())),
        _ => {
            let n = cx.ch.pick(&["transfer-encoding", "content-length", "connection", "upgrade", ":unknown", "host"]);
            let v = cx.ch.pick(&["chunked", "0", "5", "100000", "close", "x-id", "evil"]);
            f.push((n.as_bytes().to_vec(), v.as_bytes().to_vec()));
        }
    }
    cx.fault("inexpressible_request");
    x.evil = Some((p, f));
}

fn parts_of(x: &M) -> h2::Parts {
    let connect = x.method == "CONNECT";
    h2::Parts {
        method: Some(x.method.clone()),
        scheme: if connect { None } else { Some(x.scheme.into()) },
        authority: Some(authority(x)),
        path: if connect { None } else { Some(String::from_utf8(x.target.clone()).unwrap()) },
        status: None,
    }
}

/// Fields as an HTTP/2 client writes them: lower case, cookies possibly in pieces.
fn wire_fields(x: &M) -> Vec<hp::Field> {
    let mut f = vec![];
    for (n, v) in &x.fields {
        if n == "cookie" {
            for c in &x.crumbs {
                f.push((b"cookie".to_vec(), c.clone()));
            }
        } else {
            f.push((m::lower(n).into_bytes(), v.clone()));
        }
    }
    if x.host {
        f.insert(f.len() / 2, (b"host".to_vec(), authority(x).into_bytes()));
    }
    f
}

fn lower_fields(f: &Fields) -> Fields {
    f.iter().map(|(n, v)| (m::lower(n), v.clone())).collect()
}

fn map_of(f: &Fields) -> HeaderMap {
    let mut h = HeaderMap::new();
    for (n, v) in f {
        h.insert(n.clone(), webparse::HeaderValue::from_bytes(v));
    }
    h
}

fn pieces(cx: &mut Ctx, body: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut p = 0;
    while p < body.len() {
        let n = (1 + cx.ch.below(max as u64) as usize).min(body.len() - p).max((body.len() - p).min(body.len() / 40));
        out.push(body[p..p + n.min(max)].to_vec());
        p += n.min(max);
    }
    if cx.ch.chance(1, 4) {
        out.push(vec![]);
    }
    out
}

fn h1_body(cx: &mut Ctx, out: &mut Vec<u8>, body: &[u8], chunked: bool) -> Res {
    if !chunked {
        out.extend_from_slice(body);
        return Ok(());
    }
    for p in pieces(cx, body, 700) {
        if !p.is_empty() {
            cx.cov.lib_calls += 1;
            let mut b = algorithm::buf::BinaryMut::new();
            if let Err(e) = Helper::encode_chunk_data(&mut b, &p) {
                return viol("encode-error", format!("chunk: {:?}", e));
            }
            out.extend_from_slice(algorithm::buf::Bt::chunk(&b));
        }
    }
    out.extend_from_slice(b"0\r\n\r\n");
    Ok(())
}

fn hop_by_hop(h: &mut HeaderMap) {
    // unknown pseudo fields are not for passing on
    let odd: Vec<String> = h.iter().map(|f| f.0.name().to_string()).filter(|n| n.starts_with(':')).collect();
    for n in odd {
        h.remove(&n);
    }
    for n in ["connection", "transfer-encoding", "content-length", "keep-alive", "upgrade", "te", "proxy-connection", "http2-settings", "trailer"] {
        h.remove(&n);
    }
}

/// The message's own fields in order with exact values; besides them only what gateways add.
fn check_fields(got: &HeaderMap, want: &[(String, Vec<u8>)], evil: bool) -> Res {
    let got: Vec<(String, Vec<u8>)> = got.iter().map(|(n, v)| (m::lower(n.name()), v.as_bytes().to_vec())).collect();
    let mut i = 0;
    for (n, v) in &got {
        if i < want.len() && m::lower(&want[i].0) == *n {
            ensure!(*v == want[i].1, "field-value", "{}: {} became {}", n, show(&want[i].1), show(v));
            i += 1;
        } else {
            ensure!(evil || ADDED.contains(&n.as_str()), "field-list", "{:?} arrived for {:?}", dbg_h(&got), dbg_h(want));
        }
    }
    ensure!(i == want.len(), "field-list", "{:?} arrived for {:?}", dbg_h(&got), dbg_h(want));
    Ok(())
}

/// `first_h1`: the client spoke HTTP/1; `via_h1`: some hop so far did.
fn check_request(r: &Request<()>, x: &M, body: &[u8], first_h1: bool) -> Res {
    ensure!(r.method().as_str() == x.method, "method", "{} became {}", x.method, r.method().as_str());
    let u = r.url();
    if let Some((p, _)) = &x.evil {
        // a host the client did not name must not be asked
        let a = p.authority.clone().unwrap_or_default();
        let d = u.domain.clone().unwrap_or_default();
        let only_host = |a: &str| if a.starts_with('[') { a.find(']').map_or(a, |i| &a[..=i]).to_string() } else { a.split(':').next().unwrap_or("").to_string() };
        let plain = only_host(&a);
        // a Host field that differs from :authority may win
        let host = x.evil.as_ref().unwrap().1.iter().any(|f| f.0 == b"host" && only_host(&String::from_utf8_lossy(&f.1)) == d);
        ensure!(d == plain || host, "other-host", "a request to {:?} asks {:?} ({:?})", a, d, p);
        if x.method != "CONNECT" {
            let sent = p.path.clone().unwrap_or_default();
            let (pa, q) = match sent.split_once('?') {
                Some((a, b)) => (a.to_string(), Some(b.to_string())),
                None => (sent.clone(), None),
            };
            let de = |s: &str| m::pct_decode(s.as_bytes());
            let same = de(&pa).as_deref() == Some(u.path.as_bytes()) && q.map(|q| de(&q).unwrap_or_default()) == u.query.clone().map(|q| q.into_bytes());
            ensure!(same, "other-target", "a request for {:?} asks {:?} {:?}", sent, u.path, u.query);
        }
        let want: Vec<(String, Vec<u8>)> = x.fields.clone();
        check_fields(r.headers(), &want, true)?;
        let extra = |n: &str| r.headers().get_option_value(&n).is_some();
        ensure!(!extra("x-evil") || x.evil.as_ref().unwrap().1.iter().any(|f| f.0 == b"x-evil"), "field-list", "an injected field arrived");
        ensure!(body == &x.body[..], "body", "{} became {}", show(&x.body), show(body));
        return Ok(());
    }
    ensure!(u.path == x.path, "path", "{:?} became {:?}", x.path, u.path);
    ensure!(u.query == x.query, "query", "{:?} became {:?}", x.query, u.query);
    ensure!(u.domain.as_ref() == Some(&x.domain), "authority", "{:?} became {:?}", x.domain, u.domain);
    let dflt = if !first_h1 && x.scheme == "https" { 443 } else { 80 };
    let want = x.port.unwrap_or(dflt);
    ensure!(u.port == Some(want), "port", "{} became {:?}", want, u.port);
    check_fields(r.headers(), &x.fields, false)?;
    ensure!(body == &x.body[..], "body", "{} became {}", show(&x.body), show(body));
    Ok(())
}

fn check_response(r: &Response<()>, x: &M, body: &[u8]) -> Res {
    ensure!(r.status().as_u16() == x.status, "status", "{} became {}", x.status, r.status().as_u16());
    check_fields(r.headers(), &x.rfields, false)?;
    ensure!(body == &x.rbody[..], "body", "{} became {}", show(&x.rbody), show(body));
    Ok(())
}

fn id_of(h: &HeaderMap) -> Option<u64> {
    h.get_str_value(&"x-id").and_then(|v| v.parse().ok())
}

struct World {
    /// protocol of each hop: true is HTTP/2
    hops: Vec<bool>,
    msgs: Vec<M>,
    /// up[i]: node i's connection towards the client; down[i]: towards the origin
    up: Vec<Side>,
    down: Vec<Side>,
    q: Queue<Ev>,
    seen: Vec<BTreeSet<u64>>,
    answered: BTreeSet<u64>,
    /// requests a gateway refused
    refused: BTreeSet<u64>,
    /// interim responses seen at a node for a request
    interims: BTreeMap<(usize, u64), usize>,
}

impl World {
    fn side(&mut self, n: usize, up: bool) -> &mut Side {
        if up {
            &mut self.up[n]
        } else {
            &mut self.down[n]
        }
    }

    fn pump(&mut self, cx: &mut Ctx, n: usize, up: bool) {
        let s = self.side(n, up);
        if !s.pumping && !s.out.is_empty() {
            s.pumping = true;
            let at = cx.now + cx.ch.below(20);
            self.q.push(cx, at, Ev::Pump(n, up));
        }
    }

    /// Sends the next item of a drawn queue: HTTP/2 streams interleave, HTTP/1 has one queue.
    fn pumped(&mut self, cx: &mut Ctx, n: usize, up: bool) -> Res {
        let (h2, k) = {
            let s = self.side(n, up);
            s.pumping = false;
            s.out.retain(|q| !q.1.is_empty());
            if s.out.is_empty() || s.dead {
                return Ok(());
            }
            (s.h2, s.out.len())
        };
        let i = if h2 { cx.ch.below(k as u64) as usize } else { 0 };
        if i > 0 {
            cx.fault("streams_interleaved");
        }
        let s = if up { &mut self.up[n] } else { &mut self.down[n] };
        let bytes = match s.out[i].1.pop_front().unwrap() {
            Item::Raw(b) => b,
            Item::Lib(f) => lib_encode_frame(cx, f, &mut s.enc)?,
            Item::Ref(f) => {
                let evil = s.lenient;
                let st = Style { pad: !evil && cx.ch.chance(1, 3), noise: false, split: cx.ch.chance(1, 3), unknown: false };
                let mut o = vec![];
                for r in h2::ref_write(cx, &f, &mut s.renc, st) {
                    r.write(&mut o);
                }
                o
            }
        };
        cx.bytes_ev("wire", &bytes);
        let (to, from_up) = if up { (n - 1, false) } else { (n + 1, true) };
        for (at, seg) in s.link.segments(cx, &bytes, &[]) {
            self.q.push(cx, at, Ev::Arrive(to, from_up, seg));
        }
        self.pump(cx, n, up);
        Ok(())
    }

    // ---------------------------------------------------------------- sending

    fn sid(s: &mut Side, key: Key) -> Res<u32> {
        let sid = s.ids.next_id().0;
        s.sid_of.insert(key, sid);
        ensure!(sid == 1 + 2 * s.key_of.len() as u32, "stream-id", "stream {} was drawn after {} others", sid, s.key_of.len());
        s.key_of.insert(sid, key);
        Ok(sid)
    }

    /// The client puts a message of its own on the wire.
    fn client_sends(&mut self, cx: &mut Ctx, i: usize) -> Res {
        let x = self.msgs[i].clone();
        let s = &mut self.down[0];
        let mut q = VecDeque::new();
        cx.message();
        if s.h2 {
            let sid = Self::sid(s, x.id)?;
            let (parts, fields) = x.evil.clone().unwrap_or_else(|| (parts_of(&x), wire_fields(&x)));
            let mut body = pieces(cx, &x.body, s.max);
            if x.reset && body.is_empty() {
                body.push(vec![]);
            }
            let k = body.len();
            q.push_back(Item::Ref(MF::Headers { sid, parts, fields, end: k == 0, prio: None }));
            for (j, d) in body.into_iter().enumerate() {
                if x.reset && j == k - 1 {
                    cx.fault("stream_reset");
                    q.push_back(Item::Ref(MF::Reset { sid, code: 8 }));
                } else {
                    q.push_back(Item::Ref(MF::Data { sid, data: d, end: j == k - 1 && x.trailers.is_empty() }));
                }
            }
            if !x.reset && !x.trailers.is_empty() {
                let fields = x.trailers.iter().map(|(n, v)| (m::lower(n).into_bytes(), v.clone())).collect();
                q.push_back(Item::Ref(MF::Headers { sid, parts: Default::default(), fields, end: true, prio: None }));
            }
            s.send(sid, q);
        } else {
            let chunked = cx.ch.chance(1, 3);
            let connect = x.method == "CONNECT";
            let mut o = format!("{} ", x.method).into_bytes();
            if connect {
                o.extend_from_slice(authority(&x).as_bytes());
            } else {
                o.extend_from_slice(&x.target);
            }
            o.extend_from_slice(b" HTTP/1.1\r\n");
            let mut put = |n: &str, v: &[u8]| {
                o.extend_from_slice(n.as_bytes());
                o.extend_from_slice(b": ");
                o.extend_from_slice(v);
                o.extend_from_slice(b"\r\n");
            };
            put("Host", authority(&x).as_bytes());
            for (n, v) in &x.fields {
                put(n, v);
            }
            if chunked {
                put("Transfer-Encoding", b"chunked");
            } else if !x.body.is_empty() || cx.ch.chance(1, 2) {
                put("Content-Length", x.body.len().to_string().as_bytes());
            }
            o.extend_from_slice(b"\r\n");
            h1_body(cx, &mut o, &x.body, chunked)?;
            s.order.push_back(x.id);
            q.push_back(Item::Raw(o));
            s.send(0, q);
        }
        self.pump(cx, 0, false);
        Ok(())
    }

    /// A gateway passes a request on.
    fn forward(&mut self, cx: &mut Ctx, n: usize, key: Key, r: Request<()>, body: Vec<u8>, trailers: Fields) -> Res {
        let id = id_of(r.headers());
        let x = self.msgs.iter().find(|x| Some(x.id) == id).cloned();
        let to_h2 = self.down[n].h2;
        cx.ev("forward", &[n as u64, key, body.len() as u64]);
        let mut q = VecDeque::new();
        if to_h2 {
            let s = &mut self.down[n];
            let mut h = r.headers().clone();
            hop_by_hop(&mut h);
            h.remove(&"host");
            let proto = if cx.ch.chance(1, 2) { Some(Scheme::Http) } else { None };
            cx.cov.lib_calls += 1;
            let parts = Parts::request(r.method().clone(), r.url().clone(), proto);
            let sid = Self::sid(s, key)?;
            Self::h2_message(cx, s.max, &mut q, sid, parts, h, &body, &trailers, true);
            s.send(sid, q);
        } else {
            let mut r = r;
            let chunked = cx.ch.chance(1, 3);
            hop_by_hop(r.headers_mut());
            if chunked {
                r.headers_mut().insert("Transfer-Encoding", "chunked");
            } else if !body.is_empty() || cx.ch.chance(1, 2) {
                r.headers_mut().insert("Content-Length", body.len());
            }
            cx.cov.lib_calls += 1;
            r.set_version(Version::Http11);
            let head = match r.http1_data() {
                Ok(h) => h,
                Err(e) => {
                    ensure!(x.map_or(true, |x| x.evil.is_some()), "legal-refused", "{:?} for {:?}", e, r.headers());
                    cx.probe("refused_on_encode");
                    self.refused.insert(id.unwrap_or(0));
                    return Ok(());
                }
            };
            let mut o = head;
            h1_body(cx, &mut o, &body, chunked)?;
            let s = &mut self.down[n];
            s.order.push_back(key);
            s.send(0, VecDeque::from([Item::Raw(o)]));
        }
        self.pump(cx, n, false);
        Ok(())
    }

    fn h2_message(cx: &mut Ctx, max: usize, q: &mut VecDeque<Item>, sid: u32, parts: Parts, h: HeaderMap, body: &[u8], trailers: &Fields, end: bool) {
        let id = StreamIdentifier(sid);
        let body = if end { pieces(cx, body, max) } else { vec![] };
        let mut f = if cx.ch.chance(1, 2) {
            Headers::trailers(id, parts, h)
        } else {
            let mut f = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), id), h);
            *f.parts_mut() = parts;
            f
        };
        if body.is_empty() && trailers.is_empty() && end {
            f.set_end_stream();
        }
        q.push_back(Item::Lib(Frame::Headers(f)));
        let k = body.len();
        for (i, b) in body.into_iter().enumerate() {
            let mut d = Data::new(FrameHeader::new(Kind::Data, Flag::zero(), id), Binary::from(b));
            d.set_end_stream(i == k - 1 && trailers.is_empty());
            q.push_back(Item::Lib(Frame::Data(d)));
        }
        if !trailers.is_empty() {
            let mut f = Headers::trailers(id, Parts::default(), map_of(trailers));
            f.set_end_stream();
            q.push_back(Item::Lib(Frame::Headers(f)));
        }
    }

    /// A response goes back on a node's upstream connection.
    fn reply(&mut self, cx: &mut Ctx, n: usize, key: Key, r: Response<()>, body: Vec<u8>, trailers: Fields) -> Res {
        let end = !r.status().is_informational();
        let s = &mut self.up[n];
        if s.h2 {
            let sid = match s.sid_of.get(&key) {
                Some(s) => *s,
                None => return viol("no-such-stream", format!("reply for {}", key)),
            };
            let mut h = r.headers().clone();
            hop_by_hop(&mut h);
            cx.cov.lib_calls += 1;
            let parts = Parts::response(r.status());
            let mut q = VecDeque::new();
            Self::h2_message(cx, s.max, &mut q, sid, parts, h, &body, &trailers, end);
            s.send(sid, q);
        } else {
            let mut r = r;
            let chunked = cx.ch.chance(1, 3);
            hop_by_hop(r.headers_mut());
            let x = id_of(r.headers()).and_then(|i| self.msgs.iter().find(|x| x.id == i));
            let nobody = !end || x.map_or(false, |x| x.method == "HEAD" || x.method == "CONNECT" || BODYLESS.contains(&x.status));
            if !nobody {
                if chunked {
                    r.headers_mut().insert("Transfer-Encoding", "chunked");
                } else {
                    r.headers_mut().insert("Content-Length", body.len());
                }
            }
            *r.version_mut() = Version::Http11;
            cx.cov.lib_calls += 1;
            let mut o = match r.httpdata() {
                Ok(h) => h,
                Err(e) => return viol("legal-refused", format!("{:?} for {:?}", e, r.headers())),
            };
            if !nobody {
                h1_body(cx, &mut o, &body, chunked)?;
            }
            let e = s.ready.entry(key).or_default();
            e.0.extend(o);
            e.1 = end;
            // HTTP/1 answers in the order it was asked
            while let Some(k) = s.order.front() {
                if self.refused.iter().any(|id| id == k) {
                    s.order.pop_front();
                    continue;
                }
                let Some((o, end)) = s.ready.remove(k) else { break };
                s.send(0, VecDeque::from([Item::Raw(o)]));
                if !end {
                    break;
                }
                s.order.pop_front();
            }
        }
        self.pump(cx, n, true);
        Ok(())
    }

    // ---------------------------------------------------------------- receiving

    fn got_request(&mut self, cx: &mut Ctx, n: usize, key: Key, r: Request<()>, body: Vec<u8>, trailers: Fields) -> Res {
        let id = match id_of(r.headers()) {
            Some(i) => i,
            None => return viol("unsent-request", format!("node {} received {:?} {:?}", n, r.method(), r.headers())),
        };
        cx.ev("request", &[n as u64, id, body.len() as u64]);
        let x = match self.msgs.iter().find(|x| x.id == id) {
            Some(x) => x.clone(),
            None => return viol("unsent-request", format!("node {} received {:?} {:?}", n, r.method(), r.headers())),
        };
        ensure!(!x.reset, "reset-delivered", "request {} was given up and arrived", id);
        ensure!(self.seen[n].insert(id), "request-repeated", "request {} at node {}", id, n);
        check_request(&r, &x, &body, !self.hops[0])?;
        if x.evil.is_none() {
            if n == 1 && self.hops[0] && x.host {
                let h = r.headers().get_option_value(&"host").map(|v| v.as_bytes().to_vec());
                ensure!(h.as_deref() == Some(authority(&x).as_bytes()), "field-value", "host: {} became {:?}", authority(&x), h.map(|h| show(&h)));
            }
            let through = self.hops[..n].iter().all(|h| *h);
            ensure!(trailers == if through { lower_fields(&x.trailers) } else { vec![] }, "trailers", "{:?} arrived for {:?}", dbg_h(&trailers), dbg_h(&x.trailers));
        }
        cx.message();
        if n < self.hops.len() {
            return self.forward(cx, n, key, r, body, trailers);
        }
        // the origin answers
        cx.cov.lib_calls += 1;
        let status = StatusCode::from_u16(x.status).expect("status");
        for (s, f) in &x.interim {
            cx.fault("interim_response");
            match Response::builder().status(*s).headers(map_of(f)).body(()) {
                Ok(r) => self.reply(cx, n, key, r, vec![], vec![])?,
                Err(e) => return viol("legal-refused", format!("{:?}", e)),
            }
        }
        let resp = match Response::builder().status(status).headers(map_of(&x.rfields)).body(()) {
            Ok(r) => r,
            Err(e) => return viol("legal-refused", format!("{:?}", e)),
        };
        let t = if self.hops[n - 1] { lower_fields(&x.rtrailers) } else { vec![] };
        self.reply(cx, n, key, resp, x.rbody.clone(), t)
    }

    /// An interim response passes: one of those the origin gave, in its place.
    fn got_interim(&mut self, cx: &mut Ctx, n: usize, key: Key, r: Response<()>) -> Res {
        cx.ev("interim", &[n as u64, key, r.status().as_u16() as u64]);
        let x = match id_of(r.headers()).and_then(|i| self.msgs.iter().find(|x| x.id == i)) {
            Some(x) => x.clone(),
            None => return viol("unsent-response", format!("node {} received {:?} {:?}", n, r.status(), r.headers())),
        };
        let k = self.interims.entry((n, x.id)).or_insert(0);
        let (s, f) = match x.interim.get(*k) {
            Some(e) => e,
            None => return viol("unsent-response", format!("node {} received {:?} {:?}", n, r.status(), r.headers())),
        };
        *k += 1;
        ensure!(r.status().as_u16() == *s, "status", "{} became {}", s, r.status().as_u16());
        check_fields(r.headers(), f, false)?;
        cx.message();
        if n == 0 {
            ensure!(key == x.id, "response-mixed-up", "request {} was answered with the response to {}", key, x.id);
            return Ok(());
        }
        self.reply(cx, n, key, r, vec![], vec![])
    }

    fn got_response(&mut self, cx: &mut Ctx, n: usize, key: Key, r: Response<()>, body: Vec<u8>, trailers: Fields) -> Res {
        let id = id_of(r.headers());
        cx.ev("response", &[n as u64, key, body.len() as u64]);
        let x = match id.and_then(|i| self.msgs.iter().find(|x| x.id == i)) {
            Some(x) => x.clone(),
            None => return viol("unsent-response", format!("node {} received {:?} {:?}", n, r.status(), r.headers())),
        };
        check_response(&r, &x, &body)?;
        let k = self.interims.get(&(n, x.id)).copied().unwrap_or(0);
        ensure!(k == x.interim.len(), "interim-lost", "{} of {} interim responses before the final one", k, x.interim.len());
        let through = self.hops[n..].iter().all(|h| *h);
        ensure!(trailers == if through { lower_fields(&x.rtrailers) } else { vec![] }, "trailers", "{:?} arrived for {:?}", dbg_h(&trailers), dbg_h(&x.rtrailers));
        cx.message();
        if n == 0 {
            ensure!(key == x.id, "response-mixed-up", "request {} was answered with the response to {}", key, x.id);
            ensure!(self.answered.insert(x.id), "response-repeated", "request {}", x.id);
            return Ok(());
        }
        self.reply(cx, n, key, r, body, trailers)
    }

    fn arrived(&mut self, cx: &mut Ctx, n: usize, up: bool, seg: Vec<u8>) -> Res {
        cx.cov.deliveries += 1;
        if self.side(n, up).dead {
            return Ok(());
        }
        if self.side(n, up).h2 {
            self.side(n, up).rx.buf.extend_from_slice(&seg);
            loop {
                let s = if up { &mut self.up[n] } else { &mut self.down[n] };
                let f = if s.lenient {
                    match lib_take(cx, &s.rx.buf)? {
                        None => return Ok(()),
                        Some((h, p, k)) => {
                            s.rx.buf.drain(..k);
                            match s.join.push(h, p) {
                                Ok(None) => continue,
                                Ok(Some((h, p))) => match lib_parse(cx, h, &p, &mut s.rx.dec, NO_LIMIT, true)? {
                                    Ok((_, f)) => f,
                                    Err(_) => {
                                        // the caller cannot tell what state is left: the connection ends
                                        cx.probe("refused_on_parse");
                                        s.dead = true;
                                        return Ok(());
                                    }
                                },
                                Err(e) => return viol("legal-rejected", format!("{:?}", e)),
                            }
                        }
                    }
                } else {
                    let max = if up { None } else { Some(16_384) };
                    match s.rx.step(cx, max, true)? {
                        Step::More => return Ok(()),
                        Step::Skipped => continue,
                        Step::Frame(_, f) => f,
                    }
                };
                self.h2_frame(cx, n, up, f.expect("frame"))?;
            }
        }
        self.side(n, up).buf.extend_from_slice(&seg);
        while self.h1_step(cx, n, up)? {}
        Ok(())
    }

    fn h2_frame(&mut self, cx: &mut Ctx, n: usize, up: bool, f: Frame<Binary>) -> Res {
        let end = f.is_end_stream();
        let s = if up { &mut self.up[n] } else { &mut self.down[n] };
        let sid = f.stream_id().0;
        match f {
            Frame::Headers(h) if s.open.contains_key(&sid) => {
                ensure!(end, "stream-reopened", "{}", sid);
                cx.cov.lib_calls += 1;
                let (p, h) = h.into_parts();
                ensure!(p == Parts::default(), "trailers", "pseudo fields {:?} in trailers", p);
                let t: Fields = h.iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
                match s.open.get_mut(&sid) {
                    Some(Half::Req(_, _, f)) | Some(Half::Resp(_, _, f)) => *f = t,
                    _ => {}
                }
            }
            Frame::Headers(h) => {
                cx.cov.lib_calls += 1;
                let half = if up {
                    let evil = id_of(h.fields()).and_then(|i| self.msgs.iter().find(|x| x.id == i)).map_or(true, |x| x.evil.is_some());
                    match h.into_request(Request::builder()).and_then(|b| b.version(Version::Http2).body(())) {
                        Ok(r) => Half::Req(r, vec![], vec![]),
                        Err(e) => {
                            ensure!(evil, "legal-refused", "into_request: {:?}", e);
                            cx.probe("refused_on_convert");
                            Half::Dropped
                        }
                    }
                } else {
                    match h.into_response(Response::builder()).and_then(|b| b.version(Version::Http2).body(())) {
                        Ok(r) if r.status().is_informational() => {
                            ensure!(!end, "status", "a final response became {:?}", r.status());
                            let key = match s.key_of.get(&sid) {
                                Some(k) => *k,
                                None => return viol("response-on-idle-stream", format!("{}", sid)),
                            };
                            return self.got_interim(cx, n, key, r);
                        }
                        Ok(r) => Half::Resp(r, vec![], vec![]),
                        Err(e) => return viol("legal-refused", format!("into_response: {:?}", e)),
                    }
                };
                s.open.insert(sid, half);
            }
            Frame::Data(d) => match s.open.get_mut(&sid) {
                Some(Half::Req(_, b, _)) | Some(Half::Resp(_, b, _)) => b.extend_from_slice(algorithm::buf::Bt::chunk(d.payload())),
                Some(Half::Dropped) => {}
                None => return viol("data-without-headers", format!("stream {}", sid)),
            },
            Frame::Reset(_) => {
                s.open.remove(&sid);
                return Ok(());
            }
            _ => return Ok(()),
        }
        if !end {
            return Ok(());
        }
        match s.open.remove(&sid).unwrap() {
            Half::Req(r, b, t) => {
                // a stream is known upstream by its number
                let key = self.new_key(n, sid);
                self.got_request(cx, n, key, r, b, t)
            }
            Half::Resp(r, b, t) => {
                let key = match s.key_of.get(&sid) {
                    Some(k) => *k,
                    None => return viol("response-on-idle-stream", format!("{}", sid)),
                };
                self.got_response(cx, n, key, r, b, t)
            }
            Half::Dropped => Ok(()),
        }
    }

    fn new_key(&mut self, n: usize, sid: u32) -> Key {
        let key = n as u64 * 1_000_000 + sid as u64;
        self.up[n].sid_of.insert(key, sid);
        key
    }

    /// One step of an HTTP/1 receiver; false when it has to wait.
    fn h1_step(&mut self, cx: &mut Ctx, n: usize, up: bool) -> Res<bool> {
        let s = if up { &mut self.up[n] } else { &mut self.down[n] };
        if s.head.is_none() {
            if s.buf.is_empty() {
                return Ok(false);
            }
            let kind = cx.ch.below(6);
            let buf = s.buf.clone();
            let independent = m::read_head(&buf);
            let n = if up {
                let mut r = Request::new();
                match parse_any_req(cx, &mut r, &buf, kind)? {
                    Ok(n) => {
                        s.head = Some(Half::Req(r, vec![], vec![]));
                        n
                    }
                    Err(e) if e.is_partial() => return Ok(false),
                    Err(e) => return viol("malformed-sent", format!("{:?} for {}", e, show(&buf))),
                }
            } else {
                let mut r = Response::new(());
                match parse_any_resp(cx, &mut r, &buf, kind)? {
                    Ok(n) => {
                        s.head = Some(Half::Resp(r, vec![], vec![]));
                        n
                    }
                    Err(e) if e.is_partial() => return Ok(false),
                    Err(e) => return viol("malformed-sent", format!("{:?} for {}", e, show(&buf))),
                }
            };
            match independent {
                Read::Ok(_, k) => ensure!(k == n, "head-length", "{} is {} octets, an independent reader finds {}", show(&buf), n, k),
                o => return viol("malformed-sent", format!("{:?} for {}", o, show(&buf))),
            }
            s.buf.drain(..n);
        }
        let buf = s.buf.clone();
        match s.head.take().unwrap() {
            Half::Req(r, ..) => {
                let (body, k) = match take_body(cx, &buf, r.headers())? {
                    None => {
                        s.head = Some(Half::Req(r, vec![], vec![]));
                        return Ok(false);
                    }
                    Some(x) => x,
                };
                s.buf.drain(..k);
                s.next_sid += 2;
                let key = n as u64 * 1_000_000 + s.next_sid as u64;
                s.order.push_back(key);
                self.got_request(cx, n, key, r, body, vec![])?;
            }
            Half::Resp(r, ..) => {
                let key = match s.order.front() {
                    Some(k) => *k,
                    None => return viol("unasked-response", format!("{:?}", r.headers())),
                };
                if r.status().is_informational() {
                    self.got_interim(cx, n, key, r)?;
                    return Ok(true);
                }
                let nobody = id_of(r.headers()).and_then(|i| self.msgs.iter().find(|x| x.id == i)).map_or(false, |x| x.method == "HEAD" || x.method == "CONNECT" || BODYLESS.contains(&x.status));
                let (body, k) = if nobody {
                    (vec![], 0)
                } else {
                    match take_body(cx, &buf, r.headers())? {
                        None => {
                            s.head = Some(Half::Resp(r, vec![], vec![]));
                            return Ok(false);
                        }
                        Some(x) => x,
                    }
                };
                s.buf.drain(..k);
                s.order.pop_front();
                self.got_response(cx, n, key, r, body, vec![])?;
            }
            Half::Dropped => {}
        }
        Ok(true)
    }
}

fn gateway(cx: &mut Ctx, hostile: bool) -> Res {
    let k = 1 + cx.ch.below(3) as usize;
    let mut hops: Vec<bool> = (0..k).map(|_| cx.ch.chance(1, 2)).collect();
    if k > 1 && hops.iter().all(|h| *h == hops[0]) {
        hops[1] = !hops[0];
    }
    if hostile {
        hops[0] = true;
        if k > 1 && cx.ch.chance(3, 4) {
            hops[1] = false;
        }
    }
    cx.ev("hops", &hops.iter().map(|h| *h as u64).collect::<Vec<_>>());
    let count = 1 + cx.ch.below(4);
    let mut msgs: Vec<M> = (1..=count).map(|i| gen_msg(cx, i)).collect();
    if hostile {
        let i = cx.ch.below(count) as usize;
        make_evil(cx, &mut msgs[i]);
    } else if hops[0] && cx.ch.chance(1, 4) {
        let i = cx.ch.below(count) as usize;
        msgs[i].reset = true;
    }
    cx.note(|| format!("hops (HTTP/2?) {:?}", hops));
    for x in &msgs {
        cx.note(|| format!("{:?}", x).chars().take(900).collect());
    }
    let mut up = vec![Side::new(cx, false)];
    let mut down = vec![];
    for h in &hops {
        down.push(Side::new(cx, *h));
        up.push(Side::new(cx, *h));
    }
    down.push(Side::new(cx, false));
    up[1].lenient = hostile;
    down[0].lenient = hostile;
    let mut w = World { seen: vec![BTreeSet::new(); k + 1], hops, msgs, up, down, q: Queue::new(), answered: BTreeSet::new(), refused: BTreeSet::new(), interims: BTreeMap::new() };
    for i in 0..count as usize {
        let at = cx.ch.below(100);
        w.q.push(cx, at, Ev::Send(i));
    }
    while let Some(e) = w.q.pop(cx) {
        match e {
            Ev::Send(i) => w.client_sends(cx, i)?,
            Ev::Pump(n, up) => w.pumped(cx, n, up)?,
            Ev::Arrive(n, up, seg) => w.arrived(cx, n, up, seg)?,
        }
    }
    // progress: every request that is neither evil nor given up is answered
    if w.up[1].dead {
        return Ok(());
    }
    for x in &w.msgs {
        if x.evil.is_none() && !x.reset {
            ensure!(w.answered.contains(&x.id), "unanswered", "request {} ({}) got no answer; it reached {:?}", x.id, x.method, w.seen.iter().map(|s| s.contains(&x.id)).collect::<Vec<_>>());
        } else {
            ensure!(!x.reset || !w.answered.contains(&x.id), "reset-answered", "request {}", x.id);
        }
    }
    Ok(())
}

pub fn c22_gateway(cx: &mut Ctx) -> Res {
    gateway(cx, false)
}

pub fn c22_hostile(cx: &mut Ctx) -> Res {
    gateway(cx, true)
}

#[allow(dead_code)]
fn unused(_: Method, _: Url) {}
