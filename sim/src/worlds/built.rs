//! C21: messages an application builds through the library's API reach the peer as built.
use super::h1::{check_req, check_resp, parse_any_req, parse_any_resp};
use crate::buf::{SimBuf, SimSink};
use crate::ctx::{show, viol, Ctx, Res, Violation};
use crate::ensure;
use crate::model::headers::{self as rh, RefMap, Val};
use crate::model::http1::{self as m, Read, Req, Resp};
use crate::net::{Link, Queue};
use crate::{with_name_value};
use algorithm::buf::{Binary, BinaryMut, Bt};
use webparse::http2::frame::Settings;
use webparse::{http, HeaderMap, HeaderValue, Helper, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version, WebError};

// ------------------------------------------------------------------ bodies

/// One body in one of the forms the library serialises.
#[derive(Clone)]
enum Body {
    Unit,
    Str(&'static str),
    Text(String),
    Bytes(Vec<u8>),
    Slice(&'static [u8]),
    Bin(Vec<u8>, usize),
    BinMut(Vec<u8>, usize),
}

const STR_BODIES: [&str; 4] = ["", "hello", "GET / HTTP/1.1\r\n\r\n", "{\"a\": [1, 2, 3]}"];

impl Body {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Body::Unit => vec![],
            Body::Str(s) => s.as_bytes().to_vec(),
            Body::Text(s) => s.as_bytes().to_vec(),
            Body::Bytes(b) => b.clone(),
            Body::Slice(b) => b.to_vec(),
            Body::Bin(b, k) => b[*k..].to_vec(),
            Body::BinMut(b, k) => b[*k..].to_vec(),
        }
    }
}

fn gen_body(cx: &mut Ctx) -> Body {
    let n = match cx.ch.below(8) {
        0 => 0,
        7 => cx.ch.skew(6000) as usize,
        6 if cx.ch.chance(1, 10) => m::bulk(cx).len(),
        _ => cx.ch.skew(60) as usize,
    };
    let b: Vec<u8> = (0..n).map(|i| if n > 200 { (i * 31 % 251) as u8 } else { cx.ch.pick(b"\r\n :GETaHTTP/1.1\x00\xff0") }).collect();
    match cx.ch.below(7) {
        0 => Body::Unit,
        1 => Body::Str(cx.ch.pick(&STR_BODIES)),
        2 => Body::Text(String::from_utf8_lossy(&b).to_string()),
        3 => Body::Bytes(b),
        4 => Body::Slice(cx.ch.pick(&STR_BODIES).as_bytes()),
        5 => {
            let k = if b.is_empty() || cx.ch.chance(1, 2) { 0 } else { cx.ch.below(b.len() as u64) as usize };
            Body::Bin(b, k)
        }
        _ => {
            let k = if b.is_empty() { 0 } else { cx.ch.below(b.len() as u64) as usize };
            Body::BinMut(b, k)
        }
    }
}

/// Runs the expression with the body as its own type.
macro_rules! with_body {
    ($b:expr, |$x:ident| $call:expr) => {
        match $b {
            Body::Unit => { let $x = (); $call }
            Body::Str(s) => { let $x: &'static str = s; $call }
            Body::Text(s) => { let $x: String = s.clone(); $call }
            Body::Bytes(v) => { let $x: Vec<u8> = v.clone(); $call }
            Body::Slice(v) => { let $x: &'static [u8] = v; $call }
            Body::Bin(v, k) => { let mut w = Binary::from(v.clone()); w.advance(*k); let $x = w; $call }
            Body::BinMut(v, k) => { let mut w = BinaryMut::from(v.clone()); w.advance(*k); let $x = w; $call }
        }
    };
}

// ------------------------------------------------------------------ what the application means

/// The message an application has described so far.
#[derive(Clone, Debug)]
struct Built {
    method: String,
    path: String,
    query: Option<String>,
    domain: Option<String>,
    port: Option<u16>,
    scheme: String,
    user: Option<String>,
    pass: Option<String>,
    http10: bool,
    map: RefMap,
}

impl Built {
    fn new() -> Built {
        Built { method: "GET".into(), path: "/".into(), query: None, domain: None, port: None, scheme: "".into(), user: None, pass: None, http10: false, map: RefMap::default() }
    }
    fn connect(&self) -> Option<String> {
        match (&self.domain, self.port) {
            (Some(d), Some(p)) => Some(format!("{}:{}", d, p)),
            _ => None,
        }
    }
}

/// A target as text and as the URL it denotes. Absolute, or origin form.
fn gen_url(cx: &mut Ctx, absolute: bool) -> (Vec<u8>, Built) {
    loop {
        let q = m::gen_req(cx, false, absolute);
        // the target is the second word of the generated request line
        let line: Vec<u8> = {
            let mut w = &q.wire[..];
            while w[0] == b'\r' || w[0] == b'\n' {
                w = &w[1..];
            }
            w[..w.iter().position(|b| *b == b'\n').unwrap()].to_vec()
        };
        let t = line.split(|b| *b == b' ').nth(1).unwrap().to_vec();
        if t == b"*" {
            continue;
        }
        let abs = t[0] != b'/';
        let mut b = Built::new();
        b.path = q.path;
        b.query = q.query;
        if abs {
            b.domain = q.domain;
            b.port = Some(q.port.unwrap_or(0));
            b.scheme = q.scheme;
            b.user = q.user;
            b.pass = q.pass;
        } else {
            b.port = Some(0);
        }
        return (t, b);
    }
}

fn take_url(d: &mut Built, u: &Built) {
    d.path = u.path.clone();
    d.query = u.query.clone();
    d.domain = u.domain.clone();
    d.port = u.port;
    d.scheme = u.scheme.clone();
    d.user = u.user.clone();
    d.pass = u.pass.clone();
}

fn lib_url(t: &[u8]) -> Res<Url> {
    match Url::parse(t.to_vec()) {
        Ok(u) => Ok(u),
        Err(e) => viol("url-refused", format!("{:?} for {}", e, show(t))),
    }
}

fn err(what: &str, e: WebError) -> Violation {
    Violation { class: format!("{}-error", what), detail: format!("{:?}", e) }
}

/// A Host a receiver can take apart.
fn gen_host(cx: &mut Ctx) -> String {
    let h = cx.ch.pick(&["a", "example.com", "[::1]", "127.0.0.1"]);
    match cx.ch.below(3) {
        0 => format!("{}:{}", h, cx.ch.pick(&[80u16, 8080, 65535, 0])),
        _ => h.to_string(),
    }
}

fn no_special(n: &str) -> bool {
    !["host", "content-length", "transfer-encoding"].contains(&m::lower(n).as_str())
}

fn gen_field(cx: &mut Ctx, map: &RefMap) -> (String, Val) {
    // bounded, for a choice list that has run out repeats itself
    for _ in 0..64 {
        let n = if cx.ch.chance(1, 3) { cx.ch.pick(&["Content-Type", "User-Agent", "Server", "Cookie", "X-A"]).to_string() } else { rh::pick_name(cx, map) };
        if no_special(&n) {
            return (n, rh::pick_val(cx));
        }
    }
    ("X-A".to_string(), rh::pick_val(cx))
}

pub fn lib_settings(cx: &mut Ctx) -> Settings {
    let mut s = Settings::default();
    if cx.ch.chance(1, 2) {
        s.set_max_frame_size(Some(16_384 + cx.ch.skew(1000) as u32));
    }
    if cx.ch.chance(1, 2) {
        s.set_initial_window_size(Some(cx.ch.skew(1 << 30) as u32));
    }
    s
}

/// Builds a request by a drawn sequence of builder calls; the description follows along.
fn build_request(cx: &mut Ctx) -> Res<(http::request::Builder, Built)> {
    let mut d = Built::new();
    let mut b = match cx.ch.below(3) {
        0 => Request::builder(),
        1 => http::request::Builder::new(),
        _ => {
            // modelled on another request: method, version and URL are taken over, fields are not
            let (t, u) = gen_url(cx, true);
            let mut o = Request::builder().method("POST").url(lib_url(&t)?).version(if cx.ch.chance(1, 3) { Version::Http10 } else { Version::Http11 }).header("X-Old", "stays behind").body("old body").map_err(|e| err("build", e))?;
            if cx.ch.chance(1, 2) {
                o.set_method(Method::Put);
            }
            d.method = o.method().as_str().to_string();
            d.http10 = o.version() == Version::Http10;
            take_url(&mut d, &u);
            cx.probe("built_from_request");
            http::request::Builder::from_req(&o)
        }
    };
    let n = 1 + cx.ch.skew(8);
    for _ in 0..n {
        cx.cov.lib_calls += 1;
        b = match cx.ch.below(9) {
            0 => {
                let s = cx.ch.pick(&m::METHODS);
                if s == "CONNECT" {
                    b
                } else {
                    d.method = s.to_string();
                    match cx.ch.below(2) {
                        0 => b.method(s),
                        _ => b.method(Method::try_from(s).unwrap()),
                    }
                }
            }
            1 | 2 => {
                let (t, u) = gen_url(cx, true);
                take_url(&mut d, &u);
                let text = String::from_utf8(t.clone()).unwrap();
                if let Some(c) = u.connect() {
                    d.map.insert("Host", c.as_bytes());
                }
                match cx.ch.below(4) {
                    0 => b.url(&text[..]),
                    1 => b.url(text),
                    2 => b.url(&t[..]),
                    _ => b.url(lib_url(&t)?),
                }
            }
            3 => {
                d.http10 = cx.ch.chance(1, 3);
                b.version(if d.http10 { Version::Http10 } else { Version::Http11 })
            }
            4 => {
                let mut h = HeaderMap::new();
                for _ in 0..cx.ch.below(4) {
                    let (n, v) = gen_field(cx, &d.map);
                    with_name_value!(cx, &n, &v, |k, w| { h.insert(k, w); });
                }
                // taking over a map replaces by name
                for (n, v) in h.iter() {
                    d.map.insert(n.name(), v.as_bytes());
                }
                b.headers(h)
            }
            5 if cx.ch.chance(1, 4) => {
                let s = lib_settings(cx);
                d.map.insert("Connection", b"Upgrade, HTTP2-Settings");
                d.map.insert("Upgrade", b"h2c");
                d.map.insert("HTTP2-Settings", s.encode_http_settings().as_bytes());
                b.upgrade_http2(s)
            }
            6 => {
                let h = b.headers_mut().unwrap();
                let (n, v) = gen_field(cx, &d.map);
                with_name_value!(cx, &n, &v, |k, w| { h.push(k, w); });
                d.map.push(&n, &v.bytes());
                b
            }
            7 if cx.ch.chance(1, 3) => {
                let h = gen_host(cx);
                d.map.insert("Host", h.as_bytes());
                b.header("host", h)
            }
            _ => {
                let (n, v) = gen_field(cx, &d.map);
                d.map.insert(&n, &v.bytes());
                with_name_value!(cx, &n, &v, |k, w| b.header(k, w))
            }
        };
        // what the builder shows of itself
        ensure!(b.method_ref().map(|x| x.as_str()) == Some(&d.method[..]), "builder-view", "method {:?}, set {}", b.method_ref(), d.method);
        ensure!(b.version_ref() == Some(&if d.http10 { Version::Http10 } else { Version::Http11 }), "builder-view", "version {:?}", b.version_ref());
        let u = b.url_ref().unwrap();
        ensure!(u.path == d.path && u.query == d.query && u.domain == d.domain, "builder-view", "url {:?}, set {:?}", u, d);
        ensure!(b.headers_ref().unwrap().len() == d.map.0.len(), "builder-view", "{:?}, set {:?}", b.headers_ref(), rh::dbg(&d.map.0));
    }
    let mut many = vec![];
    m::crowd(cx, &mut many);
    for (n, v) in many {
        d.map.insert(&n, &v);
        b = b.header(n, HeaderValue::from_bytes(&v));
    }
    if cx.ch.chance(1, 8) {
        if d.domain.is_some() && d.port.is_some() {
            d.method = "CONNECT".into();
            b = b.method(Method::Connect);
        }
    }
    Ok((b, d))
}

/// A builder that was given something impossible answers with an error at the end, however it goes on,
/// and shows nothing of a message until then.
fn broken(cx: &mut Ctx) -> Res {
    cx.cov.lib_calls += 1;
    let at = cx.ch.below(4);
    let n = at + 1 + cx.ch.below(4);
    if cx.ch.chance(1, 2) {
        let mut b = Request::builder();
        for i in 0..n {
            if i == at {
                b = match cx.ch.below(5) {
                    0 => b.method(cx.ch.pick(&["G T", "", "GET ", "get", "GE\r\nT"])),
                    1 => b.url(cx.ch.pick(&["http://a:99999/", "http://[::1/", "http://a b/", "http://a:x/"])),
                    2 => b.url(cx.ch.pick(&["http://a:65536/", "http://a%0d%0ab/"]).to_string()),
                    3 => b.url(cx.ch.pick(&[&b"http://a:99999/"[..], b"http://a\r\n/", b"http://\\/"])),
                    _ => b.url("http://a:-1/".to_string()),
                };
                continue;
            }
            b = match cx.ch.below(6) {
                0 => b.method("POST"),
                1 => b.url("http://a.b/c"),
                2 => b.version(Version::Http10),
                3 => b.header("x-a", "v"),
                4 => b.headers(HeaderMap::new()),
                _ => b.upgrade_http2(webparse::http2::frame::Settings::default()),
            };
        }
        let dark = b.method_ref().is_none() && b.url_ref().is_none() && b.version_ref().is_none() && b.headers_ref().is_none() && b.headers_mut().is_none();
        ensure!(dark, "broken-builder", "a request builder with an error still shows a message");
        ensure!(b.body("x").is_err(), "broken-builder", "a request builder with an error makes a request");
    } else {
        let mut b = Response::builder();
        for i in 0..n {
            if i == at {
                b = match cx.ch.below(3) {
                    0 => b.status(cx.ch.pick(&[0u16, 1, 99, 1000, 65_535])),
                    1 => b.status(cx.ch.pick(&["", "20", "abc", "2000", "099", "20x"])),
                    _ => b.status(cx.ch.pick(&[&b""[..], b"99", b"+20", b"1000"])),
                };
                continue;
            }
            b = match cx.ch.below(5) {
                0 => b.status(204u16),
                1 => b.version(Version::Http10),
                2 => b.header("x-a", "v"),
                3 => b.headers(HeaderMap::new()),
                _ => b.extension(7u32),
            };
        }
        let dark = b.headers_ref().is_none() && b.headers_mut().is_none() && b.extensions_ref().is_none();
        ensure!(dark, "broken-builder", "a response builder with an error still shows a message");
        ensure!(b.body("x").is_err(), "broken-builder", "a response builder with an error makes a response");
    }
    cx.probe("broken_builder");
    Ok(())
}

/// Changes after the request exists.
fn edit_request<T: Serialize>(cx: &mut Ctx, r: &mut Request<T>, d: &mut Built) -> Res {
    let n = cx.ch.skew(4);
    for _ in 0..n {
        cx.cov.lib_calls += 1;
        match cx.ch.below(8) {
            0 if d.method != "CONNECT" => {
                d.method = cx.ch.pick(&["PATCH", "TRACE", "HEAD", "DELETE"]).to_string();
                r.set_method(Method::try_from(&d.method[..]).unwrap());
            }
            1 => {
                let (_, u) = gen_url(cx, false);
                d.path = u.path.clone();
                if cx.ch.chance(1, 2) {
                    r.set_path(u.path);
                } else {
                    r.url_mut().path = u.path;
                }
            }
            2 if d.method != "CONNECT" => {
                let (t, u) = gen_url(cx, true);
                take_url(d, &u);
                if let Some(c) = u.connect() {
                    if d.map.at("host").is_none() {
                        d.map.insert("Host", c.as_bytes());
                    }
                }
                r.set_url(lib_url(&t)?);
            }
            3 => {
                d.http10 = !d.http10;
                let v = if d.http10 { Version::Http10 } else { Version::Http11 };
                if cx.ch.chance(1, 2) {
                    r.set_version(v);
                } else {
                    r.parts_mut().version = v;
                }
            }
            4 => {
                let q = cx.ch.chance(1, 2).then(|| "k=v&x=%41 #\r\n".to_string());
                d.query = q.clone();
                r.url_mut().query = q;
            }
            5 => {
                d.scheme = "https".into();
                r.set_scheme(Scheme::Https);
                ensure!(*r.scheme() == Scheme::Https && r.get_scheme() == "https" && r.url().scheme == Scheme::Https, "scheme", "set to https and now {}", r.get_scheme());
            }
            _ => {
                let h = if cx.ch.chance(1, 2) { r.headers_mut() } else { r.headers_body_mut().0 };
                let op = rh::step(cx, h, &mut d.map)?;
                cx.ev(op, &[]);
            }
        }
    }
    Ok(())
}

/// What the receiver must see of the description.
fn expect_req(d: &Built) -> Option<Req> {
    let mut q = Req {
        method: d.method.clone(),
        path: d.path.clone(),
        query: d.query.clone(),
        domain: None,
        port: Some(0),
        scheme: "http".into(),
        user: None,
        pass: None,
        http10: d.http10,
        headers: d.map.0.clone(),
        wire: vec![],
        marks: vec![],
        body: vec![],
    };
    if d.method == "CONNECT" {
        q.path = "/".into();
        q.query = None;
        q.scheme = "".into();
        q.domain = d.domain.clone();
        q.port = d.port;
    } else if let Some(v) = d.map.get("host") {
        let h = String::from_utf8_lossy(v).to_string();
        let (host, port) = match h.rfind(':') {
            Some(i) if i > h.rfind(']').unwrap_or(0) => (h[..i].to_string(), h[i + 1..].parse::<u16>().ok()?),
            _ => (h.clone(), 80),
        };
        if host.contains(':') && !host.starts_with('[') {
            return None;
        }
        q.domain = Some(host);
        q.port = Some(port);
    }
    Some(q)
}

// ------------------------------------------------------------------ serialising

macro_rules! send {
    ($cx:expr, $o:expr, $all:ident) => {{
        $cx.cov.lib_calls += 1;
        let r: Result<Vec<u8>, WebError> = match $cx.ch.below(4) {
            0 => $o.$all(),
            1 => {
                let w = 1 + $cx.ch.skew(90) as usize;
                let mut b = SimSink::new(b"before", w);
                (|| {
                    let n = $o.encode_header(&mut b)?;
                    let k = $o.body_mut().serialize(&mut b)?;
                    Ok((n, k))
                })()
                .and_then(|(n, k)| if n + k + 6 == b.written().len() { Ok(b.written()[6..].to_vec()) } else { Err(WebError::Extension("count")) })
            }
            2 => {
                let mut b = BinaryMut::from(b"unsent ".to_vec());
                (|| {
                    let n = $o.encode_header(&mut b)?;
                    let k = $o.headers_body_mut().1.serialize(&mut b)?;
                    Ok((n, k))
                })()
                .and_then(|(n, k)| if n + k + 7 == b.chunk().len() { Ok(b.chunk()[7..].to_vec()) } else { Err(WebError::Extension("count")) })
            }
            _ => {
                // a copy with the body moved over
                let empty = Default::default();
                let mut c = $o.replace_clone(empty);
                c.$all()
            }
        };
        r
    }};
}

/// How the body is delimited.
#[derive(Clone, Copy, PartialEq)]
enum Framing {
    Length,
    Chunked,
}

fn frame_headers(cx: &mut Ctx, h: &mut HeaderMap, map: &mut RefMap, len: usize, f: Framing) {
    match f {
        Framing::Length => {
            h.remove(&"transfer-encoding");
            map.remove("transfer-encoding");
            match cx.ch.below(3) {
                0 => {
                    h.insert("Content-Length", len);
                }
                1 => {
                    h.insert(webparse::HeaderName::CONTENT_LENGTH, len as isize);
                }
                _ => {
                    h.insert("content-length".to_string(), len.to_string());
                }
            }
            map.insert("Content-Length", len.to_string().as_bytes());
        }
        Framing::Chunked => {
            h.remove(&"content-length");
            map.remove("content-length");
            h.insert(webparse::HeaderName::TRANSFER_ENCODING, "chunked");
            map.insert("transfer-encoding", b"chunked");
        }
    }
}

fn chunks(cx: &mut Ctx, body: &[u8], out: &mut Vec<u8>) -> Res {
    let mut p = 0;
    while p < body.len() {
        let k = 1 + cx.ch.skew((body.len() - p - 1) as u64) as usize;
        let mut b = BinaryMut::new();
        let _ = Helper::encode_chunk_data(&mut b, &body[p..p + k]);
        out.extend_from_slice(b.chunk());
        p += k;
    }
    let mut b = BinaryMut::new();
    let _ = Helper::encode_chunk_data(&mut b, b"");
    out.extend_from_slice(b.chunk());
    Ok(())
}

/// Moves the body through the conversions the API offers, ending with the octets on the wire.
fn finish_request(cx: &mut Ctx, b: http::request::Builder, d: &mut Built, body: &Body, f: Framing) -> Res<Result<Vec<u8>, WebError>> {
    fn go<T: Serialize + Default + Clone>(cx: &mut Ctx, b: http::request::Builder, x: T, d: &mut Built, body: &Body, f: Framing) -> Res<Result<Vec<u8>, WebError>> {
        ensure!(b.get_body_len() == b.headers_ref().map_or(0, |h| h.get_body_len()), "builder-view", "a body of {} for {:?}", b.get_body_len(), b.headers_ref().map(|h| h.to_string()));
        let mut r = b.body(x).map_err(|e| err("build", e))?;
        if d.map.at("user-agent").is_none() {
            d.map.insert("User-Agent", b"wenmeng");
        }
        edit_request(cx, &mut r, d)?;
        fix_special(r.headers_mut(), d, cx);
        let data = body.bytes();
        frame_headers(cx, r.headers_mut(), &mut d.map, data.len(), f);
        ensure!(f == Framing::Chunked || (r.get_body_len() == data.len() as isize), "body-len", "{} for {}", r.get_body_len(), data.len());
        ensure!(r.is_http2() == (r.version() == Version::Http2), "version", "is_http2 says {} of {}", r.is_http2(), r.version());
        if cx.ch.chance(1, 3) {
            // a copy is the message it was made from
            let c = r.replace_clone(T::default());
            let same = c.method() == r.method() && c.version() == r.version() && c.headers() == r.headers() && c.is_partial() == r.is_partial();
            ensure!(same, "copy-differs", "{} {} {:?}, from {} {} {:?}", c.method(), c.version(), c.headers().to_string(), r.method(), r.version(), r.headers().to_string());
            let key = |u: &Url| (u.scheme.as_str().to_string(), u.username.clone(), u.password.clone(), u.domain.clone(), u.port, u.path.clone(), u.query.clone());
            ensure!(key(c.url()) == key(r.url()), "copy-differs", "{:?}, from {:?}", c.url(), r.url());
            r = c;
        }
        if f == Framing::Chunked {
            let (mut r, _old) = r.into(());
            return Ok(match send!(cx, r, http1_data) {
                Ok(mut w) => {
                    chunks(cx, &data, &mut w)?;
                    Ok(w)
                }
                Err(e) => Err(e),
            });
        }
        match cx.ch.below(4) {
            0 => {
                // the body is handed out and put back as octets
                let (mut empty, x) = r.into(());
                let mut keep = BinaryMut::new();
                let mut x = x;
                x.serialize(&mut keep).map_err(|e| err("serialize", e))?;
                let (mut r, ()) = { let _ = empty.body_mut(); empty.into(keep.freeze()) };
                Ok(send!(cx, r, http1_data))
            }
            _ => Ok(send!(cx, r, http1_data)),
        }
    }
    with_body!(body, |x| go(cx, b, x, d, body, f))
}

/// A receiver cannot take apart an arbitrary Host; framing fields are set last.
fn fix_special(h: &mut HeaderMap, d: &mut Built, cx: &mut Ctx) {
    if d.map.at("host").is_some() && expect_req(d).is_none() || d.map.get("host").map_or(false, |v| v.is_empty() || v.iter().any(|b| !b.is_ascii_alphanumeric() && !b"[]:.-".contains(b))) {
        let v = gen_host(cx);
        h.insert("Host", v.clone());
        d.map.insert("Host", v.as_bytes());
    }
    for n in ["content-length", "transfer-encoding"] {
        h.remove(&n);
        d.map.remove(n);
    }
}

// ------------------------------------------------------------------ responses

struct RespDesc {
    status: u16,
    http10: bool,
    map: RefMap,
}

fn build_response(cx: &mut Ctx) -> Res<(http::response::Builder, RespDesc)> {
    let mut d = RespDesc { status: 200, http10: false, map: RefMap::default() };
    let mut b = match cx.ch.below(9) {
        0..=2 => Response::builder(),
        3 => http::response::Builder::new(),
        4 => { d.map.insert("content-type", b"text/plain; charset=utf-8"); Response::text() }
        5 => { d.map.insert("content-type", b"application/json; charset=utf-8"); Response::json() }
        k => {
            d.map.insert("content-type", b"text/html; charset=utf-8");
            match (k, cx.ch.below(2)) {
                (6, 0) => { d.status = 404; Response::status404() }
                (6, _) => { d.status = 500; Response::status500() }
                (_, 0) => { d.status = 502; Response::status502() }
                _ => { d.status = 503; Response::status503() }
            }
        }
    };
    for _ in 0..cx.ch.skew(7) {
        cx.cov.lib_calls += 1;
        b = match cx.ch.below(6) {
            0 => {
                d.status = 100 + cx.ch.below(900) as u16;
                match cx.ch.below(4) {
                    0 => b.status(d.status),
                    1 => b.status(StatusCode::from_u16(d.status).map_err(|e| err("status", e))?),
                    2 => b.status(&d.status.to_string()[..]),
                    _ => b.status(d.status.to_string().as_bytes()),
                }
            }
            1 => {
                d.http10 = cx.ch.chance(1, 3);
                b.version(if d.http10 { Version::Http10 } else { Version::Http11 })
            }
            2 => {
                let mut h = HeaderMap::new();
                for _ in 0..cx.ch.below(4) {
                    let (n, v) = gen_field(cx, &d.map);
                    with_name_value!(cx, &n, &v, |k, w| { h.push(k, w); });
                }
                for (n, v) in h.iter() {
                    d.map.insert(n.name(), v.as_bytes());
                }
                b.headers(h)
            }
            3 => {
                let h = b.headers_mut().unwrap();
                let op = rh::step(cx, h, &mut d.map)?;
                cx.ev(op, &[]);
                b
            }
            4 if cx.ch.chance(1, 3) => b.extension(cx.ch.below(100) as u32),
            _ => {
                let (n, v) = gen_field(cx, &d.map);
                d.map.insert(&n, &v.bytes());
                with_name_value!(cx, &n, &v, |k, w| b.header(k, w))
            }
        };
        ensure!(b.headers_ref().unwrap().len() == d.map.0.len(), "builder-view", "{:?}, set {:?}", b.headers_ref(), rh::dbg(&d.map.0));
    }
    let mut many = vec![];
    m::crowd(cx, &mut many);
    for (n, v) in many {
        d.map.insert(&n, &v);
        b = b.header(n, HeaderValue::from_bytes(&v));
    }
    Ok((b, d))
}

fn finish_response(cx: &mut Ctx, b: http::response::Builder, d: &mut RespDesc, body: &Body, f: Framing) -> Res<Result<Vec<u8>, WebError>> {
    fn go<T: Serialize + Default + Clone>(cx: &mut Ctx, b: http::response::Builder, x: T, d: &mut RespDesc, body: &Body, f: Framing) -> Res<Result<Vec<u8>, WebError>> {
        let late = cx.ch.chance(1, 5);
        ensure!(b.get_body_len() == b.headers_ref().map_or(0, |h| h.get_body_len()), "builder-view", "a body of {} for {:?}", b.get_body_len(), b.headers_ref().map(|h| h.to_string()));
        let mut r = b.body(if late { T::default() } else { x.clone() }).map_err(|e| err("build", e))?;
        if late {
            r.replace_body(x);
        }
        if d.map.at("server").is_none() {
            d.map.insert("Server", b"wenmeng");
        }
        for _ in 0..cx.ch.skew(3) {
            match cx.ch.below(3) {
                0 => {
                    d.status = 100 + cx.ch.below(900) as u16;
                    *r.status_mut() = StatusCode::from_u16(d.status).map_err(|e| err("status", e))?;
                }
                1 => {
                    d.http10 = !d.http10;
                    *r.version_mut() = if d.http10 { Version::Http10 } else { Version::Http11 };
                }
                _ => {
                    let h = if cx.ch.chance(1, 2) { r.headers_mut() } else { r.headers_body_mut().0 };
                    let op = rh::step(cx, h, &mut d.map)?;
                    cx.ev(op, &[]);
                }
            }
        }
        for n in ["content-length", "transfer-encoding"] {
            r.headers_mut().remove(&n);
            d.map.remove(n);
        }
        let data = body.bytes();
        frame_headers(cx, r.headers_mut(), &mut d.map, data.len(), f);
        ensure!(r.status().as_u16() == d.status && f == Framing::Chunked || r.get_body_len() == data.len() as isize, "body-len", "{} for {}", r.get_body_len(), data.len());
        if cx.ch.chance(1, 3) {
            // a copy is the message it was made from
            let c = r.replace_clone(T::default());
            let same = c.status() == r.status() && c.version() == r.version() && c.headers() == r.headers();
            ensure!(same, "copy-differs", "{} {} {:?}, from {} {} {:?}", c.status().as_u16(), c.version(), c.headers().to_string(), r.status().as_u16(), r.version(), r.headers().to_string());
            r = c;
        }
        if f == Framing::Chunked {
            let mut r = r.map(|_| ());
            return Ok(match send!(cx, r, httpdata) {
                Ok(mut w) => {
                    chunks(cx, &data, &mut w)?;
                    Ok(w)
                }
                Err(e) => Err(e),
            });
        }
        match cx.ch.below(6) {
            0 => {
                let mut r = r.into_binary();
                Ok(send!(cx, r, httpdata))
            }
            1 => {
                let (p, x) = r.into_parts();
                let mut r = Response::from_parts(p, x);
                Ok(send!(cx, r, httpdata))
            }
            2 => {
                let (r, x) = r.into(());
                let mut x = Response::new(x).into_body();
                let mut keep = BinaryMut::new();
                x.serialize(&mut keep).map_err(|e| err("serialize", e))?;
                let mut r = r.map(|_| keep);
                Ok(send!(cx, r, httpdata))
            }
            3 => {
                let mut b = BinaryMut::from(b"unsent ".to_vec());
                let n = match r.serialize(&mut b) {
                    Ok(n) => n,
                    Err(e) => return Ok(Err(e)),
                };
                ensure!(n + 7 == b.chunk().len(), "count-mismatch", "serialize reported {} and wrote {}", n, b.chunk().len() - 7);
                Ok(Ok(b.chunk()[7..].to_vec()))
            }
            _ => Ok(send!(cx, r, httpdata)),
        }
    }
    with_body!(body, |x| go(cx, b, x, d, body, f))
}

// ------------------------------------------------------------------ the exchange

/// Takes a body off the receive buffer; None while it is not all there.
pub fn take_body(cx: &mut Ctx, rx: &[u8], h: &HeaderMap) -> Res<Option<(Vec<u8>, usize)>> {
    if !h.is_chunked() {
        let l = h.get_body_len();
        ensure!(l >= 0, "body-length", "{}", l);
        let l = l as usize;
        return Ok(if rx.len() < l { None } else { Some((rx[..l].to_vec(), l)) });
    }
    let mut p = 0;
    let mut body = vec![];
    loop {
        cx.cov.lib_calls += 1;
        let mut b = SimBuf::new(&rx[p..]);
        match Helper::parse_chunk_data(&mut b) {
            Err(e) if e.is_partial() => return Ok(None),
            Err(e) => return viol("chunk-error", format!("{:?} for {}", e, show(&rx[p..]))),
            Ok((a, n)) => {
                body.extend_from_slice(&rx[p + a..p + a + n]);
                let mut rest = SimBuf::new(&rx[p + a + n..]);
                Helper::skip_new_line(&mut rest).map_err(|e| err("chunk", e))?;
                p += a + n + rest.pos();
                if n == 0 {
                    return Ok(Some((body, p)));
                }
            }
        }
    }
}

pub fn c21_exchange(cx: &mut Ctx) -> Res {
    if cx.ch.chance(1, 8) {
        broken(cx)?;
    }
    let n = 1 + cx.ch.below(3) as usize;
    let mut up = Link::new(cx);
    let mut down = Link::new(cx);
    // pipelining: requests are written before their turn to be answered
    let pipelined = cx.ch.chance(1, 2);
    let mut reqs = vec![];
    let mut stream = vec![];
    let mut marks = vec![];
    for _ in 0..n {
        let (b, mut d) = build_request(cx)?;
        let body = gen_body(cx);
        let f = if cx.ch.chance(1, 3) { Framing::Chunked } else { Framing::Length };
        let w = match finish_request(cx, b, &mut d, &body, f)? {
            Ok(w) => w,
            Err(e) => return viol("encode-error", format!("{:?} for {:?}", e, d)),
        };
        cx.bytes_ev("request", &w);
        let mut e = match expect_req(&d) {
            Some(e) => e,
            None => return viol("harness", format!("{:?}", d)),
        };
        e.body = body.bytes();
        e.wire = w.clone();
        marks.push(stream.len());
        stream.push(w);
        reqs.push(e);
    }
    let _ = marks;
    let mut srx: Vec<u8> = vec![];
    let mut crx: Vec<u8> = vec![];
    let mut sreq = Request::new();
    let mut cresp = Response::new(());
    let reuse = cx.ch.chance(1, 2);
    let (mut sdone, mut cdone) = (0, 0);
    let mut resps: Vec<Resp> = vec![];
    enum Ev {
        Up(Vec<u8>),
        Down(Vec<u8>),
    }
    let mut q: Queue<Ev> = Queue::new();
    let first: Vec<u8> = if pipelined { stream.concat() } else { stream[0].clone() };
    for (at, s) in up.segments(cx, &first, &[]) {
        q.push(cx, at, Ev::Up(s));
    }
    while let Some(ev) = q.pop(cx) {
        cx.cov.deliveries += 1;
        match ev {
            Ev::Up(s) => {
                cx.ev("up", &[s.len() as u64]);
                srx.extend_from_slice(&s);
                while sdone < n && !srx.is_empty() {
                    if !reuse {
                        sreq = Request::new();
                    }
                    let kind = cx.ch.below(5);
                    let used = match parse_any_req(cx, &mut sreq, &srx, kind)? {
                        Ok(u) => u,
                        Err(e) if e.is_partial() => break,
                        Err(e) => return viol("peer-refuses", format!("{:?} for {}", e, show(&srx))),
                    };
                    check_req(&sreq, &reqs[sdone])?;
                    independent_head(&srx[..used], &reqs[sdone].headers)?;
                    let (body, k) = match take_body(cx, &srx[used..], sreq.headers())? {
                        Some(x) => x,
                        None => break,
                    };
                    ensure!(body == reqs[sdone].body, "body", "request body {} arrived as {}", show(&reqs[sdone].body), show(&body));
                    srx.drain(..used + k);
                    sdone += 1;
                    cx.message();
                    // answer
                    let (b, mut d) = build_response(cx)?;
                    let body = gen_body(cx);
                    let f = if cx.ch.chance(1, 3) { Framing::Chunked } else { Framing::Length };
                    let w = match finish_response(cx, b, &mut d, &body, f)? {
                        Ok(w) => w,
                        Err(e) => return viol("encode-error", format!("{:?} for a response {} {:?}", e, d.status, rh::dbg(&d.map.0))),
                    };
                    cx.bytes_ev("response", &w);
                    for (at, s) in down.segments(cx, &w, &[]) {
                        q.push(cx, at, Ev::Down(s));
                    }
                    resps.push(Resp { status: d.status, http10: d.http10, headers: d.map.0, wire: w, marks: vec![], body: body.bytes() });
                }
            }
            Ev::Down(s) => {
                cx.ev("down", &[s.len() as u64]);
                crx.extend_from_slice(&s);
                while cdone < n && !crx.is_empty() {
                    if !reuse {
                        cresp = Response::new(());
                    }
                    let kind = cx.ch.below(5);
                    let used = match parse_any_resp(cx, &mut cresp, &crx, kind)? {
                        Ok(u) => u,
                        Err(e) if e.is_partial() => break,
                        Err(e) => return viol("peer-refuses", format!("{:?} for {}", e, show(&crx))),
                    };
                    check_resp(&cresp, &resps[cdone])?;
                    independent_head(&crx[..used], &resps[cdone].headers)?;
                    let (body, k) = match take_body(cx, &crx[used..], cresp.headers())? {
                        Some(x) => x,
                        None => break,
                    };
                    ensure!(body == resps[cdone].body, "body", "response body {} arrived as {}", show(&resps[cdone].body), show(&body));
                    crx.drain(..used + k);
                    cdone += 1;
                    cx.message();
                    if !pipelined && cdone < n {
                        let w = stream[cdone].clone();
                        for (at, s) in up.segments(cx, &w, &[]) {
                            q.push(cx, at, Ev::Up(s));
                        }
                    }
                }
            }
        }
    }
    ensure!(sdone == n && cdone == n && srx.is_empty() && crx.is_empty(), "not-delivered", "{} requests and {} responses of {}; left {} / {}", sdone, cdone, n, show(&srx), show(&crx));
    Ok(())
}

fn independent_head(head: &[u8], want: &[(String, Vec<u8>)]) -> Res {
    let raw = match m::read_head(head) {
        Read::Ok(r, n) if n == head.len() => r,
        other => return viol("independent-read", format!("an independent reader reads {} as {:?}", show(head), other)),
    };
    let same = raw.headers.len() == want.len() && raw.headers.iter().zip(want).all(|(a, b)| String::from_utf8_lossy(&a.0).eq_ignore_ascii_case(&b.0) && a.1 == b.1);
    ensure!(same, "independent-headers", "{} does not carry {:?}", show(head), rh::dbg(want));
    Ok(())
}

// ------------------------------------------------------------------ content that cannot be said

/// An application passes on text it got from elsewhere: a message either goes out meaning exactly what was
/// set, or the encoder reports an error.
pub fn c21_injected(cx: &mut Ctx) -> Res {
    let evil = cx.ch.pick(&["\r\nX: y", "\r\n\r\nGET /x HTTP/1.1\r\n\r\n", "\n", "\r", "\0", " ", "\t", ":", "a b", "é", "\u{7f}", "\x01", "\r\n y", "/", "?", "#", "@", "\\", " HTTP/1.1\r\nHost: b\r\n\r\n"]);
    let pre = cx.ch.pick(&["", "a", "abc", "x-y"]);
    let post = cx.ch.pick(&["", "b", "z: 1"]);
    let text = format!("{}{}{}", pre, evil, post);
    cx.fault("injected_text");
    let place = cx.ch.below(7);
    cx.ev("inject", &[place]);
    cx.note(|| format!("place {} text {:?}", place, text));
    let response = place < 2 && cx.ch.chance(1, 2);
    let mut map = RefMap::default();
    let mut d = Built::new();
    let bad_host = |s: &str| s.is_empty() || s.bytes().any(|b| b <= 32 || b == 127 || b"/?#@:\\".contains(&b));
    // the value or name set, through a drawn way in
    let mut fields: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..cx.ch.below(3) {
        let (n, v) = loop {
            let n = m::gen_name(cx);
            if no_special(&n) {
                break (n, m::gen_value(cx));
            }
        };
        fields.push((n, v));
    }
    let (name, value): (String, Vec<u8>) = match place {
        0 => (text.clone(), m::gen_value(cx)),
        _ => ("X-Note".into(), text.clone().into_bytes()),
    };
    fn put(cx: &mut Ctx, h: &mut HeaderMap, n: &str, v: &[u8]) {
        let v = webparse::HeaderValue::from_bytes(v);
        match cx.ch.below(3) {
            0 => h.insert(n.to_string(), v),
            1 => h.push(webparse::HeaderName::Value(n.to_string()), v),
            _ => h.insert(webparse::HeaderName::from_bytes(n.as_bytes()).unwrap(), v),
        };
    }
    let mut h = HeaderMap::new();
    for (n, v) in &fields {
        put(cx, &mut h, n, v);
        map.insert(n, v);
    }
    // `push` joins values of one name; the generator may repeat names
    map.0 = h.iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
    if place < 2 {
        if map.at(&name).is_some() {
            return Ok(());
        }
        put(cx, &mut h, &name, &value);
        if h.get_option_value(&name).is_some() {
            map.insert(&name, &value);
        } else {
            cx.probe("refused_on_insert");
            return Ok(());
        }
    }
    let out = if response {
        let b = Response::builder().status(200u16).headers(h);
        let mut r = b.body("body").map_err(|e| err("build", e))?;
        map.0 = r.headers().iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
        send!(cx, r, httpdata)
    } else {
        let mut r = Request::builder().headers(h).body("body").map_err(|e| err("build", e))?;
        match place {
            2 => {
                // the host of a URL
                let u = Url::builder().scheme("http").and(|b| b.domain(text.clone()).port(81).path("/p".to_string()).build());
                let u = match u {
                    Ok(u) => u,
                    Err(_) => {
                        cx.probe("refused_on_build");
                        return Ok(());
                    }
                };
                r.set_url(u);
                d.domain = Some(text.clone());
                d.port = Some(81);
                d.path = "/p".into();
            }
            3 => {
                // the same, percent-encoded in text
                let enc: String = text.bytes().map(|b| format!("%{:02X}", b)).collect();
                let u = match Url::parse(format!("http://h{}:81/p", enc).into_bytes()) {
                    Ok(u) => u,
                    Err(_) => {
                        cx.probe("refused_on_build");
                        return Ok(());
                    }
                };
                r.set_url(u);
                d.domain = Some(format!("h{}", text));
                d.port = Some(81);
                d.path = "/p".into();
            }
            4 => {
                r.set_path(format!("/{}", text));
                d.path = format!("/{}", text);
            }
            5 => {
                r.url_mut().query = Some(text.clone());
                d.query = Some(text.clone());
            }
            6 => {
                r.set_method(Method::Extension(text.clone()));
                d.method = text.clone();
            }
            _ => {}
        }
        if (place == 2 || place == 3) && cx.ch.chance(1, 2) {
            r.set_method(Method::Connect);
            d.method = "CONNECT".into();
        }
        map.0 = r.headers().iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
        send!(cx, r, http1_data)
    };
    let out = match out {
        Ok(o) => o,
        Err(WebError::Extension("count")) => return viol("count-mismatch", "the reported count is not what was written"),
        Err(_) => {
            cx.probe("refused_on_encode");
            // refusing is right only for what cannot be said
            let ok_name = place != 0 || name.bytes().any(|b| !m::is_tchar(b)) || name.is_empty();
            let ok_value = place != 1 || value.iter().any(|b| b"\r\n\0".contains(b) || (*b < 32 && *b != b'\t') || *b == 127);
            ensure!(ok_name && ok_value && place != 4 && place != 5, "needless-refusal", "place {} text {:?}", place, text);
            cx.message();
            return Ok(());
        }
    };
    cx.bytes_ev("wire", &out);
    let mut want: Vec<(String, Vec<u8>)> = vec![];
    for (n, v) in &map.0 {
        if n.starts_with(':') {
            // pseudo fields have no place in HTTP/1: they may be left out
            continue;
        }
        let ws = |b: &&u8| **b == b' ' || **b == b'\t';
        let a = v.iter().take_while(ws).count();
        let z = v[a..].iter().rev().take_while(ws).count();
        want.push((n.clone(), v[a..v.len() - z].to_vec()));
    }
    // exactly one message, saying what was set
    let head_len = match m::read_head(&out) {
        Read::Ok(_, n) => n,
        o => return viol("injected", format!("{} reads as {:?}", show(&out), o)),
    };
    ensure!(&out[head_len..] == b"body", "injected", "the message ends early: {}", show(&out));
    let raw = match m::read_head(&out) {
        Read::Ok(r, _) => r,
        _ => unreachable!(),
    };
    let same = raw.headers.len() == want.len() && raw.headers.iter().zip(&want).all(|(a, b)| a.0.eq_ignore_ascii_case(b.0.as_bytes()) && a.1 == b.1);
    ensure!(same, "injected", "{} does not carry {:?}", show(&out), rh::dbg(&want));
    if !response {
        let parts: Vec<&[u8]> = raw.line.split(|b| *b == b' ').collect();
        ensure!(parts.len() == 3 && parts[2] == b"HTTP/1.1", "injected", "request line {}", show(&raw.line));
        ensure!(parts[0] == d.method.as_bytes() && !d.method.is_empty() && d.method.bytes().all(m::is_tchar), "injected", "method {} for {:?}", show(parts[0]), d.method);
        ensure!(parts[1].iter().all(|b| *b > 32 && *b != 127), "injected", "target {}", show(parts[1]));
        if d.method == "CONNECT" {
            let dom = d.domain.clone().unwrap();
            ensure!(!bad_host(&dom), "injected", "CONNECT to {:?}", dom);
            ensure!(parts[1] == format!("{}:81", dom).as_bytes(), "injected", "CONNECT {}", show(parts[1]));
        } else {
            let (p, q) = match parts[1].iter().position(|b| *b == b'?') {
                Some(i) => (&parts[1][..i], Some(&parts[1][i + 1..])),
                None => (parts[1], None),
            };
            ensure!(!parts[1].contains(&b'#'), "injected", "target {}", show(parts[1]));
            ensure!(m::pct_decode(p).as_deref() == Some(d.path.as_bytes()), "injected", "path {:?} sent as {}", d.path, show(parts[1]));
            ensure!(q.map(|q| m::pct_decode(q).unwrap_or_default()) == d.query.as_ref().map(|q| q.as_bytes().to_vec()), "injected", "query {:?} sent as {}", d.query, show(parts[1]));
        }
        // a host that came percent-encoded in a URL is not the caller's own text
        if place == 3 {
            let dom = d.domain.clone().unwrap();
            ensure!(!bad_host(&dom), "injected", "Host from {:?}: {}", dom, show(&out));
        }
    }
    cx.message();
    Ok(())
}

/// `Url::builder()` consumes itself; this lets a chain end in another expression.
trait And: Sized {
    fn and<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> And for T {}
