//! HTTP/1 messages as structure, the harness' own writer, and an independent reader.
use crate::ctx::Ctx;

pub const METHODS: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"];

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub method: String,
    /// decoded path and query, as the library presents them
    pub path: String,
    pub query: Option<String>,
    pub domain: Option<String>,
    pub port: Option<u16>,
    pub scheme: String,
    pub user: Option<String>,
    pub pass: Option<String>,
    pub http10: bool,
    /// (name, value) with distinct names, in order, as a receiver should see them
    pub headers: Vec<(String, Vec<u8>)>,
    /// head bytes on the wire, and offsets of line ends
    pub wire: Vec<u8>,
    pub marks: Vec<usize>,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub http10: bool,
    pub headers: Vec<(String, Vec<u8>)>,
    pub wire: Vec<u8>,
    pub marks: Vec<usize>,
    pub body: Vec<u8>,
}

const NAMES: [&str; 26] = [
    "Accept", "X-A", "accept", "User-Agent", "content-type", "Cookie", "X-Forwarded-For", "accept-charset", "ETag", "a",
    "Z9", "x-b_c", "!#$%&'*+-.^_`|~", "Referer", "Accept-Encoding", "cache-control", "X-Very-Long-Header-Name-For-Testing-Purposes", "If-None-Match", "Origin", "Upgrade",
    "a^b", "a~b", "x@y", "x`y", "Via", "date",
];
/// Every registered field name the library knows, except those that change how a message is framed.
pub const REGISTERED: [&str; 73] = [
    "accept", "accept-charset", "accept-encoding", "accept-language", "accept-ranges", "access-control-allow-credentials", "access-control-allow-headers", "access-control-allow-methods",
    "access-control-allow-origin", "access-control-expose-headers", "access-control-max-age", "access-control-request-headers", "access-control-request-method", "age", "allow", "alt-svc",
    "authorization", "cache-control", "cache-status", "cdn-cache-control", "content-disposition", "content-encoding", "content-language", "content-location", "content-range",
    "content-security-policy", "content-security-policy-report-only", "content-type", "dnt", "date", "etag", "expect", "expires", "forwarded", "from", "if-match", "if-modified-since",
    "if-none-match", "if-range", "if-unmodified-since", "last-modified", "link", "location", "max-forwards", "origin", "pragma", "proxy-authenticate", "proxy-authorization", "public-key-pins",
    "public-key-pins-report-only", "range", "referer", "referrer-policy", "refresh", "retry-after", "sec-websocket-accept", "sec-websocket-extensions", "sec-websocket-key",
    "sec-websocket-protocol", "sec-websocket-version", "server", "set-cookie", "strict-transport-security", "user-agent", "upgrade-insecure-requests", "vary", "via", "warning",
    "www-authenticate", "x-content-type-options", "x-dns-prefetch-control", "x-frame-options", "x-xss-protection",
];
const NAME_CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";

pub fn lower(s: &str) -> String {
    s.to_ascii_lowercase()
}

pub fn gen_name(cx: &mut Ctx) -> String {
    if cx.ch.chance(1, 6) {
        let n = cx.ch.pick(&REGISTERED);
        return crate::model::headers::recase(cx, n);
    }
    if cx.ch.chance(1, 4) {
        let n = if cx.ch.chance(1, 16) { 60 + cx.ch.below(240) as usize } else { 1 + cx.ch.skew(20) as usize };
        (0..n).map(|_| cx.ch.pick(NAME_CHARS) as char).collect()
    } else {
        // '@' is not a token character; it is in the table only for the malformed generator
        let n = cx.ch.pick(&NAMES);
        n.replace('@', "^")
    }
}

/// A long text made from few choices, for the sizes at which limits and integer widths change.
pub fn bulk(cx: &mut Ctx) -> String {
    let n = match cx.ch.below(5) {
        0 | 1 => cx.ch.pick(&[63usize, 64, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025]),
        2 => 300 + cx.ch.below(4000) as usize,
        3 => cx.ch.pick(&[2047usize, 2048, 4095, 4096, 4097, 8190, 8191, 8192, 8193]),
        _ => cx.ch.pick(&[10_000usize, 16_383, 16_384, 16_385, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 100_000, 140_000]),
    };
    let mut x = cx.ch.below(1 << 16);
    cx.probe("bulk_text");
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            b"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[(x >> 40) as usize & 63] as char
        })
        .collect()
}

/// A field value without leading or trailing whitespace; any byte but CR, LF and NUL.
pub fn gen_value(cx: &mut Ctx) -> Vec<u8> {
    if cx.ch.chance(1, 200) {
        return bulk(cx).into_bytes();
    }
    let n = match cx.ch.below(6) {
        0 => 0,
        1..=3 => 1 + cx.ch.skew(12) as usize,
        4 => 1 + cx.ch.skew(60) as usize,
        _ => 1 + cx.ch.skew(300) as usize,
    };
    let style = cx.ch.below(4);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match style {
            0 | 1 => cx.ch.pick(b"abc0189;,=: /\"-_()?@[]%"),
            2 => 0x20 + cx.ch.below(0x5f) as u8,
            _ => {
                let b = cx.ch.below(256) as u8;
                if b == b'\r' || b == b'\n' || b == 0 { b'x' } else { b }
            }
        })
        .collect();
    let ws = |b: &u8| *b == b' ' || *b == b'\t';
    if v.first().map(ws).unwrap_or(false) {
        v[0] = b'v';
    }
    if v.last().map(ws).unwrap_or(false) {
        let l = v.len() - 1;
        v[l] = b'w';
    }
    v
}

fn pct(out: &mut Vec<u8>, b: u8, upper: bool) {
    let d: &[u8; 16] = if upper { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    out.push(b'%');
    out.push(d[(b >> 4) as usize]);
    out.push(d[(b & 15) as usize]);
}

/// Generates decoded text and its wire form (some characters percent-encoded).
pub fn gen_escaped(cx: &mut Ctx, max: u64, plain: &[u8], must_escape: &[u8]) -> (String, Vec<u8>) {
    let n = cx.ch.skew(max) as usize;
    let mut text = String::new();
    let mut wire = vec![];
    for _ in 0..n {
        match cx.ch.below(8) {
            0..=4 => {
                let b = cx.ch.pick(plain);
                text.push(b as char);
                wire.push(b);
            }
            5 => {
                let b = cx.ch.pick(plain);
                text.push(b as char);
                let up = cx.ch.chance(1, 2);
                pct(&mut wire, b, up);
            }
            6 => {
                let b = cx.ch.pick(must_escape);
                text.push(b as char);
                let up = cx.ch.chance(1, 2);
                pct(&mut wire, b, up);
            }
            _ => {
                let c = cx.ch.pick(&['é', '中', '😀', '\u{80}', '\u{7f}']);
                let mut b = [0u8; 4];
                for x in c.encode_utf8(&mut b).bytes() {
                    pct(&mut wire, x, true);
                }
                text.push(c);
            }
        }
    }
    (text, wire)
}

pub const PATH_PLAIN: &[u8] = b"az/AZ09-._~!$&'()*+,;=:@/[]bcdefghijklmnopqrstuvwxyBCDEFGHIJKLMNOPQRSTUVWXY12345678";
pub const QUERY_PLAIN: &[u8] = b"az/?AZ09-._~!$&'()*+,;=:@/?[]bcdefghijklmnopqrstuvwxyBCDEFGHIJKLMNOPQRSTUVWXY12345678";
pub const MUST: &[u8] = b" \r\n\t%#?\"<>\\^`{|}\0";

pub fn gen_host(cx: &mut Ctx) -> String {
    match cx.ch.below(5) {
        0 => "a".into(),
        1 => "example.com".into(),
        2 => "127.0.0.1".into(),
        3 => "[::1]".into(),
        _ => "www.foo-bar.example.org".into(),
    }
}

fn port_is_known(scheme: &str) -> bool {
    ["http", "https", "ws", "wss", "ftp"].contains(&scheme)
}

pub fn gen_req(cx: &mut Ctx, allow_connect: bool, allow_absolute: bool) -> Req {
    gen_req_with(cx, allow_connect, allow_absolute, &[])
}

/// `extra` fields (framing) are placed among the generated ones.
pub fn gen_req_with(cx: &mut Ctx, allow_connect: bool, allow_absolute: bool, extra: &[(String, Vec<u8>)]) -> Req {
    let mut method = cx.ch.pick(&METHODS).to_string();
    if method == "CONNECT" && !allow_connect {
        method = "GET".into();
    }
    let mut target = vec![];
    let (mut path, mut query, mut domain, mut port, mut scheme, mut user, mut pass) = (String::from("/"), None, None, None, String::from("http"), None, None);
    let mut absolute = false;
    if method == "CONNECT" {
        let h = gen_host(cx);
        target.extend(h.bytes());
        if cx.ch.chance(3, 4) {
            let p = cx.ch.pick(&[443u16, 80, 1, 65535, 8080]);
            target.extend(format!(":{}", p).bytes());
            port = Some(p);
        } else {
            port = Some(80);
        }
        domain = Some(h);
        scheme = String::new();
    } else {
        if allow_absolute && cx.ch.chance(1, 5) {
            absolute = true;
            scheme = cx.ch.pick(&["http", "https", "ws", "wss", "ftp", "zz", "coap+tcp", "z39.50r"]).to_string();
            // schemes are case-insensitive
            target.extend(if port_is_known(&scheme) && cx.ch.chance(1, 8) { scheme.to_ascii_uppercase() } else { scheme.clone() }.bytes());
            target.extend(b"://");
            if cx.ch.chance(1, 4) {
                let (u, uw) = gen_escaped(cx, 8, b"aZ09-._~", b" %:@/");
                let (p, pw) = gen_escaped(cx, 8, b"aZ09-._~", b" %:@/");
                target.extend(uw);
                target.push(b':');
                target.extend(pw);
                target.push(b'@');
                user = Some(u);
                pass = Some(p);
            }
            let h = gen_host(cx);
            target.extend(h.bytes());
            domain = Some(h);
            if cx.ch.chance(1, 3) {
                let p = cx.ch.pick(&[8080u16, 1, 65535, 80, 443]);
                target.extend(format!(":{}", p).bytes());
                port = Some(p);
            } else {
                port = match scheme.as_str() { "https" | "wss" => Some(443), "ftp" => Some(21), "http" | "ws" => Some(80), _ => None };
                if cx.ch.chance(1, 8) {
                    target.push(b':');
                }
            }
        }
        if method == "OPTIONS" && !absolute && cx.ch.chance(1, 4) {
            path = "*".into();
            target.push(b'*');
        } else if absolute && cx.ch.chance(1, 5) {
            // an empty path is the root
        } else {
            let (t, w) = gen_escaped(cx, 30, PATH_PLAIN, MUST);
            path = format!("/{}", t);
            target.push(b'/');
            target.extend(w);
            if cx.ch.chance(1, 60) {
                let b = bulk(cx);
                path.push_str(&b);
                target.extend(b.bytes());
            }
        }
        if path != "*" && cx.ch.chance(1, 3) {
            let (t, w) = gen_escaped(cx, 20, QUERY_PLAIN, MUST);
            target.push(b'?');
            target.extend(w);
            let b = if cx.ch.chance(1, 40) { bulk(cx) } else { String::new() };
            target.extend(b.bytes());
            query = Some(t + &b);
        }
    }
    let http10 = cx.ch.chance(1, 8);
    // headers
    let mut sent: Vec<(String, Vec<u8>)> = vec![];
    let host_at = cx.ch.below(4);
    let n = cx.ch.skew(8) as usize;
    let mut host = None;
    for i in 0..=n {
        if i as u64 == host_at.min(n as u64) && cx.ch.chance(3, 4) {
            let mut v = gen_host(cx);
            let mut hp = 80u16;
            let hd = v.clone();
            if cx.ch.chance(1, 3) {
                hp = cx.ch.pick(&[8080u16, 80, 65535]);
                v = format!("{}:{}", v, hp);
            } else if cx.ch.chance(1, 10) {
                v.push(':');
            }
            let nm = cx.ch.pick(&["Host", "host", "HOST"]);
            host = Some((hd, hp));
            sent.push((nm.to_string(), v.into_bytes()));
        }
        if i < n {
            let nm = gen_name(cx);
            if lower(&nm) == "host" {
                continue;
            }
            let v = gen_value(cx);
            sent.push((nm, v));
        }
    }
    crowd(cx, &mut sent);
    place(cx, &mut sent, extra);
    if !absolute && method != "CONNECT" {
        if let Some((d, p)) = host {
            domain = Some(d);
            port = Some(p);
        } else {
            port = Some(0);
        }
    }
    let (wire, marks) = write_head(cx, &format!("{} ", method), &target, &format!(" HTTP/1.{}", if http10 { 0 } else { 1 }), &sent);
    Req { method, path, query, domain, port, scheme, user, pass, http10, headers: fold(&sent), wire, marks, body: vec![] }
}

/// Now and then a message has very many fields.
pub fn crowd(cx: &mut Ctx, sent: &mut Vec<(String, Vec<u8>)>) {
    if !cx.ch.chance(1, 120) {
        return;
    }
    let n = cx.ch.pick(&[20, 40, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300]);
    cx.probe("many_fields");
    for i in 0..n {
        sent.push((format!("x-{}", i), format!("{}", i).into_bytes()));
    }
}

fn place(cx: &mut Ctx, sent: &mut Vec<(String, Vec<u8>)>, extra: &[(String, Vec<u8>)]) {
    for e in extra {
        sent.retain(|s| lower(&s.0) != lower(&e.0));
        let i = cx.ch.below(sent.len() as u64 + 1) as usize;
        sent.insert(i, e.clone());
    }
}

/// Last value wins for a repeated name; the first occurrence keeps name and position.
pub fn fold(sent: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    for (n, v) in sent {
        if let Some(e) = out.iter_mut().find(|e| lower(&e.0) == lower(n)) {
            e.1 = v.clone();
        } else {
            out.push((n.clone(), v.clone()));
        }
    }
    out
}

fn write_head(cx: &mut Ctx, a: &str, target: &[u8], b: &str, headers: &[(String, Vec<u8>)]) -> (Vec<u8>, Vec<usize>) {
    let mut w = vec![];
    let mut marks = vec![];
    let lf_only = cx.ch.chance(1, 8);
    let pre = if cx.ch.chance(1, 8) { 1 + cx.ch.below(2) } else { 0 };
    let mut eol = |cx: &mut Ctx, w: &mut Vec<u8>| {
        if !(lf_only && cx.ch.chance(1, 2)) {
            w.push(b'\r');
        }
        w.push(b'\n');
        marks.push(w.len());
    };
    for _ in 0..pre {
        eol(cx, &mut w);
    }
    w.extend(a.bytes());
    w.extend(target);
    w.extend(b.bytes());
    eol(cx, &mut w);
    let pads = cx.ch.chance(1, 3);
    for (n, v) in headers {
        w.extend(n.bytes());
        w.push(b':');
        if pads {
            let k = cx.ch.below(4);
            for _ in 0..k {
                w.push(cx.ch.pick(b" \t"));
            }
        } else {
            w.push(b' ');
        }
        w.extend(v);
        if pads {
            let k = cx.ch.below(3);
            for _ in 0..k {
                w.push(cx.ch.pick(b" \t"));
            }
        }
        eol(cx, &mut w);
    }
    eol(cx, &mut w);
    (w, marks)
}

const REASONS: [&[u8]; 7] = [b"OK", b"Not Found", b"", b"I'm a teapot", b"x", b"R\xc3\xa9ponse \xff", b"a\tb"];

pub fn gen_resp(cx: &mut Ctx) -> Resp {
    gen_resp_with(cx, &[])
}

pub fn gen_resp_with(cx: &mut Ctx, extra: &[(String, Vec<u8>)]) -> Resp {
    let status = match cx.ch.below(4) {
        0 => 200,
        1 => cx.ch.pick(&[100u16, 101, 204, 301, 304, 400, 404, 418, 500, 503, 511]),
        _ => 100 + cx.ch.below(900) as u16,
    };
    let http10 = cx.ch.chance(1, 8);
    let n = cx.ch.skew(8) as usize;
    let mut sent = vec![];
    for _ in 0..n {
        let nm = gen_name(cx);
        let v = gen_value(cx);
        sent.push((nm, v));
    }
    crowd(cx, &mut sent);
    place(cx, &mut sent, extra);
    let long;
    let mut reason = cx.ch.pick(&REASONS);
    if cx.ch.chance(1, 100) {
        long = bulk(cx).into_bytes();
        reason = &long;
    }
    let (wire, marks) = write_head(cx, &format!("HTTP/1.{} {} ", if http10 { 0 } else { 1 }, status), reason, "", &sent);
    Resp { status, http10, headers: fold(&sent), wire, marks, body: vec![] }
}

// ------------------------------------------------------------------ independent reader

#[derive(Debug, Clone, PartialEq)]
pub enum Read<T> {
    Partial,
    Bad(&'static str),
    Ok(T, usize),
}

#[derive(Debug, Clone, PartialEq)]
pub struct RawHead {
    pub line: Vec<u8>,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
}

pub fn is_tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

/// Splits a head into lines and fields. Lines end with CRLF or LF. Names are tokens; optional spaces
/// before the colon are tolerated (the library tolerates them); values are trimmed.
pub fn read_head(buf: &[u8]) -> Read<RawHead> {
    let mut p = 0;
    // leading empty lines
    loop {
        match buf.get(p) {
            None => return Read::Partial,
            Some(b'\n') => p += 1,
            Some(b'\r') => match buf.get(p + 1) {
                None => return Read::Partial,
                Some(b'\n') => p += 2,
                _ => return Read::Bad("bare CR before start line"),
            },
            _ => break,
        }
    }
    let mut lines: Vec<&[u8]> = vec![];
    loop {
        let start = p;
        loop {
            match buf.get(p) {
                None => return Read::Partial,
                Some(b'\n') => {
                    lines.push(&buf[start..p]);
                    p += 1;
                    break;
                }
                Some(b'\r') => match buf.get(p + 1) {
                    None => return Read::Partial,
                    Some(b'\n') => {
                        lines.push(&buf[start..p]);
                        p += 2;
                        break;
                    }
                    _ => return Read::Bad("bare CR"),
                },
                _ => p += 1,
            }
        }
        if lines.last().unwrap().is_empty() {
            lines.pop();
            break;
        }
    }
    if lines.is_empty() {
        return Read::Bad("no start line");
    }
    let mut headers = vec![];
    for l in &lines[1..] {
        let c = match l.iter().position(|b| *b == b':') {
            Some(c) => c,
            None => return Read::Bad("no colon in field line"),
        };
        let mut n = &l[..c];
        while n.last() == Some(&b' ') {
            n = &n[..n.len() - 1];
        }
        if n.is_empty() || !n.iter().all(|b| is_tchar(*b)) {
            return Read::Bad("illegal field name");
        }
        let mut v = &l[c + 1..];
        while v.first().map(|b| *b == b' ' || *b == b'\t').unwrap_or(false) {
            v = &v[1..];
        }
        while v.last().map(|b| *b == b' ' || *b == b'\t').unwrap_or(false) {
            v = &v[..v.len() - 1];
        }
        headers.push((n.to_vec(), v.to_vec()));
    }
    Read::Ok(RawHead { line: lines[0].to_vec(), headers }, p)
}

pub fn pct_decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            let h = (s.get(i + 1)?, s.get(i + 2)?);
            let d = |b: u8| (b as char).to_digit(16);
            out.push((d(*h.0)? * 16 + d(*h.1)?) as u8);
            i += 3;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    Some(out)
}
