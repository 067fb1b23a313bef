//! C18: URLs that travel as text: redirects, bookmarks, and what a request asks for.
use super::built::take_body;
use super::h1::{parse_any_req, parse_any_resp};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::http1 as m;
use crate::net::{corrupt, Link, Queue};
use std::str::FromStr;
use webparse::{Request, Response, Scheme, Url, WebError};

/// A URL as its author means it.
#[derive(Clone, Debug, PartialEq)]
struct U {
    scheme: String,
    user: Option<String>,
    pass: Option<String>,
    domain: String,
    port: Option<u16>,
    path: String,
    query: Option<String>,
}

impl U {
    fn default_port(&self) -> u16 {
        match &self.scheme[..] {
            "http" | "ws" => 80,
            "https" | "wss" => 443,
            "ftp" => 21,
            _ => 0,
        }
    }
    fn port(&self) -> u16 {
        self.port.unwrap_or(self.default_port())
    }
}

const USER_PLAIN: &[u8] = b"azAZ09-._~!$&'()*+,;=bcdefgh";
const USER_MUST: &[u8] = b" \r\n\t%#?\"<>\\^`{|}\0:/@[]";

fn gen_domain(cx: &mut Ctx) -> (String, String) {
    match cx.ch.below(10) {
        0 => ("[fe80::1%eth0]".into(), "[fe80::1%25eth0]".into()),
        1 => ("bücher.example".into(), cx.ch.pick(&["b%C3%BCcher.example", "b%c3%bccher.ex%61mple"]).into()),
        2 => ("exa(m)ple".into(), "ex%61(m)ple".into()),
        3 => ("[2001:db8::7:1]".into(), "[2001:db8::7:1]".into()),
        4 if cx.ch.chance(1, 8) => {
            let h = m::bulk(cx).to_lowercase();
            (h.clone(), h)
        }
        _ => {
            let h = m::gen_host(cx);
            (h.clone(), h)
        }
    }
}

/// Now and then a part is very long.
fn long(cx: &mut Ctx, part: &mut String, text: &mut Vec<u8>) {
    if cx.ch.chance(1, 60) {
        let b = m::bulk(cx);
        part.push_str(&b);
        text.extend(b.bytes());
    }
}

/// A URL and a text that denotes it.
fn gen_url(cx: &mut Ctx) -> (U, Vec<u8>) {
    let scheme = cx.ch.pick(&["http", "http", "https", "https", "ws", "wss", "ftp", "git", "x+y-1.0", "*"]).to_string();
    let scheme = if scheme == "*" {
        // a scheme of its own
        let n = cx.ch.skew(8);
        let mut t = (cx.ch.pick(b"abcxyzABCMXYZ") as char).to_string();
        for _ in 0..n {
            t.push(cx.ch.pick(b"azAZ09+-.mq") as char);
        }
        if ["http", "https", "ws", "wss", "ftp"].contains(&&t.to_ascii_lowercase()[..]) { "git".to_string() } else { t }
    } else {
        scheme
    };
    let mut text = if cx.ch.chance(1, 8) && ["http", "https", "ws", "wss", "ftp"].contains(&&scheme[..]) { scheme.to_uppercase() } else { scheme.clone() }.into_bytes();
    text.extend(b"://");
    let (mut user, mut pass) = (None, None);
    if cx.ch.chance(1, 3) {
        let n = if cx.ch.chance(1, 6) { 0 } else { 10 };
        let (mut t, w) = m::gen_escaped(cx, n, USER_PLAIN, USER_MUST);
        text.extend(w);
        long(cx, &mut t, &mut text);
        user = Some(t);
        text.push(b':');
        let n = if cx.ch.chance(1, 3) { 0 } else { 10 };
        let (mut t, w) = m::gen_escaped(cx, n, USER_PLAIN, USER_MUST);
        text.extend(w);
        long(cx, &mut t, &mut text);
        pass = Some(t);
        text.push(b'@');
    }
    let (domain, w) = gen_domain(cx);
    text.extend(w.bytes());
    let mut port = None;
    if cx.ch.chance(1, 2) {
        let p = cx.ch.pick(&[80u16, 443, 21, 8080, 1, 65535, 81, 9999, 79, 442, 444, 20, 22, 8, 44, 800, 4430, 336, 699]);
        port = Some(p);
        text.extend(format!(":{}", p).bytes());
    } else if cx.ch.chance(1, 8) {
        text.push(b':');
    }
    let mut path = "/".to_string();
    if cx.ch.chance(1, 5) {
        // nothing after the authority is the root
        if cx.ch.chance(1, 2) {
            text.push(b'/');
        }
    } else {
        text.push(b'/');
        let (t, w) = m::gen_escaped(cx, 20, m::PATH_PLAIN, m::MUST);
        path.push_str(&t);
        text.extend(w);
        long(cx, &mut path, &mut text);
    }
    let mut query = None;
    if cx.ch.chance(1, 2) {
        let (mut t, w) = m::gen_escaped(cx, 20, m::QUERY_PLAIN, m::MUST);
        text.push(b'?');
        text.extend(w);
        long(cx, &mut t, &mut text);
        query = Some(t);
    }
    (U { scheme, user, pass, domain, port, path, query }, text)
}

/// An independent reading of an absolute URL (RFC 3986).
fn read_url(t: &[u8]) -> Option<(U, bool)> {
    let t = std::str::from_utf8(t).ok()?;
    let (t, frag) = match t.split_once('#') {
        Some((a, _)) => (a, true),
        None => (t, false),
    };
    let (scheme, rest) = t.split_once("://")?;
    let ok = |c: char| c.is_ascii_alphanumeric() || "+-.".contains(c);
    if !scheme.starts_with(|c: char| c.is_ascii_alphabetic()) || !scheme.chars().all(ok) {
        return None;
    }
    let low = scheme.to_ascii_lowercase();
    let scheme = if ["http", "https", "ws", "wss", "ftp"].contains(&&low[..]) { low } else { scheme.to_string() };
    let end = rest.find(|c| c == '/' || c == '?').unwrap_or(rest.len());
    let (auth, rest) = rest.split_at(end);
    let de = |s: &str| String::from_utf8(m::pct_decode(s.as_bytes())?).ok();
    // a second '@' leaves the user information to each reader
    let twice = auth.matches('@').count() > 1;
    let deu = |s: &str| if twice { Some("@".to_string()) } else { de(s) };
    let (user, pass, hp) = match auth.rfind('@') {
        None => (None, None, auth),
        Some(i) => match auth[..i].split_once(':') {
            Some((u, p)) => (Some(deu(u)?), Some(deu(p)?), &auth[i + 1..]),
            None => (Some(de(&auth[..i])?), None, &auth[i + 1..]),
        },
    };
    let (host, port) = if hp.starts_with('[') {
        let e = hp.find(']')? + 1;
        (&hp[..e], &hp[e..])
    } else {
        hp.split_at(hp.find(':').unwrap_or(hp.len()))
    };
    let port = match port.strip_prefix(':') {
        None if port.is_empty() => None,
        None => return None,
        Some("") => None,
        Some(p) => Some(de(p)?.parse().ok()?),
    };
    let (path, query) = match rest.split_once('?') {
        Some((p, q)) => (p, Some(de(q)?)),
        None => (rest, None),
    };
    let path = if path.is_empty() { "/".to_string() } else { de(path)? };
    Some((U { scheme, user, pass, domain: de(host)?, port, path, query }, frag))
}

/// Every way the library reads a URL from text must agree.
fn lib_parse(cx: &mut Ctx, t: &[u8]) -> Res<Result<Url, WebError>> {
    cx.cov.lib_calls += 1;
    let s = std::str::from_utf8(t).ok();
    let a = match (cx.ch.below(5), s) {
        (1, Some(s)) => Url::try_from(s),
        (2, Some(s)) => Url::try_from(s.to_string()),
        (3, Some(s)) => Url::from_str(s),
        (4, _) => Url::try_from(t),
        _ => Url::parse(t.to_vec()),
    };
    let b = Url::parse(t.to_vec());
    ensure!(a.is_ok() == b.is_ok() && a.as_ref().ok() == b.as_ref().ok(), "ways-differ", "{}: {:?} and {:?}", show(t), a, b);
    Ok(a)
}

fn diff(u: &Url, w: &U, port: Option<u16>) -> Res {
    ensure!(u.scheme.as_str() == w.scheme, "scheme", "{:?} for {:?}", u.scheme, w);
    // a user without a password has an empty one
    let has = |a: &Option<String>| a.clone().unwrap_or_default();
    let same = has(&u.username) == has(&w.user) && has(&u.password) == has(&w.pass);
    ensure!(same && (u.username.is_some() || u.password.is_some()) == w.user.is_some(), "userinfo", "{:?} {:?} for {:?}", u.username, u.password, w);
    ensure!(u.domain.as_ref() == Some(&w.domain), "domain", "{:?} for {:?}", u.domain, w);
    ensure!(u.port == port, "port", "{:?}, expected {:?} for {:?}", u.port, port, w);
    ensure!(u.path == w.path, "path", "{:?} for {:?}", u.path, w);
    ensure!(u.query == w.query, "query", "{:?} for {:?}", u.query, w);
    Ok(())
}

/// Text of a URL value: any reader finds the same URL in it, and it is stable.
fn render(cx: &mut Ctx, u: &Url, w: &U) -> Res<Vec<u8>> {
    cx.cov.lib_calls += 1;
    let s = if cx.ch.chance(1, 2) { u.to_string() } else { format!("{}", u) };
    let t = s.clone().into_bytes();
    ensure!(t.iter().all(|b| *b > 32 && *b < 127), "text-form", "{:?} became {}", w, show(&t));
    ensure!(*u == s[..], "text-equality", "{:?} is not its own text {:?}", u, s);
    ensure!(s[..] == *u && *u != s[1..] && s[1..] != *u, "text-equality", "{:?} and {:?}", u, s);
    match read_url(&t) {
        Some((r, false)) => {
            let same = U { port: w.port, ..r.clone() } == *w && r.port() == w.port();
            ensure!(same, "text-means-other", "{:?} became {} which reads {:?}", w, show(&t), r);
        }
        o => return viol("text-means-other", format!("{:?} became {} which reads {:?}", w, show(&t), o)),
    }
    let back = match Url::parse(t.clone()) {
        Ok(b) => b,
        Err(e) => return viol("text-unreadable", format!("{:?} became {}: {:?}", w, show(&t), e)),
    };
    diff(&back, w, Some(w.port()))?;
    ensure!(back.to_string() == s || w.port.is_none(), "text-unstable", "{} then {}", s, back);
    Ok(t)
}

/// One URL laid over another: what the second names replaces, the rest stays.
fn merged(cx: &mut Ctx, a: &Url, b: &Url) -> Res {
    cx.cov.lib_calls += 1;
    let mut m = a.clone();
    m.merge(b.clone());
    let or = |x: &Option<String>, y: &Option<String>| x.clone().or(y.clone());
    let want = Url {
        scheme: if b.scheme == Scheme::None { a.scheme.clone() } else { b.scheme.clone() },
        path: if b.path == "/" { a.path.clone() } else { b.path.clone() },
        username: or(&b.username, &a.username),
        password: or(&b.password, &a.password),
        domain: or(&b.domain, &a.domain),
        port: if b.port.unwrap_or(0) == 0 { a.port } else { b.port },
        query: or(&b.query, &a.query),
    };
    ensure!(m == want, "merge", "{:?} with {:?} gives {:?}", a, b, m);
    Ok(())
}

/// A URL value in a party's hands, from text or from parts.
fn hold(cx: &mut Ctx, w: &U, text: &[u8]) -> Res<Url> {
    if cx.ch.chance(1, 2) {
        let u = match lib_parse(cx, text)? {
            Ok(u) => u,
            Err(e) => return viol("legal-refused", format!("{}: {:?}", show(text), e)),
        };
        diff(&u, w, Some(w.port()))?;
        return Ok(u);
    }
    cx.cov.lib_calls += 1;
    let mut b = Url::builder();
    let mut order = [0, 1, 2, 3, 4, 5];
    for i in 0..6 {
        let j = cx.ch.us(i, 5);
        order.swap(i, j);
    }
    // one of the two may be left out when it is empty
    let skip = cx.ch.below(3);
    for o in order {
        b = match o {
            1 if skip == 1 && w.user.as_deref() == Some("") && w.pass.is_some() => b,
            2 if skip == 2 && w.pass.as_deref() == Some("") => b,
            0 => match cx.ch.below(2) {
                0 => b.scheme(&w.scheme[..]),
                _ => b.scheme(Scheme::try_from(&w.scheme[..]).unwrap()),
            },
            1 => match &w.user {
                Some(u) => b.username(u.clone()),
                None => b,
            },
            2 => match &w.pass {
                Some(u) => b.password(u.clone()),
                None => b,
            },
            3 => b.domain(w.domain.clone()),
            4 => match w.port {
                Some(p) => b.port(p),
                None => b,
            },
            _ => {
                let b = if w.path != "/" || cx.ch.chance(1, 2) { b.path(w.path.clone()) } else { b };
                match &w.query {
                    Some(q) => b.query(q.clone()),
                    None => b,
                }
            }
        };
    }
    let u = match b.build() {
        Ok(u) => u,
        Err(e) => return viol("legal-refused", format!("build {:?}: {:?}", w, e)),
    };
    diff(&u, w, w.port)?;
    Ok(u)
}

enum Ev {
    /// the client (true) or a server receives octets on connection `.1`
    Arrive(bool, u64, Vec<u8>),
    Ask,
    Lost(u64),
}

/// Text stored so that a torn write is noticed.
fn record(t: &[u8]) -> Vec<u8> {
    let mut r = (t.len() as u32).to_be_bytes().to_vec();
    r.extend_from_slice(t);
    r
}

fn recover(disk: &[Vec<u8>]) -> Option<Vec<u8>> {
    disk.iter().rev().find(|r| r.len() >= 4 && u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as usize == r.len() - 4).map(|r| r[4..].to_vec())
}

pub fn c18_redirects(cx: &mut Ctx) -> Res {
    let hops = 1 + cx.ch.below(4) as usize;
    // what the client is to ask for, in order
    let mut plan: Vec<(U, Vec<u8>)> = vec![];
    // how the previous server sends the client there: 0 its own URL value, 1 a relative reference, 2 derived from the request
    let mut way = vec![0u64];
    let mut forms: Vec<Option<Vec<String>>> = vec![];
    for i in 0..hops {
        let (mut u, mut t) = gen_url(cx);
        let mut k = 0;
        let mut form = None;
        if i > 0 {
            k = cx.ch.pick(&[0u64, 0, 1, 2]);
            let before: U = plan[i - 1].0.clone();
            if k == 1 {
                u = U { path: u.path, query: u.query, ..before };
            } else if k == 2 {
                // from the request the server knows only the host it was asked as
                let mut p = before.path.clone();
                p.push_str("/é?#%");
                u = U { scheme: "http".into(), user: None, pass: None, port: Some(before.port()), path: p, ..before };
            }
        }
        if k == 0 && cx.ch.chance(1, 3) {
            // a query made of fields
            let vals: Vec<String> = (0..1 + cx.ch.below(3)).map(|_| m::gen_escaped(cx, 12, USER_PLAIN, USER_MUST).0.replace('&', "")).collect();
            let mut q = vec![];
            for (j, v) in vals.iter().enumerate() {
                cx.cov.lib_calls += 1;
                let e = Url::url_encode(v);
                ensure!(e.bytes().all(|b| b > 32 && b < 127), "encode-form", "{:?} became {:?}", v, e);
                ensure!(m::pct_decode(e.as_bytes()).as_deref() == Some(v.as_bytes()), "encode-other", "{:?} became {:?}", v, e);
                q.push(format!("f{}={}", j, e));
            }
            u.query = Some(q.join("&"));
            // only a value can carry it: the text is rendered from parts
            t = vec![];
            form = Some(vals);
        }
        plan.push((u, t));
        way.push(k);
        forms.push(form);
    }
    way.remove(0);
    for (u, t) in &plan {
        cx.note(|| format!("{:?} {}", u, show(t)));
    }
    cx.ev("plan", &way);
    let mut q: Queue<Ev> = Queue::new();
    let mut disk: Vec<Vec<u8>> = vec![];
    let mut at = 0usize;
    let mut held: Url = from(cx, &plan[0].0, &plan[0].1)?;
    let mut conn = 0u64;
    let mut cbuf: Vec<u8> = vec![];
    let mut sbuf: Vec<u8> = vec![];
    let mut retries = 0;
    let mut done = false;
    let mut steps = 0;
    q.push(cx, 0, Ev::Ask);
    while let Some(e) = q.pop(cx) {
        steps += 1;
        ensure!(steps < 20_000, "no-progress", "still at hop {} of {}", at, hops);
        match e {
            Ev::Ask => {
                let w = plan[at].0.clone();
                // the bookmark is all that survives a crash
                let text = render(cx, &held, &w)?;
                let mut r = record(&text);
                if cx.ch.chance(1, 12) {
                    r.truncate(cx.ch.below(r.len() as u64) as usize);
                    cx.fault("torn_write");
                    disk.push(r);
                    cx.fault("crash");
                    // the last whole bookmark is an earlier hop's or none
                    match recover(&disk) {
                        None => {
                            at = 0;
                            held = from(cx, &plan[0].0, &plan[0].1)?;
                        }
                        Some(t) => {
                            let found = (0..=at).rev().find(|i| read_url(&t).map_or(false, |(u, _)| U { port: plan[*i].0.port, ..u.clone() } == plan[*i].0 && u.port() == plan[*i].0.port()));
                            at = match found {
                                Some(i) => i,
                                None => return viol("bookmark-lost", format!("{} denotes no URL visited", show(&t))),
                            };
                            held = match lib_parse(cx, &t)? {
                                Ok(u) => u,
                                Err(e) => return viol("text-unreadable", format!("{}: {:?}", show(&t), e)),
                            };
                        }
                    }
                    q.push(cx, 0, Ev::Ask);
                    continue;
                }
                disk.push(r);
                if cx.ch.chance(1, 8) {
                    cx.fault("crash");
                    held = match lib_parse(cx, &text)? {
                        Ok(u) => u,
                        Err(e) => return viol("text-unreadable", format!("{}: {:?}", show(&text), e)),
                    };
                    diff(&held, &w, Some(w.port()))?;
                }
                // who is asked, and for what
                cx.cov.lib_calls += 3;
                let key = held.get_connect_url();
                ensure!(key == held.port.map(|p| format!("{}:{}", w.domain, p)), "connect-to", "{:?} for {:?}", key, held);
                ensure!(held.get_scheme() == w.scheme, "scheme", "{:?} for {:?}", held.get_scheme(), w);
                let a = held.get_authority();
                let (ah, ap) = match a.rfind(':') {
                    Some(i) if !a.ends_with(']') => (a[..i].to_string(), a[i + 1..].parse::<u16>().ok()),
                    _ => (a.clone(), Some(w.default_port())),
                };
                ensure!(ah == w.domain && ap == Some(w.port()), "authority", "{:?} for {:?}", a, w);
                // ask; a URL built without a port is completed by reading its text
                let ask = if held.port.is_none() { Url::parse(text.clone()).expect("read before") } else { held.clone() };
                let mut r = match cx.ch.below(3) {
                    0 => Request::builder().url(ask).body(()),
                    1 => Request::builder().url(&text[..]).body(()),
                    _ => Request::builder().body(()).map(|mut r| {
                        r.set_url(ask);
                        r
                    }),
                }
                .map_err(|e| crate::ctx::Violation { class: "legal-refused".into(), detail: format!("{}: {:?}", show(&text), e) })?;
                let wire = match r.http1_data() {
                    Ok(b) => b,
                    Err(e) => return viol("legal-refused", format!("{:?}: {:?}", w, e)),
                };
                conn += 1;
                cbuf.clear();
                sbuf.clear();
                cx.message();
                cx.bytes_ev("ask", &wire);
                let mut l = Link::new(cx);
                for (t, s) in l.segments(cx, &wire, &[]) {
                    q.push(cx, t, Ev::Arrive(false, conn, s));
                }
                if retries < 4 && cx.ch.chance(1, 10) {
                    let t = cx.now + cx.ch.below(120);
                    q.push(cx, t, Ev::Lost(conn));
                }
            }
            Ev::Lost(c) => {
                if c == conn && !done {
                    cx.fault("connection_lost");
                    retries += 1;
                    conn += 1;
                    q.push(cx, 0, Ev::Ask);
                }
            }
            Ev::Arrive(false, c, seg) => {
                if c != conn {
                    continue;
                }
                cx.cov.deliveries += 1;
                cx.ev("at_server", &[at as u64, sbuf.len() as u64, seg.len() as u64]);
                sbuf.extend_from_slice(&seg);
                let mut r = Request::new();
                let kind = cx.ch.below(6);
                match parse_any_req(cx, &mut r, &sbuf, kind)? {
                    Err(e) if e.is_partial() => continue,
                    Err(e) => return viol("malformed-sent", format!("{:?} for {}", e, show(&sbuf))),
                    Ok(n) => ensure!(n == sbuf.len(), "malformed-sent", "{} of {} octets: {}", n, sbuf.len(), show(&sbuf)),
                }
                let w = plan[at].0.clone();
                let u = r.url().clone();
                ensure!(u.path == w.path, "asked-path", "{:?} for {:?}", u.path, w);
                ensure!(u.query == w.query, "asked-query", "{:?} for {:?}", u.query, w);
                ensure!(u.domain.as_ref() == Some(&w.domain), "asked-host", "{:?} for {:?}", u.domain, w);
                ensure!(u.port == Some(w.port()), "asked-port", "{:?} for {:?}", u.port, w);
                if let Some(vals) = &forms[at] {
                    let q = u.query.clone().unwrap_or_default();
                    let got: Vec<String> = q.split('&').map(|f| f.split_once('=').map_or(String::new(), |x| Url::url_decode(x.1).unwrap_or_default())).collect();
                    ensure!(got == *vals, "form-fields", "{:?} became {:?} in {:?}", vals, got, q);
                }
                let mut b = Response::builder().status(if at + 1 < hops { 302u16 } else { 200 });
                if at + 1 < hops {
                    let (nw, nt) = &plan[at + 1];
                    let loc = match way[at + 1] {
                        0 => {
                            let v = from(cx, nw, nt)?;
                            render(cx, &v, nw)?
                        }
                        1 => {
                            let v = Url { path: nw.path.clone(), query: nw.query.clone(), ..Url::new() };
                            v.to_string().into_bytes()
                        }
                        _ => {
                            let mut v = u.clone();
                            v.path.push_str("/é?#%");
                            render(cx, &v, nw)?
                        }
                    };
                    cx.bytes_ev("location", &loc);
                    b = b.header("Location", String::from_utf8(loc).unwrap());
                }
                let mut resp = b.header("Content-Length", 0usize).body(()).expect("response");
                let wire = match resp.httpdata() {
                    Ok(b) => b,
                    Err(e) => return viol("legal-refused", format!("{:?} {:?}", resp.headers(), e)),
                };
                let mut l = Link::new(cx);
                for (t, s) in l.segments(cx, &wire, &[]) {
                    q.push(cx, t, Ev::Arrive(true, conn, s));
                }
            }
            Ev::Arrive(true, c, seg) => {
                if c != conn {
                    continue;
                }
                cx.cov.deliveries += 1;
                cx.ev("at_client", &[at as u64, cbuf.len() as u64, seg.len() as u64]);
                cbuf.extend_from_slice(&seg);
                let mut r = Response::new(());
                let kind = cx.ch.below(6);
                match parse_any_resp(cx, &mut r, &cbuf, kind)? {
                    Err(e) if e.is_partial() => continue,
                    Err(e) => return viol("malformed-sent", format!("{:?} for {}", e, show(&cbuf))),
                    Ok(n) => ensure!(take_body(cx, &cbuf[n..], r.headers())?.is_some(), "malformed-sent", "{}", show(&cbuf)),
                }
                conn += 1;
                cx.message();
                if at + 1 == hops {
                    done = true;
                    continue;
                }
                let loc = r.headers().get_option_value(&"location").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
                at += 1;
                let w = plan[at].0.clone();
                let u = match lib_parse(cx, &loc)? {
                    Ok(u) => u,
                    Err(e) => return viol("text-unreadable", format!("Location {} for {:?}: {:?}", show(&loc), w, e)),
                };
                merged(cx, &held, &u)?;
                if way[at] == 1 {
                    ensure!(u.domain.is_none() && u.scheme == Scheme::None, "relative", "{} reads {:?}", show(&loc), u);
                    if held.port.is_none() {
                        held.port = Some(w.port());
                    }
                    held.path = u.path;
                    held.query = u.query;
                    let p = held.port;
                    diff(&held, &w, p)?;
                } else {
                    diff(&u, &w, Some(w.port()))?;
                    held = u;
                }
                q.push(cx, 0, Ev::Ask);
            }
        }
    }
    ensure!(done, "no-progress", "stopped at hop {} of {}", at, hops);
    Ok(())
}

fn from(cx: &mut Ctx, w: &U, t: &[u8]) -> Res<Url> {
    if t.is_empty() {
        // no text at hand: build, render, and read it
        let b = Url { scheme: Scheme::try_from(&w.scheme[..]).unwrap(), path: w.path.clone(), username: w.user.clone(), password: w.pass.clone(), domain: Some(w.domain.clone()), port: w.port, query: w.query.clone() };
        let t = render(cx, &b, w)?;
        return hold(cx, w, &t);
    }
    hold(cx, w, t)
}

/// Texts damaged in transit or made up: whatever is accepted must mean what others read in it, and survive.
/// Percent decoding of a damaged text: every escape is two hexadecimal digits, or the text is refused.
fn decodes(cx: &mut Ctx, t: &[u8]) -> Res {
    let text = match std::str::from_utf8(t) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    cx.cov.lib_calls += 1;
    let got = Url::url_decode(text);
    match (m::pct_decode(t), got) {
        (None, Ok(x)) => return viol("malformed-accepted", format!("{:?} is decoded as {:?}", text, x)),
        (None, Err(_)) => cx.probe("escape_refused"),
        (Some(w), got) => match (String::from_utf8(w), got) {
            (Ok(w), Ok(x)) => ensure!(w == x, "decode-changes", "{:?} is decoded as {:?}", text, x),
            (Ok(_), Err(e)) => return viol("escape-refused", format!("{:?}: {:?}", text, e)),
            // octets that are no text cannot be handed over as text
            (Err(_), _) => {}
        },
    }
    Ok(())
}

pub fn c18_damaged(cx: &mut Ctx) -> Res {
    for _ in 0..1 + cx.ch.below(6) {
        let (_, mut t) = gen_url(cx);
        match cx.ch.below(4) {
            0 => {
                corrupt(cx, &mut t, b"/:@?#%[]\\. a0\r\n\xff");
            }
            1 => {
                t.truncate(cx.ch.below(t.len() as u64 + 1) as usize);
                cx.fault("truncated");
            }
            2 => {
                let n = cx.ch.below(14);
                t = if cx.ch.chance(3, 4) { b"http://".to_vec() } else { vec![] };
                for _ in 0..n {
                    t.extend_from_slice(cx.ch.pick(&["a", "b.c", ":", "@", "/", "?", "#", "%41", "%", "%4", "%2F", "%40", "%3A", "%00", "[", "]", "[::1]", "80", "65536", "-1", "+1", "//", "://", "http", "é", " ", "\\", "%FF", "&", "="]).as_bytes());
                }
                cx.fault("fabricated");
            }
            _ => {
                let (_, o) = gen_url(cx);
                let i = cx.ch.below(t.len() as u64 + 1) as usize;
                let j = cx.ch.below(o.len() as u64 + 1) as usize;
                t.truncate(i);
                t.extend_from_slice(&o[j..]);
                cx.fault("spliced");
            }
        }
        cx.bytes_ev("text", &t);
        cx.ev("text", &[t.len() as u64]);
        cx.message();
        decodes(cx, &t)?;
        let u = match lib_parse(cx, &t)? {
            Ok(u) => u,
            Err(_) => {
                cx.probe("refused");
                continue;
            }
        };
        ensure!(t.iter().all(|b| *b > 32 && *b < 127), "malformed-accepted", "{} reads {:?}", show(&t), u);
        if t[0] != b'/' {
            // nobody else may find another host in it
            match read_url(&t) {
                None => return viol("malformed-accepted", format!("{} reads {:?}", show(&t), u)),
                Some((w, frag)) => {
                    ensure!(u.scheme.as_str() == w.scheme && u.domain.as_ref() == Some(&w.domain), "other-host", "{} reads {:?}, others find {:?}", show(&t), u, w);
                    // brackets and '@' have no place in user information: readers differ
                    let odd = w.user.iter().chain(&w.pass).any(|s| s.contains(&['[', ']', '@'][..]));
                    ensure!(odd || u.username == w.user && u.password == w.pass && u.port == Some(w.port()), "other-authority", "{} reads {:?}, others find {:?}", show(&t), u, w);
                    // fragments are outside what the type can hold
                    ensure!(frag || (u.path == w.path && u.query == w.query), "other-target", "{} reads {:?}, others find {:?}", show(&t), u, w);
                }
            }
        } else {
            ensure!(u.domain.is_none() && u.scheme == Scheme::None, "other-host", "{} reads {:?}", show(&t), u);
        }
        let s = u.to_string();
        match Url::parse(s.clone().into_bytes()) {
            Ok(b) => ensure!(b == u, "text-changes", "{} reads {:?}, rendered {} reads {:?}", show(&t), u, s, b),
            Err(e) => return viol("text-unreadable", format!("{} reads {:?}, rendered {}: {:?}", show(&t), u, s, e)),
        }
        cx.probe("accepted");
    }
    Ok(())
}
