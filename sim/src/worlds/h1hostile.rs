//! C04: damaged, spliced, truncated and fabricated HTTP/1 heads.
use super::h1::{parse_any_req, parse_any_resp};
use super::h1relay::split_line;
use crate::alloc;
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::http1::{self as m, RawHead, Read};
use crate::net::{corrupt, Link};
use webparse::{Request, Response};

const SPECIAL: &[u8] = b"\r\n :%/?#@\t\0\x7f\x80aZ09=.[]\x0b\x0c";

/// Index just after the blank line that ends the head (leading empty lines skipped), if it has arrived.
fn head_end(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() && (b[i] == b'\r' || b[i] == b'\n') {
        i += 1;
    }
    while i < b.len() {
        if b[i] == b'\n' {
            if b.get(i + 1) == Some(&b'\n') {
                return Some(i + 2);
            }
            if b.get(i + 1) == Some(&b'\r') && b.get(i + 2) == Some(&b'\n') {
                return Some(i + 3);
            }
        }
        i += 1;
    }
    None
}

fn version_of(v: &[u8]) -> Option<&'static str> {
    match v {
        b"HTTP/1.0" => Some("HTTP/1.0"),
        b"HTTP/1.1" => Some("HTTP/1.1"),
        b"HTTP/2" => Some("HTTP/2"),
        b"HTTP/3" => Some("HTTP/3"),
        _ => None,
    }
}

fn vis(b: &[u8]) -> bool {
    b.iter().all(|c| *c > 0x20 && *c < 0x7f)
}

/// Why the head must be rejected, if it must. `Ok` carries what an accepted message has to look like.
struct Expect {
    method: String,
    version: &'static str,
    path_query: Option<(String, Option<String>)>,
    authority: Option<(String, Option<u16>)>,
    status: u16,
}

fn expect_req(raw: &RawHead) -> Result<Expect, &'static str> {
    if raw.line.first() == Some(&b' ') {
        return Err("empty method");
    }
    let p = split_line(&raw.line);
    if p.len() != 3 || raw.line.last() == Some(&b' ') {
        return Err("request line is not method, target, version");
    }
    let meth = String::from_utf8_lossy(&p[0]).to_string();
    if !m::METHODS.contains(&meth.as_str()) {
        return Err("unknown method");
    }
    let version = version_of(&p[2]).ok_or("unknown version")?;
    if !vis(&p[1]) {
        return Err("illegal byte in target");
    }
    let t = &p[1];
    let mut path_query = None;
    if meth != "CONNECT" {
        if t[0] == b'/' {
            let (a, q) = match t.iter().position(|b| *b == b'?') {
                Some(i) => (t[..i].to_vec(), Some(t[i + 1..].to_vec())),
                None => (t.clone(), None),
            };
            let dec = |x: &[u8]| m::pct_decode(x).ok_or("bad percent escape");
            let a = dec(&a)?;
            let q = match q {
                Some(q) => Some(dec(&q)?),
                None => None,
            };
            let utf = |x: Vec<u8>| String::from_utf8(x).map_err(|_| "escapes are not UTF-8");
            path_query = Some((utf(a)?, match q { Some(q) => Some(utf(q)?), None => None }));
        } else {
            // absolute form: after the authority the same escape rules hold
            if let Some(i) = t.windows(3).position(|w| w == b"://") {
                let rest = &t[i + 3..];
                if let Some(j) = rest.iter().position(|b| *b == b'/' || *b == b'?') {
                    m::pct_decode(&rest[j..]).ok_or("bad percent escape")?;
                }
            } else if t == b"*" && meth == "OPTIONS" {
                path_query = Some(("*".into(), None));
            } else {
                return Err("target is none of the four forms");
            }
        }
    }
    // who is asked: the target of CONNECT, else the Host field next to a target that names nobody
    let mut who = None;
    if meth == "CONNECT" {
        who = authority(t)?;
    } else if t[0] == b'/' || t == b"*" {
        if let Some((_, v)) = raw.headers.iter().rev().find(|(n, _)| n.eq_ignore_ascii_case(b"host")) {
            who = authority(v)?;
        }
    }
    Ok(Expect { method: meth, version, path_query, authority: who, status: 0 })
}

/// Host and port of an authority as written in a Host field or a CONNECT target; None where readers differ.
fn authority(a: &[u8]) -> Result<Option<(String, Option<u16>)>, &'static str> {
    let text = match std::str::from_utf8(a) {
        Ok(t) if t.is_ascii() => t,
        _ => return Ok(None),
    };
    let end = if text.starts_with('[') {
        match text.rfind(']') {
            Some(i) => i + 1,
            None => return Ok(None),
        }
    } else {
        0
    };
    let rest = &text[end..];
    let (h, p) = match rest.split_once(':') {
        Some((h, p)) => (h, Some(p)),
        None => (rest, None),
    };
    let host = format!("{}{}", &text[..end], h);
    match p {
        None | Some("") => Ok(Some((host, None))),
        Some(p) if p.bytes().all(|b| b.is_ascii_digit()) => match p.parse() {
            Ok(n) => Ok(Some((host, Some(n)))),
            Err(_) => Err("a port above 65535"),
        },
        Some(p) if p.starts_with('+') => Ok(None),
        Some(_) => Err("a port that is no number"),
    }
}

fn expect_resp(raw: &RawHead) -> Result<Expect, &'static str> {
    let i = raw.line.iter().position(|b| *b == b' ').ok_or("no space in status line")?;
    let version = version_of(&raw.line[..i]).ok_or("unknown version")?;
    let mut rest = &raw.line[i..];
    while rest.first() == Some(&b' ') {
        rest = &rest[1..];
    }
    let n = rest.iter().take_while(|c| **c > 0x20 && **c < 0x7f).count();
    let s = &rest[..n];
    if s.len() != 3 || !s.iter().all(|c| c.is_ascii_digit()) || s[0] == b'0' {
        return Err("status code is not three digits");
    }
    let status = std::str::from_utf8(s).unwrap().parse().unwrap();
    Ok(Expect { method: String::new(), version, path_query: None, authority: None, status })
}

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    None,
    Ok(usize, String),
    Err,
}

/// Feeds growing prefixes to the parser and holds every verdict against the reference.
fn judge_stream(cx: &mut Ctx, stream: &[u8], responses: bool) -> Res {
    let link = Link::new(cx);
    let mut cuts = link.cuts(cx, stream.len(), &[]);
    cuts.push(stream.len());
    let reuse = cx.ch.chance(1, 2);
    let mut req = Request::new();
    let mut resp = Response::new(());
    let mut verdict = Verdict::None;
    let end = head_end(stream);
    for c in cuts {
        let data = &stream[..c];
        let kind = cx.ch.below(5);
        if !reuse {
            req = Request::new();
            resp = Response::new(());
        }
        let base = alloc::start();
        let r = if responses { parse_any_resp(cx, &mut resp, data, kind)? } else { parse_any_req(cx, &mut req, data, kind)? };
        let peak = alloc::peak_since(base);
        ensure!(peak < 100_000 + 200 * data.len() as i64, "allocation", "{} bytes allocated for {} bytes of input", peak, data.len());
        cx.cov.deliveries += 1;
        cx.ev("verdict", &[c as u64, match &r { Ok(_) => 0, Err(e) if e.is_partial() => 1, _ => 2 }]);
        cx.bytes_ev("input", data);
        let content = |q: &Request<()>, s: &Response<()>| {
            if responses {
                format!("{:?} {} {:?}", s.version(), s.status().as_u16(), s.headers().iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect::<Vec<_>>())
            } else {
                format!("{:?} {:?} {:?} {:?}", q.version(), q.method().as_str(), q.url(), q.headers().iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect::<Vec<_>>())
            }
        };
        let v = match &r {
            Ok(n) => Verdict::Ok(*n, content(&req, &resp)),
            Err(e) if e.is_partial() => Verdict::None,
            Err(_) => Verdict::Err,
        };
        let part = if responses { resp.is_partial() } else { req.is_partial() };
        ensure!(part == !matches!(v, Verdict::Ok(..)), "completion-flag", "verdict {:?} but is_partial()={}", v, part);
        if verdict != Verdict::None {
            ensure!(v == verdict, "verdict-changed", "{:?} became {:?} when more bytes arrived: {}", verdict, v, show(data));
        }
        verdict = v;
        if let Some(e) = end {
            if c >= e {
                ensure!(verdict != Verdict::None, "endless-partial", "head ends at {} but {} bytes are reported partial: {}", e, c, show(data));
            }
        }
        // what a reference reader makes of the same bytes
        match m::read_head(data) {
            Read::Partial => {
                ensure!(!matches!(verdict, Verdict::Ok(..)), "complete-on-prefix", "accepted an unfinished head {}", show(data));
            }
            Read::Bad(why) => {
                // lines up to the fault may still be unfinished for the parser only before the head ends
                ensure!(!matches!(verdict, Verdict::Ok(..)), "malformed-accepted", "{}: {}", why, show(data));
            }
            Read::Ok(raw, n) => {
                let ex = if responses { expect_resp(&raw) } else { expect_req(&raw) };
                match (ex, &verdict) {
                    (_, Verdict::None) => return viol("endless-partial", format!("complete head reported partial: {}", show(data))),
                    (Err(why), Verdict::Ok(..)) => return viol("malformed-accepted", format!("{}: {}", why, show(data))),
                    (Ok(ex), Verdict::Ok(used, _)) => {
                        ensure!(*used == n, "wrong-length", "head of {} bytes, parser reports {}: {}", n, used, show(data));
                        let sent: Vec<(String, Vec<u8>)> = raw.headers.iter().map(|(a, b)| (String::from_utf8_lossy(a).to_string(), b.clone())).collect();
                        super::h1::check_headers(if responses { resp.headers() } else { req.headers() }, &m::fold(&sent))?;
                        let ver = if responses { resp.version() } else { req.version() };
                        ensure!(ver.as_str() == ex.version, "version", "{} read as {:?}", ex.version, ver);
                        if responses {
                            ensure!(resp.status().as_u16() == ex.status, "status", "{} read as {:?}", ex.status, resp.status());
                        } else {
                            ensure!(req.method().as_str() == ex.method, "method", "{} read as {:?}", ex.method, req.method());
                            if let Some((h, p)) = ex.authority {
                                let u = req.url();
                                ensure!(u.domain.as_ref() == Some(&h) && (p.is_none() || u.port == p), "authority", "{:?} {:?} read as {:?} {:?}: {}", h, p, u.domain, u.port, show(data));
                            }
                            if let Some((p, q)) = ex.path_query {
                                ensure!(req.url().path == p && req.url().query == q, "target", "{:?} {:?} read as {:?} {:?}", p, q, req.url().path, req.url().query);
                            }
                        }
                        cx.probe("accepted_after_damage");
                        cx.message();
                    }
                    (_, Verdict::Err) => {}
                }
            }
        }
        if verdict == Verdict::Err {
            cx.probe("rejected");
            cx.progressed = true;
        }
    }
    Ok(())
}

fn gen_stream(cx: &mut Ctx, responses: bool) -> Vec<u8> {
    if responses { m::gen_resp(cx).wire } else { m::gen_req(cx, true, true).wire }
}

/// Valid traffic damaged in flight.
pub fn damaged(cx: &mut Ctx) -> Res {
    let responses = cx.ch.chance(1, 3);
    let mut s = gen_stream(cx, responses);
    match cx.ch.below(8) {
        0..=4 => {
            corrupt(cx, &mut s, SPECIAL);
        }
        5 => {
            // a second stream spliced into the first
            let t = gen_stream(cx, responses);
            let i = cx.ch.below(s.len() as u64 + 1) as usize;
            let j = cx.ch.below(t.len() as u64 + 1) as usize;
            s.truncate(i);
            s.extend_from_slice(&t[j..]);
            cx.fault("spliced_streams");
        }
        6 => {
            // truncated, then the peer starts over on the same connection
            let i = cx.ch.below(s.len() as u64 + 1) as usize;
            let t = s.clone();
            s.truncate(i);
            s.extend_from_slice(&t);
            cx.fault("restart_on_same_connection");
        }
        _ => {
            // damage aimed at line ends
            let nl: Vec<usize> = s.iter().enumerate().filter(|(_, b)| **b == b'\n' || **b == b'\r').map(|(i, _)| i).collect();
            let i = cx.ch.pick(&nl);
            match cx.ch.below(4) {
                0 => {
                    s.remove(i);
                }
                1 => s[i] = cx.ch.pick(b"\r\n \tx\0:"),
                2 => s.insert(i, cx.ch.pick(b"\r\n \tx\0:")),
                _ => s.insert(i + 1, cx.ch.pick(b"\r\n \tx\0:")),
            }
            cx.fault("line_end_damaged");
        }
    }
    if cx.ch.chance(1, 8) {
        s.extend_from_slice(b"\r\n\r\n");
    }
    judge_stream(cx, &s, responses)
}

/// Streams fabricated from protocol fragments.
pub fn fabricated(cx: &mut Ctx) -> Res {
    let responses = cx.ch.chance(1, 3);
    let n = cx.ch.below(24);
    let mut s: Vec<u8> = vec![];
    cx.fault("fabricated_stream");
    if !responses && cx.ch.chance(1, 5) {
        // whole requests whose authority is doubtful
        let a = format!(
            "{}{}",
            cx.ch.pick(&["a", "a.b", "[::1]", "[::1", "::1]", "1.2.3.4", "", "a:1", "x-y", "[a]b"]),
            cx.ch.pick(&["", ":", ":80", ":0", ":65535", ":65536", ":99999", ":4294967376", ":18446744073709551696", ":080", ":x", ":8 0", ":-1", ":+1", ":1:2", "::", ":8x", ":0x50", ":1e3"])
        );
        let head = match cx.ch.below(4) {
            0 => format!("CONNECT {} HTTP/1.1\r\n\r\n", a),
            1 => format!("GET http://{}/ HTTP/1.1\r\n\r\n", a),
            2 => format!("OPTIONS * HTTP/1.1\r\nhost: {}\r\n\r\n", a),
            _ => format!("GET /p HTTP/1.1\r\nX: y\r\nHost: {}\r\n\r\n", a),
        };
        cx.fault("doubtful_authority");
        return judge_stream(cx, head.as_bytes(), false);
    }
    if cx.ch.chance(2, 3) {
        let start: &[u8] = if responses { cx.ch.pick(&[&b"HTTP/1.1 200 OK\r\n"[..], b"HTTP/1.1 404\r\n", b"HTTP/1.1 ", b"HTTP/2 200 \r\n"]) } else { cx.ch.pick(&[&b"GET / HTTP/1.1\r\n"[..], b"CONNECT a:1 HTTP/1.1\r\n", b"GET http://a/b?c HTTP/1.0\r\n", b"PUT ", b"GET /%41"]) };
        s.extend_from_slice(start);
    }
    for _ in 0..n {
        let t: &[u8] = cx.ch.pick(&[
            &b"\r\n"[..], b"\r\n\r\n", b"\n", b"\r", b" ", b"\t", b":", b": ", b"GET", b"POST ", b"get", b"/", b"/a?b", b"%", b"%4", b"%zz", b"%41", b"%ff", b"%0d%0a", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/1.2", b"HTTP/2",
            b"Host: a", b"Host", b"host:", b"X-A: b\r\n", b"x", b"@", b"#", b"?", b"http://", b"https://u:p@h:1/", b"[::1]", b":99999", b":0", b"200", b"999", b"099", b"1000", b"20", b"OK", b"\0", b"\x7f", b"\x80", b"\xff", b"//", b"a:b:c", b"CONNECT ", b"OPTIONS * ", b"Content-Length: 5", b"{", b"(", b"\"",
        ]);
        s.extend_from_slice(t);
        if s.len() > 2000 {
            break;
        }
    }
    if cx.ch.chance(1, 2) {
        s.extend_from_slice(b"\r\n\r\n");
    }
    if s.is_empty() {
        s.push(b'G');
    }
    judge_stream(cx, &s, responses)
}

/// Very long lines, names, values and counts, and random bytes.
pub fn oversized(cx: &mut Ctx) -> Res {
    let responses = cx.ch.chance(1, 3);
    let n = cx.ch.skew(30_000) as usize;
    cx.fault("oversized_element");
    let fill = cx.ch.pick(b"a/%? :\r\n0A\t\x00\xff");
    let mut s = vec![];
    match cx.ch.below(6) {
        0 => {
            s = vec![fill; n + 1];
        }
        1 => {
            s.extend_from_slice(if responses { b"HTTP/1.1 200 " } else { b"GET /" });
            s.extend(std::iter::repeat(fill).take(n));
            s.extend_from_slice(b" HTTP/1.1\r\n\r\n");
        }
        2 => {
            s.extend_from_slice(if responses { b"HTTP/1.1 200 OK\r\n" } else { b"GET / HTTP/1.1\r\n" });
            s.extend(std::iter::repeat(fill).take(n));
            s.extend_from_slice(b": v\r\n\r\n");
        }
        3 => {
            s.extend_from_slice(if responses { b"HTTP/1.1 200 OK\r\nn: " } else { b"GET / HTTP/1.1\r\nn: " });
            s.extend(std::iter::repeat(fill).take(n));
            s.extend_from_slice(b"\r\n\r\n");
        }
        4 => {
            s.extend_from_slice(if responses { b"HTTP/1.1 200 OK\r\n" } else { b"GET / HTTP/1.1\r\n" });
            for i in 0..n.min(300) {
                s.extend_from_slice(format!("h{}: {}\r\n", i, i).as_bytes());
            }
            s.extend_from_slice(b"\r\n");
        }
        _ => {
            let k = cx.ch.below(200);
            for _ in 0..k + 1 {
                s.push(cx.ch.below(256) as u8);
            }
        }
    }
    judge_stream(cx, &s, responses)
}
