//! C20: codes travelling along chains of parties, and typed extension stores.
use super::h1::{parse_any_req, parse_any_resp};
use super::h2frames::{lib_encode_frame, lib_parse, lib_take, LibJoin, NO_LIMIT};
use super::ws::{lib_read, lib_write, needs_more};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::net::{Link, Queue};
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, RwLock};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::{ErrorCode, Flag, Frame, FrameHeader, GoAway, Headers, Kind, Parts, Reason, Reset, StreamIdentifier};
use webparse::http2::{Decoder, HeaderIndex};
use webparse::ws::{CloseCode, CloseData, DataFrame, Message, Opcode, OwnedMessage};
use webparse::{Extensions, HeaderMap, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version};

// ---------------------------------------------------------------- the registries

/// What the codes mean, written down independently of the library.
fn statuses() -> &'static [(u16, StatusCode, &'static str)] {
    &[
        (100, StatusCode::CONTINUE, "Continue"),
        (101, StatusCode::SWITCHING_PROTOCOLS, "Switching Protocols"),
        (102, StatusCode::PROCESSING, "Processing"),
        (200, StatusCode::OK, "OK"),
        (201, StatusCode::CREATED, "Created"),
        (202, StatusCode::ACCEPTED, "Accepted"),
        (203, StatusCode::NON_AUTHORITATIVE_INFORMATION, "Non Authoritative Information"),
        (204, StatusCode::NO_CONTENT, "No Content"),
        (205, StatusCode::RESET_CONTENT, "Reset Content"),
        (206, StatusCode::PARTIAL_CONTENT, "Partial Content"),
        (207, StatusCode::MULTI_STATUS, "Multi-Status"),
        (208, StatusCode::ALREADY_REPORTED, "Already Reported"),
        (226, StatusCode::IM_USED, "IM Used"),
        (300, StatusCode::MULTIPLE_CHOICES, "Multiple Choices"),
        (301, StatusCode::MOVED_PERMANENTLY, "Moved Permanently"),
        (302, StatusCode::FOUND, "Found"),
        (303, StatusCode::SEE_OTHER, "See Other"),
        (304, StatusCode::NOT_MODIFIED, "Not Modified"),
        (305, StatusCode::USE_PROXY, "Use Proxy"),
        (307, StatusCode::TEMPORARY_REDIRECT, "Temporary Redirect"),
        (308, StatusCode::PERMANENT_REDIRECT, "Permanent Redirect"),
        (400, StatusCode::BAD_REQUEST, "Bad Request"),
        (401, StatusCode::UNAUTHORIZED, "Unauthorized"),
        (402, StatusCode::PAYMENT_REQUIRED, "Payment Required"),
        (403, StatusCode::FORBIDDEN, "Forbidden"),
        (404, StatusCode::NOT_FOUND, "Not Found"),
        (405, StatusCode::METHOD_NOT_ALLOWED, "Method Not Allowed"),
        (406, StatusCode::NOT_ACCEPTABLE, "Not Acceptable"),
        (407, StatusCode::PROXY_AUTHENTICATION_REQUIRED, "Proxy Authentication Required"),
        (408, StatusCode::REQUEST_TIMEOUT, "Request Timeout"),
        (409, StatusCode::CONFLICT, "Conflict"),
        (410, StatusCode::GONE, "Gone"),
        (411, StatusCode::LENGTH_REQUIRED, "Length Required"),
        (412, StatusCode::PRECONDITION_FAILED, "Precondition Failed"),
        (413, StatusCode::PAYLOAD_TOO_LARGE, "Payload Too Large"),
        (414, StatusCode::URI_TOO_LONG, "URI Too Long"),
        (415, StatusCode::UNSUPPORTED_MEDIA_TYPE, "Unsupported Media Type"),
        (416, StatusCode::RANGE_NOT_SATISFIABLE, "Range Not Satisfiable"),
        (417, StatusCode::EXPECTATION_FAILED, "Expectation Failed"),
        (418, StatusCode::IM_A_TEAPOT, "I'm a teapot"),
        (421, StatusCode::MISDIRECTED_REQUEST, "Misdirected Request"),
        (422, StatusCode::UNPROCESSABLE_ENTITY, "Unprocessable Entity"),
        (423, StatusCode::LOCKED, "Locked"),
        (424, StatusCode::FAILED_DEPENDENCY, "Failed Dependency"),
        (426, StatusCode::UPGRADE_REQUIRED, "Upgrade Required"),
        (428, StatusCode::PRECONDITION_REQUIRED, "Precondition Required"),
        (429, StatusCode::TOO_MANY_REQUESTS, "Too Many Requests"),
        (431, StatusCode::REQUEST_HEADER_FIELDS_TOO_LARGE, "Request Header Fields Too Large"),
        (451, StatusCode::UNAVAILABLE_FOR_LEGAL_REASONS, "Unavailable For Legal Reasons"),
        (500, StatusCode::INTERNAL_SERVER_ERROR, "Internal Server Error"),
        (501, StatusCode::NOT_IMPLEMENTED, "Not Implemented"),
        (502, StatusCode::BAD_GATEWAY, "Bad Gateway"),
        (503, StatusCode::SERVICE_UNAVAILABLE, "Service Unavailable"),
        (504, StatusCode::GATEWAY_TIMEOUT, "Gateway Timeout"),
        (505, StatusCode::HTTP_VERSION_NOT_SUPPORTED, "HTTP Version Not Supported"),
        (506, StatusCode::VARIANT_ALSO_NEGOTIATES, "Variant Also Negotiates"),
        (507, StatusCode::INSUFFICIENT_STORAGE, "Insufficient Storage"),
        (508, StatusCode::LOOP_DETECTED, "Loop Detected"),
        (510, StatusCode::NOT_EXTENDED, "Not Extended"),
        (511, StatusCode::NETWORK_AUTHENTICATION_REQUIRED, "Network Authentication Required"),
    ]
}

fn reason_phrase(n: u16) -> Option<&'static str> {
    statuses().iter().find(|s| s.0 == n).map(|s| s.2)
}

fn methods() -> [(&'static str, Method, bool, bool); 9] {
    // name, value, request usually without body, response without body
    [
        ("GET", Method::Get, true, false),
        ("POST", Method::Post, false, false),
        ("PUT", Method::Put, false, false),
        ("DELETE", Method::Delete, false, false),
        ("HEAD", Method::Head, true, true),
        ("OPTIONS", Method::Options, true, true),
        ("CONNECT", Method::Connect, true, true),
        ("PATCH", Method::Patch, false, false),
        ("TRACE", Method::Trace, false, false),
    ]
}

fn schemes() -> [(&'static str, Scheme, Option<u16>); 5] {
    [("http", Scheme::Http, Some(80)), ("https", Scheme::Https, Some(443)), ("ws", Scheme::Ws, Some(80)), ("wss", Scheme::Wss, Some(443)), ("ftp", Scheme::Ftp, None)]
}

fn closes() -> [(u16, CloseCode); 15] {
    use CloseCode::*;
    [
        (1000, Normal), (1001, Away), (1002, Protocol), (1003, Unsupported), (1005, Status), (1006, Abnormal), (1007, Invalid), (1008, Policy),
        (1009, Size), (1010, Extension), (1011, Error), (1012, Restart), (1013, Again), (1015, Tls), (0, Empty),
    ]
}

fn opcodes() -> [Opcode; 16] {
    use Opcode::*;
    [Continuation, Text, Binary, NonControl1, NonControl2, NonControl3, NonControl4, NonControl5, Close, Ping, Pong, Control1, Control2, Control3, Control4, Control5]
}

fn reasons() -> [(u32, Reason, &'static str); 14] {
    [
        (0, Reason::NO_ERROR, "NO_ERROR"),
        (1, Reason::PROTOCOL_ERROR, "PROTOCOL_ERROR"),
        (2, Reason::INTERNAL_ERROR, "INTERNAL_ERROR"),
        (3, Reason::FLOW_CONTROL_ERROR, "FLOW_CONTROL_ERROR"),
        (4, Reason::SETTINGS_TIMEOUT, "SETTINGS_TIMEOUT"),
        (5, Reason::STREAM_CLOSED, "STREAM_CLOSED"),
        (6, Reason::FRAME_SIZE_ERROR, "FRAME_SIZE_ERROR"),
        (7, Reason::REFUSED_STREAM, "REFUSED_STREAM"),
        (8, Reason::CANCEL, "CANCEL"),
        (9, Reason::COMPRESSION_ERROR, "COMPRESSION_ERROR"),
        (10, Reason::CONNECT_ERROR, "CONNECT_ERROR"),
        (11, Reason::ENHANCE_YOUR_CALM, "ENHANCE_YOUR_CALM"),
        (12, Reason::INADEQUATE_SECURITY, "INADEQUATE_SECURITY"),
        (13, Reason::HTTP_1_1_REQUIRED, "HTTP_1_1_REQUIRED"),
    ]
}

fn kinds() -> [(u8, Kind); 10] {
    [
        (0, Kind::Data), (1, Kind::Headers), (2, Kind::Priority), (3, Kind::Reset), (4, Kind::Settings), (5, Kind::PushPromise), (6, Kind::Ping),
        (7, Kind::GoAway), (8, Kind::WindowUpdate), (9, Kind::Continuation),
    ]
}

// ---------------------------------------------------------------- codes

/// What travels, as its author meant it.
#[derive(Clone, PartialEq, Debug)]
enum Code {
    Status(u16),
    Method(String),
    Version(bool),
    Scheme(String),
    Close(u16),
    Opcode(u8),
    Reason(u32),
    Kind(u8),
}

/// The same as a value of the library.
#[derive(Clone, PartialEq, Debug)]
enum Val {
    Status(StatusCode),
    Method(Method),
    Version(Version),
    Scheme(Scheme),
    Close(CloseCode),
    Opcode(Opcode),
    Reason(Reason),
    Kind(Kind),
}

const TOKEN: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~";

fn gen_code(cx: &mut Ctx) -> Code {
    match cx.ch.below(10) {
        0 | 1 | 2 => Code::Status(if cx.ch.chance(1, 2) { cx.ch.range(100, 999) as u16 } else { statuses()[cx.ch.below(statuses().len() as u64) as usize].0 }),
        3 => Code::Method(if cx.ch.chance(1, 3) {
            let n = 1 + cx.ch.skew(12) as usize;
            (0..n).map(|_| TOKEN[cx.ch.below(TOKEN.len() as u64) as usize] as char).collect()
        } else {
            methods()[cx.ch.below(9) as usize].0.to_string()
        }),
        4 => Code::Version(cx.ch.chance(1, 2)),
        5 => Code::Scheme(if cx.ch.chance(1, 2) {
            let mut s = String::from("x");
            let n = cx.ch.skew(63) as usize;
            for _ in 0..n {
                s.push(b"abcdefghijklmnopqrstuvwxyz0123456789+-."[cx.ch.below(39) as usize] as char);
            }
            s
        } else {
            schemes()[cx.ch.below(5) as usize].0.to_string()
        }),
        6 => Code::Close(match cx.ch.below(4) {
            0 => cx.ch.below(65536) as u16,
            // around the registered ones and the ranges
            1 => cx.ch.pick(&[1u16, 999, 1004, 1014, 1016, 1017, 1099, 2999, 3000, 3999, 4000, 4999, 5000, 65535]),
            _ => closes()[cx.ch.below(15) as usize].0,
        }),
        7 => Code::Opcode(cx.ch.below(16) as u8),
        8 => Code::Reason(if cx.ch.chance(1, 3) { cx.ch.skew(u32::MAX as u64) as u32 } else { cx.ch.below(16) as u32 }),
        _ => Code::Kind(cx.ch.below(11) as u8),
    }
}

/// The value an application names it by: a constant where there is one.
fn named(c: &Code) -> Val {
    match c {
        Code::Status(n) => Val::Status(match statuses().iter().find(|s| s.0 == *n) {
            Some(s) => s.1,
            None => StatusCode::from_u16(*n).expect("a legal status"),
        }),
        Code::Method(s) => Val::Method(match methods().iter().find(|m| m.0 == s) {
            Some(m) => m.1.clone(),
            None => Method::Extension(s.clone()),
        }),
        Code::Version(ten) => Val::Version(if *ten { Version::Http10 } else { Version::Http11 }),
        Code::Scheme(s) => Val::Scheme(match schemes().iter().find(|m| m.0 == s) {
            Some(m) => m.1.clone(),
            None => Scheme::Extension(s.clone()),
        }),
        Code::Close(n) => Val::Close(match closes().iter().find(|m| m.0 == *n) {
            Some(m) => m.1,
            None => CloseCode::Other(*n),
        }),
        Code::Opcode(n) => Val::Opcode(opcodes()[*n as usize]),
        Code::Reason(n) => Val::Reason(match reasons().iter().find(|m| m.0 == *n) {
            Some(m) => m.1,
            None => Reason::from(*n),
        }),
        Code::Kind(n) => Val::Kind(match kinds().iter().find(|m| m.0 == *n) {
            Some(m) => m.1,
            None => Kind::Unregistered,
        }),
    }
}

/// Everything the library says about the value must be what the registries say.
fn means(cx: &mut Ctx, v: &Val, c: &Code) -> Res {
    cx.cov.lib_calls += 1;
    ensure!(*v == named(c), "code-changed", "{:?} arrived as {:?}", c, v);
    match (v, c) {
        (Val::Status(s), Code::Status(n)) => {
            let n = *n;
            ensure!(s.as_u16() == n && u16::from(*s) == n && *s == n && n == *s, "status-number", "{} is {}", n, s.as_u16());
            ensure!(s.as_str() == n.to_string(), "status-text", "{} is {:?}", n, s.as_str());
            ensure!(s.canonical_reason() == reason_phrase(n), "status-reason", "{} means {:?}", n, s.canonical_reason());
            let class = n / 100;
            ensure!(
                s.is_informational() == (class == 1) && s.is_success() == (class == 2) && s.is_redirection() == (class == 3) && s.is_client_error() == (class == 4) && s.is_server_error() == (class == 5),
                "status-class", "{} has another class", n
            );
            let d = format!("{}", s);
            ensure!(d.starts_with(&format!("{} ", n)) && reason_phrase(n).map_or(true, |p| d == format!("{} {}", n, p)), "status-display", "{} is shown as {:?}", n, d);
            let (k, h) = s.build_header();
            ensure!(k.as_bytes() == b":status" && h.as_bytes() == n.to_string().as_bytes(), "status-header", "{} as a pseudo field is {:?}: {:?}", n, k, h);
            let mut b = BinaryMut::new();
            let mut t = *s;
            let k = t.encode(&mut b);
            let want = format!("{} {}\r\n", n, reason_phrase(n).unwrap_or(""));
            ensure!(k.as_ref().ok() == Some(&want.len()) && b.chunk() == want.as_bytes(), "status-line", "{} is encoded as {} ({:?})", n, show(b.chunk()), k);
            // the order of codes is the order of their numbers
            let o = 100 + (cx.ch.below(900)) as u16;
            let os = match StatusCode::from_u16(o) {
                Ok(x) => x,
                Err(e) => return viol("status-refused", format!("{} {:?}", o, e)),
            };
            ensure!(s.cmp(&os) == n.cmp(&o) && (*s == os) == (n == o), "status-order", "{} against {}", n, o);
        }
        (Val::Method(m), Code::Method(s)) => {
            ensure!(m.as_str() == s && format!("{}", m) == *s, "method-text", "{:?} is {:?}", s, m.as_str());
            let (nb, rb) = methods().iter().find(|x| x.0 == s).map(|x| (x.2, x.3)).unwrap_or((false, false));
            ensure!(m.is_nobody() == nb && m.res_nobody() == rb, "method-body", "{:?}: {} {}", s, m.is_nobody(), m.res_nobody());
            let mut b = BinaryMut::new();
            let k = m.clone().encode(&mut b);
            ensure!(k.as_ref().ok() == Some(&s.len()) && b.chunk() == s.as_bytes(), "method-encode", "{:?} is encoded as {} ({:?})", s, show(b.chunk()), k);
        }
        (Val::Version(x), Code::Version(ten)) => {
            let t = if *ten { "HTTP/1.0" } else { "HTTP/1.1" };
            ensure!(x.as_str() == t && format!("{}", x) == t && x.is_http1() && !x.is_http2(), "version-text", "{} is {:?}", t, x);
            let mut b = BinaryMut::new();
            let k = x.clone().encode(&mut b);
            ensure!(k.as_ref().ok() == Some(&t.len()) && b.chunk() == t.as_bytes(), "version-encode", "{:?} is encoded as {} ({:?})", t, show(b.chunk()), k);
            for (v, t, one, two) in [(Version::Http2, "HTTP/2", false, true), (Version::Http3, "HTTP/3", false, false), (Version::Http10, "HTTP/1.0", true, false)] {
                ensure!(Version::from(t) == v && v.as_str() == t && v.is_http1() == one && v.is_http2() == two, "version-text", "{} is {:?}", t, v);
            }
        }
        (Val::Scheme(x), Code::Scheme(s)) => {
            ensure!(x.as_str() == s && format!("{}", x) == *s, "scheme-text", "{:?} is {:?}", s, x.as_str());
            ensure!(
                x.is_http() == (s == "http") && x.is_https() == (s == "https") && x.is_ws() == (s == "ws") && x.is_wss() == (s == "wss") && !x.is_none(),
                "scheme-kind", "{:?}", s
            );
            let mut b = BinaryMut::new();
            let k = x.clone().serialize(&mut b);
            ensure!(k.as_ref().ok() == Some(&s.len()) && b.chunk() == s.as_bytes(), "scheme-encode", "{:?} is encoded as {} ({:?})", s, show(b.chunk()), k);
        }
        (Val::Close(x), Code::Close(n)) => {
            let k: u16 = (*x).into();
            ensure!(k == *n, "close-number", "{} is {}", n, k);
        }
        (Val::Opcode(x), Code::Opcode(n)) => {
            ensure!(*x as u8 == *n, "opcode-number", "{} is {}", n, *x as u8);
        }
        (Val::Reason(x), Code::Reason(n)) => {
            ensure!(u32::from(*x) == *n, "reason-number", "{} is {}", n, u32::from(*x));
            let d = format!("{:?}", x);
            match reasons().iter().find(|r| r.0 == *n) {
                Some(r) => ensure!(d == r.2, "reason-name", "{} is named {:?}", n, d),
                None => ensure!(!reasons().iter().any(|r| r.2 == d), "reason-name", "{} is named {:?}", n, d),
            }
            // every registered error has a description of its own
            let o = cx.ch.below(15) as u32;
            ensure!((x.description() == Reason::from(o).description()) == (o == *n || (o > 13 && *n > 13)), "reason-description", "{} and {} are both {:?}", n, o, x.description());
            ensure!(format!("{}", x) == x.description(), "reason-display", "{}", n);
            // and it speaks of what the code is for
            const SUBJECT: [&[&str]; 14] = [
                &["not", "no error"], &["protocol error", "unspecific"], &["internal"], &["flow"], &["settings"], &["half-closed", "half closed", "closed stream"], &["size"],
                &["refuse"], &["no longer", "cancel"], &["compression"], &["connect request", "connect error", "connect_error"], &["load", "calm"], &["security"], &["http/1.1"],
            ];
            if let Some(words) = SUBJECT.get(*n as usize) {
                let d = x.description().to_ascii_lowercase();
                ensure!(words.iter().any(|w| d.contains(w)), "reason-meaning", "{} is described as {:?}", n, d);
            }
        }
        (Val::Kind(x), Code::Kind(n)) => {
            ensure!(*n > 9 || x.encode() == *n, "kind-number", "{} is {}", n, x.encode());
        }
        _ => return viol("code-kind", "another kind of code"),
    }
    Ok(())
}

/// The party stores the value in another form and makes it again from that.
fn convert(cx: &mut Ctx, v: Val) -> Res<Val> {
    cx.cov.lib_calls += 1;
    let bad = |w: &str| crate::ctx::Violation { class: "conversion-refused".into(), detail: w.to_string() };
    Ok(match v {
        Val::Status(s) => {
            cx.ev("status form", &[]);
            Val::Status(match cx.ch.below(8) {
                0 => StatusCode::from_u16(s.as_u16()).map_err(|_| bad("from_u16"))?,
                1 => StatusCode::try_from(u16::from(s)).map_err(|_| bad("try_from u16"))?,
                2 => StatusCode::from_bytes(s.as_str().as_bytes()).map_err(|_| bad("from_bytes"))?,
                3 => StatusCode::try_from(s.as_str().as_bytes()).map_err(|_| bad("try_from bytes"))?,
                4 => StatusCode::try_from(s.as_str()).map_err(|_| bad("try_from text"))?,
                5 => s.as_str().parse().map_err(|_| bad("parse"))?,
                6 => StatusCode::from(&s),
                _ => StatusCode::from_bytes(s.build_header().1.as_bytes()).map_err(|_| bad("pseudo field"))?,
            })
        }
        Val::Method(m) => Val::Method(match (cx.ch.below(3), &m) {
            (1, Method::Extension(_)) | (2, Method::Extension(_)) => m.clone(),
            (1, m) => Method::try_from(m.as_str()).map_err(|_| bad("method try_from"))?,
            (2, m) => {
                let mut t = m.as_str().to_string();
                if cx.ch.chance(1, 2) {
                    t = t.to_ascii_lowercase();
                }
                t.parse().map_err(|_| bad("method parse"))?
            }
            _ => m.clone(),
        }),
        Val::Version(x) => Val::Version(Version::from(x.as_str())),
        Val::Scheme(x) => Val::Scheme(match cx.ch.below(4) {
            0 => Scheme::try_from(x.as_str()).map_err(|_| bad("scheme try_from"))?,
            1 => x.as_str().parse().map_err(|_| bad("scheme parse"))?,
            2 => {
                let t = format!("{}:", x);
                let mut b = BinaryMut::from(t.into_bytes());
                Scheme::parse_scheme(&mut b).map_err(|_| bad("parse_scheme"))?
            }
            _ => match schemes().iter().find(|s| s.1 == x) {
                Some(s) => Scheme::try_from(&*s.0.to_ascii_uppercase()).map_err(|_| bad("scheme try_from"))?,
                None => x,
            },
        }),
        Val::Close(x) => {
            let n: u16 = x.into();
            Val::Close(if cx.ch.chance(1, 2) { CloseCode::from(n) } else { CloseCode::from(CloseData::new(x, "r".to_string()).status_code) })
        }
        Val::Opcode(x) => Val::Opcode(Opcode::new(x as u8).ok_or_else(|| bad("opcode"))?),
        Val::Reason(x) => Val::Reason(if cx.ch.chance(1, 2) {
            Reason::from(u32::from(x))
        } else {
            // as the bare code that frames carry
            let mut b = BinaryMut::new();
            let n = ErrorCode(x.into()).serialize(&mut b).map_err(|_| bad("error code"))?;
            ensure!(n == 4 && b.chunk() == &u32::from(x).to_be_bytes()[..], "error-code-octets", "{:?} is {} on the wire", x, show(b.chunk()));
            Reason::from(ErrorCode::parse(&mut b).0)
        }),
        Val::Kind(x) => Val::Kind(Kind::new(x.encode())),
    })
}

/// Forms that are no code at all, as they come from configuration or a broken peer: refused.
fn nonsense(cx: &mut Ctx) -> Res {
    cx.fault("damaged_code");
    cx.cov.lib_calls += 1;
    match cx.ch.below(6) {
        0 => {
            let n = match cx.ch.below(4) {
                0 => cx.ch.below(100) as u16,
                1 => cx.ch.pick(&[0u16, 1, 99, 1000, 1001, 1023, 1024, 10000, 65535]),
                // a legal number with bits lost above it
                2 => cx.ch.range(100, 999) as u16 + 1024 * cx.ch.range(1, 62) as u16,
                _ => cx.ch.range(1000, 65535) as u16,
            };
            ensure!(StatusCode::from_u16(n).is_err() && StatusCode::try_from(n).is_err(), "status-accepted", "{} became a status", n);
        }
        1 => {
            let mut t = format!("{}", cx.ch.range(100, 999)).into_bytes();
            let i = cx.ch.below(3) as usize;
            match cx.ch.below(4) {
                0 => {
                    t.remove(i);
                }
                1 => t.insert(i, b'0'),
                2 => t[0] = b'0',
                _ => t[i] = cx.ch.pick(b" +-/:;aAoO\x00\xb1\xff"),
            }
            let text = std::str::from_utf8(&t).ok();
            ensure!(
                StatusCode::from_bytes(&t).is_err() && StatusCode::try_from(&t[..]).is_err() && text.map_or(true, |t| t.parse::<StatusCode>().is_err() && StatusCode::try_from(t).is_err()),
                "status-accepted", "{} became a status", show(&t)
            );
        }
        2 => {
            let m = methods()[cx.ch.below(9) as usize].0;
            let mut t = m.to_string();
            match cx.ch.below(4) {
                0 => t.push(cx.ch.pick(b" \tSX") as char),
                1 => t.insert(0, ' '),
                2 => {
                    t.remove(cx.ch.below(m.len() as u64) as usize);
                }
                _ => t = t.to_ascii_lowercase(),
            }
            if !methods().iter().any(|m| m.0 == t) {
                // never taken for a method with another name
                let ok = match Method::try_from(&*t) {
                    Err(_) => true,
                    Ok(Method::Extension(s)) => s == t,
                    Ok(_) => false,
                };
                ensure!(ok, "method-accepted", "{:?} became {:?}", t, Method::try_from(&*t));
                let up = t.to_ascii_uppercase();
                if let Ok(x) = t.parse::<Method>() {
                    ensure!(x.as_str() == up || x.as_str() == t, "method-accepted", "{:?} became {:?}", t, x);
                }
            }
            ensure!(Method::None.encode(&mut BinaryMut::new()).is_err(), "method-accepted", "no method was encoded");
        }
        3 => {
            let v = ["HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3"][cx.ch.below(4) as usize];
            let mut t = v.to_string();
            match cx.ch.below(4) {
                0 => {
                    t.pop();
                }
                1 => t.push(cx.ch.pick(b" 01.") as char),
                2 => t.insert(0, ' '),
                _ => t = t.replace('/', " "),
            }
            if !["HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3"].contains(&&*t) {
                ensure!(Version::from(&*t) == Version::None, "version-accepted", "{:?} became {:?}", t, Version::from(&*t));
            }
            ensure!(Version::None.encode(&mut BinaryMut::new()).is_err(), "version-accepted", "no version was encoded");
        }
        4 => {
            let n = cx.ch.range(16, 255) as u8;
            ensure!(Opcode::new(n).is_none(), "opcode-accepted", "{} became {:?}", n, Opcode::new(n));
        }
        _ => {
            let n = cx.ch.range(10, 255) as u8;
            ensure!(Kind::new(n) == Kind::Unregistered, "kind-accepted", "{} became {:?}", n, Kind::new(n));
            let s = "x".repeat(cx.ch.range(65, 70) as usize);
            ensure!(Scheme::try_from(&*s).is_err(), "scheme-accepted", "{} octets", s.len());
            ensure!(Scheme::None.serialize(&mut BinaryMut::new()).is_err(), "scheme-accepted", "no scheme was encoded");
        }
    }
    Ok(())
}

/// One connection: its carriers and protocol state.
struct Conn {
    link: Link,
    rx: Vec<u8>,
    enc: Encoder,
    dec: Decoder,
    join: LibJoin,
}

impl Conn {
    fn new(cx: &mut Ctx) -> Conn {
        Conn { link: Link::new(cx), rx: vec![], enc: Encoder::new(), dec: Decoder::new(), join: LibJoin::default() }
    }
}

fn fail(e: webparse::WebError) -> crate::ctx::Violation {
    crate::ctx::Violation { class: "encode-error".into(), detail: format!("{:?}", e) }
}

/// How this code is put on this wire; the carrier is told to the receiver.
fn put(cx: &mut Ctx, c: &mut Conn, v: &Val, carrier: u64) -> Res<Vec<u8>> {
    let sid = StreamIdentifier(1 + 2 * cx.ch.below(50) as u32);
    match v {
        Val::Status(s) => {
            if carrier == 0 {
                let mut r = Response::new(());
                *r.status_mut() = *s;
                return r.httpdata().map_err(fail);
            }
            let mut f = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), sid), HeaderMap::new());
            *f.parts_mut() = Parts::response(*s);
            lib_encode_frame(cx, Frame::from(f), &mut c.enc)
        }
        Val::Method(m) => {
            if carrier == 0 {
                let b = Request::builder().method(m.clone());
                return b.url("http://a:1/").body(()).map_err(fail)?.http1_data().map_err(fail);
            }
            let mut f = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), sid), HeaderMap::new());
            let url = Url::parse(b"http://a:1/".to_vec()).map_err(fail)?;
            *f.parts_mut() = Parts::request(m.clone(), url, None);
            lib_encode_frame(cx, Frame::from(f), &mut c.enc)
        }
        Val::Version(x) => {
            if carrier == 0 {
                return Request::builder().method("GET").url("http://a/").version(x.clone()).body(()).map_err(fail)?.http1_data().map_err(fail);
            }
            let mut r = Response::new(());
            *r.version_mut() = x.clone();
            r.httpdata().map_err(fail)
        }
        Val::Scheme(x) => {
            let mut u = Url::new();
            u.scheme = x.clone();
            u.domain = Some("a".to_string());
            u.port = Some(7);
            u.path = "/".to_string();
            if carrier == 0 {
                return Response::builder().status(302u16).header("Location", u.to_string()).body(()).map_err(fail)?.httpdata().map_err(fail);
            }
            let mut f = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), sid), HeaderMap::new());
            *f.parts_mut() = Parts::request(Method::Get, u, None);
            lib_encode_frame(cx, Frame::from(f), &mut c.enc)
        }
        Val::Close(x) => {
            let mask = if carrier % 2 == 1 { Some([1, 2, 3, 4]) } else { None };
            let m = if *x == CloseCode::Normal && cx.ch.chance(1, 2) { CloseData { reason: "why".to_string(), ..CloseData::normal() } } else { CloseData::new(*x, "why".to_string()) };
            let r = if carrier < 2 {
                lib_write(cx, &OwnedMessage::Close(Some(m)), mask)?
            } else {
                lib_write(cx, &Message::close_because((*x).into(), "why"), mask)?
            };
            r.map_err(fail)
        }
        Val::Opcode(x) => {
            let mask = if carrier % 2 == 1 { Some([1, 2, 3, 4]) } else { None };
            lib_write(cx, &DataFrame::new(true, *x, b"data".to_vec()), mask)?.map_err(fail)
        }
        Val::Reason(x) => {
            let f: Frame<Binary> = if carrier == 0 { Frame::from(Reset::new(sid, *x)) } else { Frame::from(GoAway::new(sid, *x)) };
            lib_encode_frame(cx, f, &mut c.enc)
        }
        Val::Kind(x) => {
            let mut b = BinaryMut::new();
            let mut h = FrameHeader::new(*x, Flag::zero(), sid);
            h.length = 0;
            h.encode(&mut b).map_err(fail)?;
            Ok(b.chunk().to_vec())
        }
    }
}

fn frame(cx: &mut Ctx, c: &mut Conn) -> Res<Option<Frame<Binary>>> {
    while let Some((h, payload, n)) = lib_take(cx, &c.rx)? {
        c.rx.drain(..n);
        match c.join.push(h, payload) {
            Ok(None) => continue,
            Err(e) => return viol("join-error", format!("{:?}", e)),
            Ok(Some((h, b))) => {
                return match lib_parse(cx, h, &b, &mut c.dec, NO_LIMIT, true)? {
                    Ok((_, f)) => Ok(f),
                    Err(e) => viol("frame-error", format!("{:?} for {}", e, show(&b))),
                }
            }
        }
    }
    Ok(None)
}

fn take(cx: &mut Ctx, c: &mut Conn, v: &Val, carrier: u64) -> Res<Option<Val>> {
    let kind = cx.ch.below(5);
    macro_rules! resp {
        ($f:expr) => {{
            let mut r = Response::new(());
            match parse_any_resp(cx, &mut r, &c.rx, kind)? {
                Ok(n) => {
                    c.rx.drain(..n);
                    $f(&r)
                }
                Err(e) if e.is_partial() => Ok(None),
                Err(e) => viol("parse-error", format!("{:?} for {}", e, show(&c.rx))),
            }
        }};
    }
    macro_rules! req {
        ($f:expr) => {{
            let mut r = Request::new();
            match parse_any_req(cx, &mut r, &c.rx, kind)? {
                Ok(n) => {
                    c.rx.drain(..n);
                    $f(&r)
                }
                Err(e) if e.is_partial() => Ok(None),
                Err(e) => viol("parse-error", format!("{:?} for {}", e, show(&c.rx))),
            }
        }};
    }
    macro_rules! head {
        ($f:expr) => {
            match frame(cx, c)? {
                None => Ok(None),
                Some(Frame::Headers(h)) => $f(h),
                Some(_) => viol("frame-kind", "HEADERS expected"),
            }
        };
    }
    match v {
        Val::Status(_) if carrier == 0 => resp!(|r: &Response<()>| Ok(Some(Val::Status(r.status())))),
        Val::Status(_) => head!(|h: Headers| match h.into_response(Response::builder()).and_then(|b| b.body(())) {
            Ok(r) => Ok(Some(Val::Status(r.status()))),
            Err(e) => viol("convert-error", format!("{:?}", e)),
        }),
        Val::Method(_) if carrier == 0 => req!(|r: &Request<()>| Ok(Some(Val::Method(r.method().clone())))),
        Val::Method(_) => head!(|h: Headers| match h.into_request(Request::builder()).and_then(|b| b.body(())) {
            Ok(r) => Ok(Some(Val::Method(r.method().clone()))),
            Err(e) => viol("convert-error", format!("{:?}", e)),
        }),
        Val::Version(_) if carrier == 0 => req!(|r: &Request<()>| Ok(Some(Val::Version(r.version().clone())))),
        Val::Version(_) => resp!(|r: &Response<()>| Ok(Some(Val::Version(r.version())))),
        Val::Scheme(_) if carrier == 0 => resp!(|r: &Response<()>| {
            let t = r.headers().get_str_value(&"Location").unwrap_or_default();
            match Url::parse(t.clone().into_bytes()) {
                Ok(u) => Ok(Some(Val::Scheme(u.scheme))),
                Err(e) => viol("parse-error", format!("{:?} for {:?}", e, t)),
            }
        }),
        Val::Scheme(_) => head!(|h: Headers| match h.into_request(Request::builder()).and_then(|b| b.body(())) {
            Ok(r) => Ok(Some(Val::Scheme(r.scheme().clone()))),
            Err(e) => viol("convert-error", format!("{:?}", e)),
        }),
        Val::Close(_) | Val::Opcode(_) => {
            let how = cx.ch.below(2);
            match lib_read(cx, &c.rx, carrier % 2 == 1, how, 1000, kind) {
                Err(e) if needs_more(&e) => Ok(None),
                Err(e) => viol("parse-error", format!("{:?} for {}", e, show(&c.rx))),
                Ok((d, n)) => {
                    c.rx.drain(..n);
                    if let Val::Opcode(_) = v {
                        return Ok(Some(Val::Opcode(d.opcode)));
                    }
                    match OwnedMessage::from_dataframes(vec![d]) {
                        Ok(OwnedMessage::Close(Some(x))) => Ok(Some(Val::Close(CloseCode::from(x.status_code)))),
                        x => viol("message-kind", format!("{:?}", x)),
                    }
                }
            }
        }
        Val::Reason(_) => match frame(cx, c)? {
            None => Ok(None),
            Some(Frame::Reset(r)) => Ok(Some(Val::Reason(r.reason()))),
            Some(Frame::GoAway(r)) => Ok(Some(Val::Reason(r.reason()))),
            Some(_) => viol("frame-kind", "RST_STREAM or GOAWAY expected"),
        },
        Val::Kind(_) => {
            if c.rx.len() < 9 {
                return Ok(None);
            }
            let mut b = BinaryMut::from(c.rx.clone());
            let h = match FrameHeader::parse(&mut b) {
                Ok(h) => h,
                Err(e) => return viol("parse-error", format!("{:?} for {}", e, show(&c.rx))),
            };
            c.rx.drain(..9);
            Ok(Some(Val::Kind(*h.kind())))
        }
    }
}

pub fn c20_codes(cx: &mut Ctx) -> Res {
    let hops = 1 + cx.ch.below(3) as usize;
    let mut conns: Vec<Conn> = vec![];
    for _ in 0..hops {
        conns.push(Conn::new(cx));
    }
    let n = 1 + cx.ch.below(4);
    let mut q: Queue<(bool, Vec<u8>)> = Queue::new();
    for _ in 0..n {
        let code = gen_code(cx);
        cx.note(|| format!("{:?}", code));
        let mut v = named(&code);
        means(cx, &v, &code)?;
        for c in conns.iter_mut() {
            let k = cx.ch.below(4);
            for _ in 0..k {
                v = convert(cx, v)?;
                means(cx, &v, &code)?;
            }
            if cx.ch.chance(1, 4) {
                nonsense(cx)?;
            }
            let carrier = cx.ch.below(match v {
                Val::Close(_) => 4,
                Val::Kind(_) => 1,
                _ => 2,
            });
            if let Val::Method(Method::Extension(m)) = &v {
                // the library's receivers know the registered methods only
                let wire = put(cx, c, &v, 0)?;
                ensure!(wire.starts_with(format!("{} / HTTP/1.1\r\n", m).as_bytes()), "method-encode", "{:?} was sent as {}", m, show(&wire));
                continue;
            }
            let wire = put(cx, c, &v, carrier)?;
            cx.bytes_ev("wire", &wire);
            // nothing stateful is lost when a text connection is cut and the message sent again
            let stateless = carrier == 0 && matches!(v, Val::Status(_) | Val::Method(_) | Val::Version(_) | Val::Scheme(_));
            let mut base = 0;
            if stateless && wire.len() > 1 && cx.ch.chance(1, 6) {
                let k = cx.ch.range(1, wire.len() as u64 - 1) as usize;
                for (at, s) in c.link.segments(cx, &wire[..k], &[]) {
                    q.push(cx, at, (false, s));
                    base = base.max(at + 1 - cx.now);
                }
                let at = cx.now + base;
                q.push(cx, at, (true, vec![]));
                base += 5000;
            }
            for (at, s) in c.link.segments(cx, &wire, &[]) {
                q.push(cx, at + base, (false, s));
            }
            let mut got = None;
            while let Some((cut, s)) = q.pop(cx) {
                if cut {
                    cx.fault("connection_cut");
                    c.rx.clear();
                    continue;
                }
                cx.cov.deliveries += 1;
                cx.ev("rx", &[s.len() as u64]);
                ensure!(got.is_none(), "early", "complete before its last octets arrived");
                c.rx.extend_from_slice(&s);
                got = take(cx, c, &v, carrier)?;
            }
            match got {
                Some(x) => v = x,
                None => return viol("not-delivered", format!("{:?} in {}", code, show(&c.rx))),
            }
            ensure!(c.rx.is_empty(), "trailing", "{} octets left", c.rx.len());
            means(cx, &v, &code)?;
            cx.message();
            cx.fault("intermediary_hop");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- typed stores

struct Tag<const N: usize> {
    id: u64,
    val: u64,
    drops: Arc<Vec<AtomicU32>>,
}

impl<const N: usize> Drop for Tag<N> {
    fn drop(&mut self) {
        self.drops[self.id as usize].fetch_add(1, Ordering::SeqCst);
    }
}

const TYPES: u64 = 24;
const MAX_VALUES: usize = 512;

macro_rules! with_type {
    ($i:expr, $t:ident, $body:expr) => {
        match $i {
            0 => { type $t = Tag<0>; $body }
            1 => { type $t = Tag<1>; $body }
            2 => { type $t = Tag<2>; $body }
            3 => { type $t = Tag<3>; $body }
            4 => { type $t = Tag<4>; $body }
            5 => { type $t = Tag<5>; $body }
            6 => { type $t = Tag<6>; $body }
            7 => { type $t = Tag<7>; $body }
            8 => { type $t = Tag<8>; $body }
            9 => { type $t = Tag<9>; $body }
            10 => { type $t = Tag<10>; $body }
            11 => { type $t = Tag<11>; $body }
            12 => { type $t = Tag<12>; $body }
            13 => { type $t = Tag<13>; $body }
            14 => { type $t = Tag<14>; $body }
            15 => { type $t = Tag<15>; $body }
            16 => { type $t = Tag<16>; $body }
            17 => { type $t = Tag<17>; $body }
            18 => { type $t = Tag<18>; $body }
            19 => { type $t = Tag<19>; $body }
            20 => { type $t = Tag<20>; $body }
            21 => { type $t = Tag<21>; $body }
            22 => { type $t = Tag<22>; $body }
            _ => { type $t = Tag<23>; $body }
        }
    };
}

enum Holder {
    Bare(Extensions),
    Req(Request<String>),
    Resp(Response<String>),
}

impl Holder {
    fn ext(&mut self) -> &mut Extensions {
        match self {
            Holder::Bare(e) => e,
            Holder::Req(r) => r.extensions_mut(),
            Holder::Resp(r) => r.extensions_mut(),
        }
    }
    fn look(&self) -> &Extensions {
        match self {
            Holder::Bare(e) => e,
            Holder::Req(r) => r.extensions(),
            Holder::Resp(r) => r.extensions(),
        }
    }
}

type Model = BTreeMap<u64, (u64, u64)>;

fn observe(e: &Extensions, m: &Model) -> Res {
    ensure!(e.len() == m.len(), "store-len", "{} for {} stored types", e.len(), m.len());
    ensure!(e.is_empty() == m.is_empty(), "store-empty", "is_empty says {} for {} stored types", e.is_empty(), m.len());
    for t in 0..TYPES {
        let got = with_type!(t, T, e.get::<T>().map(|x| (x.id, x.val)));
        ensure!(got == m.get(&t).copied(), "store-get", "type {}: {:?}, stored {:?}", t, got, m.get(&t));
    }
    ensure!(e.get::<u8>().is_none(), "store-get", "a type never stored was found");
    Ok(())
}

/// One operation of a task on the store it owns, and the same on the model.
fn operate(h: &mut Holder, m: &mut Model, op: u64, t: u64, id: u64, val: u64, drops: &Arc<Vec<AtomicU32>>) -> Res<bool> {
    let e = h.ext();
    let mut used = false;
    match op {
        0 | 1 | 2 => {
            used = true;
            let old = with_type!(t, T, e.insert(T { id, val, drops: drops.clone() }).map(|x| (x.id, x.val)));
            let want = m.insert(t, (id, val));
            ensure!(old == want, "store-insert", "insert returned {:?}, stored was {:?}", old, want);
        }
        3 => {
            let old = with_type!(t, T, e.remove::<T>().map(|x| (x.id, x.val)));
            let want = m.remove(&t);
            ensure!(old == want, "store-remove", "remove returned {:?}, stored was {:?}", old, want);
        }
        4 => {
            let got = with_type!(t, T, e.get_mut::<T>().map(|x| {
                x.val = val;
                x.id
            }));
            let want = m.get_mut(&t).map(|x| {
                x.1 = val;
                x.0
            });
            ensure!(got == want, "store-get-mut", "{:?}, stored {:?}", got, want);
        }
        _ => {
            e.clear();
            m.clear();
        }
    }
    observe(h.look(), m)?;
    Ok(used)
}

pub fn c20_stores(cx: &mut Ctx) -> Res {
    let drops: Arc<Vec<AtomicU32>> = Arc::new((0..MAX_VALUES).map(|_| AtomicU32::new(0)).collect());
    let mut next = 0u64;
    let n = 2 + cx.ch.below(3) as usize;
    let mut hs: Vec<(Holder, Model)> = vec![];
    for _ in 0..n {
        hs.push((new_holder(cx, &drops, &mut next)?, Model::new()));
        let i = hs.len() - 1;
        // a builder may have stored something
        if let (Holder::Resp(r), m) = &mut hs[i] {
            for t in 0..TYPES {
                if let Some(x) = with_type!(t, T, r.extensions().get::<T>().map(|x| (x.id, x.val))) {
                    m.insert(t, x);
                }
            }
            ensure!(m.values().all(|x| x.1 == 7) && m.len() as u64 == next - m.values().map(|x| x.0).min().unwrap_or(next), "builder-extension", "{:?}", m);
        }
    }
    let crowded = cx.ch.chance(1, 8);
    let steps = if crowded { 60 + cx.ch.skew(200) } else { 3 + cx.ch.skew(40) };
    let mut live: Vec<u64> = vec![];
    for s in 0..steps {
        let i = cx.ch.below(n as u64) as usize;
        let act = cx.ch.below(12);
        cx.ev("store step", &[act, i as u64]);
        match act {
            0..=7 => {
                let (mut op, mut t, val) = (cx.ch.below(6), cx.ch.below(5), cx.ch.below(1000));
                if crowded {
                    t = cx.ch.below(TYPES);
                    if op > 2 && cx.ch.chance(2, 3) {
                        op = 0;
                    }
                }
                if next as usize >= MAX_VALUES {
                    break;
                }
                let (h, m) = &mut hs[i];
                let d = drops.clone();
                let used = if cx.ch.chance(1, 10) {
                    // the task is resumed by another worker thread
                    cx.fault("thread_migration");
                    std::thread::scope(|sc| sc.spawn(move || operate(h, m, op, t, next, val, &d)).join()).unwrap_or_else(|_| viol("store-panic", "an operation panicked"))?
                } else {
                    operate(h, m, op, t, next, val, &d)?
                };
                if used {
                    next += 1;
                }
            }
            8 => {
                // everything one store holds goes to another
                let j = cx.ch.below(n as u64) as usize;
                if i != j {
                    let e = std::mem::take(hs[j].0.ext());
                    let m = std::mem::take(&mut hs[j].1);
                    hs[i].0.ext().extend(e);
                    hs[i].1.extend(m);
                    observe(hs[j].0.look(), &hs[j].1)?;
                }
            }
            9 => {
                // the connection goes away with everything it held
                cx.fault("connection_reset");
                let h = new_holder(cx, &drops, &mut next)?;
                let mut m = Model::new();
                if next as usize >= MAX_VALUES {
                    break;
                }
                for t in 0..TYPES {
                    if let Some(x) = with_type!(t, T, h.look().get::<T>().map(|x| (x.id, x.val))) {
                        m.insert(t, x);
                    }
                }
                hs[i] = (h, m);
            }
            10 => {
                // the message is turned into another form; its store goes along
                let body = format!("b{}", s);
                let h = std::mem::replace(&mut hs[i].0, Holder::Bare(Extensions::new()));
                hs[i].0 = match (h, cx.ch.below(6)) {
                    (Holder::Bare(e), _) => Holder::Bare(e),
                    (Holder::Req(r), 0) => Holder::Req(r.into(body).0),
                    (Holder::Req(r), 1) => Holder::Req(r.into_type::<String>()),
                    (Holder::Req(mut r), 2) => {
                        // the head goes from one task to another
                        let p = std::mem::replace(r.parts_mut(), webparse::http::request::Parts::new());
                        Holder::Req(Request::new_by_parts(p).into(body).0)
                    }
                    (Holder::Req(r), 3) => Holder::Req(r.into_type::<String>().into(Vec::<u8>::new()).0.into(body).0),
                    (Holder::Req(mut r), _) => {
                        // the copy works on the connection's compression table, not on one of its own
                        let table = if cx.ch.chance(1, 2) { Some(Arc::new(RwLock::new(HeaderIndex::new()))) } else { None };
                        if let Some(t) = &table {
                            r.extensions_mut().insert(t.clone());
                        }
                        let mut c = r.replace_clone(body);
                        for e in [r.extensions_mut(), c.extensions_mut()] {
                            let got = e.remove::<Arc<RwLock<HeaderIndex>>>();
                            let same = match (&got, &table) {
                                (Some(g), Some(t)) => Arc::ptr_eq(g, t),
                                (None, None) => true,
                                _ => false,
                            };
                            ensure!(same, "store-table", "the compression table of a copied message: stored {}, found {}", table.is_some(), got.is_some());
                        }
                        check_clone(c.extensions(), &hs[i].1)?;
                        Holder::Req(r)
                    }
                    (Holder::Resp(r), 0) => Holder::Resp(r.into(body).0),
                    (Holder::Resp(r), 1) => Holder::Resp(r.map(|b| b + "x")),
                    (Holder::Resp(r), 2) => Holder::Resp(r.into_type::<String>()),
                    (Holder::Resp(r), 3) => {
                        let (p, b) = r.into_parts();
                        Holder::Resp(Response::from_parts(p, b))
                    }
                    (Holder::Resp(r), 4) => Holder::Resp(r.into_binary().into(body).0),
                    (Holder::Resp(mut r), _) => {
                        // the copy works on the connection's compression table, not on one of its own
                        let table = if cx.ch.chance(1, 2) { Some(Arc::new(RwLock::new(HeaderIndex::new()))) } else { None };
                        if let Some(t) = &table {
                            r.extensions_mut().insert(t.clone());
                        }
                        let mut c = r.replace_clone(body);
                        for e in [r.extensions_mut(), c.extensions_mut()] {
                            let got = e.remove::<Arc<RwLock<HeaderIndex>>>();
                            let same = match (&got, &table) {
                                (Some(g), Some(t)) => Arc::ptr_eq(g, t),
                                (None, None) => true,
                                _ => false,
                            };
                            ensure!(same, "store-table", "the compression table of a copied message: stored {}, found {}", table.is_some(), got.is_some());
                        }
                        check_clone(c.extensions(), &hs[i].1)?;
                        Holder::Resp(r)
                    }
                };
            }
            _ => {
                let j = cx.ch.below(n as u64) as usize;
                if i != j {
                    let (a, b) = if i < j { (i, j) } else { (j, i) };
                    let (x, y) = hs.split_at_mut(b);
                    std::mem::swap(x[a].0.ext(), y[0].0.ext());
                    std::mem::swap(&mut x[a].1, &mut y[0].1);
                }
            }
        }
        // the others are untouched, what is held is alive, what is not was dropped once
        live.clear();
        for (h, m) in &hs {
            observe(h.look(), m)?;
            live.extend(m.values().map(|x| x.0));
        }
        for id in 0..next {
            let d = drops[id as usize].load(Ordering::SeqCst);
            ensure!(d == if live.contains(&id) { 0 } else { 1 }, "store-drop", "value {} (stored: {}) was dropped {} times", id, live.contains(&id), d);
        }
        cx.message();
    }
    drop(hs);
    for id in 0..next {
        let d = drops[id as usize].load(Ordering::SeqCst);
        ensure!(d == 1, "store-drop", "value {} was dropped {} times in the end", id, d);
    }
    Ok(())
}

/// A copy of a message carries nothing that its original does not.
fn check_clone(e: &Extensions, m: &Model) -> Res {
    for t in 0..TYPES {
        let got = with_type!(t, T, e.get::<T>().map(|x| (x.id, x.val)));
        ensure!(got.is_none() || got == m.get(&t).copied(), "store-clone", "type {}: {:?}, stored {:?}", t, got, m.get(&t));
    }
    Ok(())
}

fn new_holder(cx: &mut Ctx, drops: &Arc<Vec<AtomicU32>>, next: &mut u64) -> Res<Holder> {
    cx.cov.lib_calls += 1;
    Ok(match cx.ch.below(3) {
        0 => Holder::Bare(Extensions::new()),
        1 => Holder::Req(Request::builder().method("GET").url("/").body(String::new()).map_err(fail)?),
        _ => {
            let mut b = Response::builder();
            if cx.ch.chance(1, 2) {
                b = b.extension(Tag::<1> { id: *next, val: 7, drops: drops.clone() });
                *next += 1;
                ensure!(b.extensions_ref().and_then(|e| e.get::<Tag<1>>()).map(|x| x.id) == Some(*next - 1), "builder-extension", "extension not found");
            }
            Holder::Resp(b.status(200u16).body(String::new()).map_err(fail)?)
        }
    })
}
