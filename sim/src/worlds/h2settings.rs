//! C15: settings through the h2c upgrade and through SETTINGS frames.
use super::h1::parse_any_req;
use super::h1relay::encode_any_req;
use super::h2frames::{build, lib_encode_frame, new_encoder, settings_of, Rx, Step};
use crate::alloc;
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::h2::{self as h2, MF, Raw};
use crate::model::http1 as m1;
use crate::net::{Link, Queue};
use std::collections::BTreeMap;
use webparse::http2::frame::{Frame, Settings};
use webparse::{Request, WebError};

type Vals = BTreeMap<u16, u32>;

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn b64_encode(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(B64[(v >> (18 - 6 * i)) as usize & 63]);
        }
    }
    o
}

/// The octets of an unpadded base64url token; `exact` is false when unused bits are set.
fn b64_decode(t: &[u8]) -> Option<(Vec<u8>, bool)> {
    let mut bits = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for c in t {
        let v = B64.iter().position(|x| x == c)? as u32;
        bits = bits << 6 | v;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((bits >> n) as u8);
            bits &= (1 << n) - 1;
        }
    }
    if t.len() % 4 == 1 {
        return None;
    }
    Some((o, bits == 0))
}

fn payload(cx: &mut Ctx, vals: &Vals, free: bool) -> Vec<u8> {
    let mut list: Vec<(u16, u32)> = vals.iter().map(|(k, v)| (*k, *v)).collect();
    if free {
        // any order, values sent again, settings nobody knows
        for i in (1..list.len()).rev() {
            let j = cx.ch.below(i as u64 + 1) as usize;
            list.swap(i, j);
        }
        let extra = if cx.ch.chance(1, 60) { cx.ch.pick(&[10u64, 15, 16, 17, 31, 32, 64, 100, 200]) } else { cx.ch.below(3) };
        for _ in 0..extra {
            if !list.is_empty() && cx.ch.chance(1, 2) {
                let at = cx.ch.below(list.len() as u64) as usize;
                let k = list[at].0;
                let v = match k {
                    2 | 8 => cx.ch.below(2) as u32,
                    5 => cx.ch.range(16_384, 16_777_215) as u32,
                    4 => cx.ch.below(1 << 31) as u32,
                    _ => cx.ch.below(1 << 32) as u32,
                };
                let i = cx.ch.below(at as u64 + 1) as usize;
                list.insert(i, (k, v));
                cx.probe("parameter_repeated");
            } else {
                let i = cx.ch.below(list.len() as u64 + 1) as usize;
                let k = cx.ch.pick(&[0u16, 7, 9, 0x10, 0x0a0a, 0xffff]);
                let v = cx.ch.below(1 << 32) as u32;
                list.insert(i, (k, v));
                cx.probe("unknown_parameter");
            }
        }
    }
    let mut p = vec![];
    for (k, v) in list {
        p.extend_from_slice(&k.to_be_bytes());
        p.extend_from_slice(&v.to_be_bytes());
    }
    p
}

fn lib_settings(cx: &mut Ctx, vals: &Vals) -> Res<Settings> {
    match build(cx, &MF::Settings { ack: false, vals: vals.clone() }) {
        Frame::Settings(s) => Ok(s),
        _ => viol("harness", "not SETTINGS"),
    }
}

fn check_vals(got: &Vals, want: &Vals, what: &str) -> Res {
    ensure!(got == want, "settings-differ", "{}: sent {:?}, received {:?}", what, want, got);
    Ok(())
}

struct Client {
    head: Vec<u8>,
    vals: Vals,
    /// what an intact token would mean; None once it was damaged on purpose
    token: Vec<u8>,
    headers: Vec<(String, Vec<u8>)>,
    path: String,
}

/// Builds the upgrade request, by the library's builder or as another client would.
fn client(cx: &mut Ctx) -> Res<Client> {
    let lib = cx.ch.chance(1, 2);
    let vals = h2::gen_settings(cx, true);
    let path = cx.ch.pick(&["/", "/index.html", "/a/b"]).to_string();
    let mut extra = vec![];
    for _ in 0..cx.ch.below(3) {
        let n = m1::gen_name(cx);
        let l = m1::lower(&n);
        if !matches!(l.as_str(), "host" | "connection" | "upgrade" | "http2-settings") {
            extra.push((n, m1::gen_value(cx)));
        }
    }
    let before = cx.ch.below(extra.len() as u64 + 1) as usize;
    let put = |list: &mut Vec<(String, Vec<u8>)>, n: &str, v: &[u8]| {
        if let Some(e) = list.iter_mut().find(|e| m1::lower(&e.0) == m1::lower(n)) {
            e.1 = v.to_vec();
        } else {
            list.push((n.to_string(), v.to_vec()));
        }
    };
    if lib {
        let s = lib_settings(cx, &vals)?;
        let want_token = s.encode_http_settings();
        let mut b = Request::builder().method("GET").url(path.as_str()).header("Host", "example.org");
        let mut headers = vec![("Host".to_string(), b"example.org".to_vec())];
        for (n, v) in &extra[..before] {
            b = b.header(n.clone(), webparse::HeaderValue::from_bytes(v));
            put(&mut headers, n, v);
        }
        b = b.upgrade_http2(s.clone());
        put(&mut headers, "Connection", b"Upgrade, HTTP2-Settings");
        put(&mut headers, "Upgrade", b"h2c");
        put(&mut headers, "HTTP2-Settings", want_token.as_bytes());
        for (n, v) in &extra[before..] {
            b = b.header(n.clone(), webparse::HeaderValue::from_bytes(v));
            put(&mut headers, n, v);
        }
        let mut r = match b.body(()) {
            Ok(r) => r,
            Err(e) => return viol("builder-error", format!("{:?}", e)),
        };
        if !headers.iter().any(|e| m1::lower(&e.0) == "user-agent") {
            // the builder may introduce itself
            if let Some(v) = r.headers().get_option_value(&"user-agent") {
                headers.push(("User-Agent".to_string(), v.as_bytes().to_vec()));
            }
        }
        cx.cov.lib_calls += 1;
        match b64_decode(want_token.as_bytes()) {
            Some((o, true)) => match h2::read_settings(&o) {
                Ok(got) => check_vals(&got, &vals, "token")?,
                Err(b) => return viol("token-illegal", format!("{:?} in token {:?}", b, want_token)),
            },
            _ => return viol("token-illegal", format!("token {:?} is not base64url without padding", want_token)),
        }
        let head = encode_any_req(cx, &mut r)?;
        return Ok(Client { head, vals, token: want_token.into_bytes(), headers, path });
    }
    // another client: its own order, repeats and unknown parameters; then perhaps a damaged token
    let mut p = payload(cx, &vals, true);
    let mut token;
    match cx.ch.below(8) {
        0 => {
            // a value out of range
            let (k, v): (u16, u32) = cx.ch.pick(&[(2, 2), (2, u32::MAX), (4, 0x8000_0000), (4, u32::MAX), (5, 16_383), (5, 0), (5, 16_777_216), (8, 2)]);
            let at = 6 * cx.ch.below(p.len() as u64 / 6 + 1) as usize;
            let mut e = k.to_be_bytes().to_vec();
            e.extend_from_slice(&v.to_be_bytes());
            for (i, b) in e.into_iter().enumerate() {
                p.insert(at + i, b);
            }
            cx.fault("value_out_of_range");
            token = b64_encode(&p);
        }
        1 => {
            let cut = cx.ch.below(p.len() as u64 + 1) as usize;
            p.truncate(cut);
            cx.fault("token_truncated");
            token = b64_encode(&p);
        }
        2 => {
            token = b64_encode(&p);
            if crate::net::corrupt(cx, &mut token, b"AZ-_=+/.!~") {
                token.retain(|b| *b > 0x20 && *b < 0x7f);
            }
        }
        3 => {
            token = b64_encode(&p);
            while token.len() % 4 != 0 {
                token.push(b'=');
            }
            cx.fault("token_padded");
        }
        4 => {
            let n = cx.ch.below(40);
            token = (0..n).map(|_| cx.ch.range(0x21, 0x7e) as u8).collect();
            cx.fault("token_noise");
        }
        _ => token = b64_encode(&p),
    }
    let mut headers = vec![("Host".to_string(), b"example.org".to_vec())];
    for (n, v) in &extra[..before] {
        put(&mut headers, n, v);
    }
    let conn = cx.ch.pick(&[&b"Upgrade, HTTP2-Settings"[..], b"upgrade, http2-settings", b"HTTP2-Settings, Upgrade", b"keep-alive, UPGRADE, HTTP2-Settings"]);
    put(&mut headers, "Connection", conn);
    put(&mut headers, cx.ch.pick(&["Upgrade", "upgrade"]), b"h2c");
    put(&mut headers, cx.ch.pick(&["HTTP2-Settings", "http2-settings", "Http2-settings"]), &token);
    for (n, v) in &extra[before..] {
        put(&mut headers, n, v);
    }
    let mut head = format!("GET {} HTTP/1.1\r\n", path).into_bytes();
    for (n, v) in &headers {
        head.extend_from_slice(n.as_bytes());
        head.extend_from_slice(b": ");
        head.extend_from_slice(v);
        head.extend_from_slice(b"\r\n");
    }
    head.extend_from_slice(b"\r\n");
    Ok(Client { head, vals, token, headers, path })
}

/// What the server makes of the token, held against an independent reading of it.
fn judge_token(cx: &mut Ctx, token: &[u8], r: Result<Settings, WebError>) -> Res<Option<Vals>> {
    let dec = b64_decode(token);
    let want = match &dec {
        Some((o, _)) => h2::read_settings(o).ok(),
        None => None,
    };
    // padding and unused bits may be tolerated, meaning what they would mean without
    let lenient = {
        let t: Vec<u8> = token.iter().copied().take_while(|b| *b != b'=').collect();
        let rest = &token[t.len()..];
        if rest.iter().all(|b| *b == b'=') { b64_decode(&t).and_then(|(o, _)| h2::read_settings(&o).ok()) } else { None }
    };
    let strict = matches!(dec, Some((_, true)));
    match r {
        Ok(s) => {
            let got = settings_of(&s);
            ensure!(!s.is_ack(), "settings-differ", "a token parsed as an acknowledgement");
            match want.or(lenient) {
                Some(w) => {
                    check_vals(&got, &w, &format!("token {}", show(token)))?;
                    Ok(Some(got))
                }
                None => viol("bad-token-accepted", format!("token {} gave {:?}", show(token), got)),
            }
        }
        Err(e) => {
            if strict {
                if let Some(w) = want {
                    return viol("good-token-refused", format!("{:?} for token {} which means {:?}", e, show(token), w));
                }
            }
            cx.probe("token_refused");
            Ok(None)
        }
    }
}

enum Ev {
    Data { to_server: bool, bytes: Vec<u8> },
    Send { from_client: bool },
}

struct End {
    rx: Rx,
    enc: webparse::http2::encoder::Encoder,
    link: Link,
    /// settings still to be sent, and what has been sent so far
    plan: Vec<Vals>,
    sent: usize,
    acks: usize,
    peer: Vals,
    peer_frames: usize,
    told: Vals,
}

/// The upgrade itself, then a history of SETTINGS in both directions on the same connection.
/// A frame size no peer may announce is not taken, whether the setter refuses it loudly or quietly.
fn refused_size(cx: &mut Ctx) -> Res {
    let v = cx.ch.pick(&[0u32, 1, 16_383, 16_777_216, 1 << 31, u32::MAX]);
    let mut s = Settings::default();
    let loud = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.set_max_frame_size(Some(v)))).is_err();
    ensure!(loud || s.max_frame_size() != Some(v), "size-out-of-range", "a maximum frame size of {} was taken", v);
    let v = cx.ch.pick(&[16_384u32, 16_385, 1 << 20, 16_777_214, 16_777_215]);
    s.set_max_frame_size(Some(v));
    ensure!(s.max_frame_size() == Some(v), "size-in-range", "a maximum frame size of {} became {:?}", v, s.max_frame_size());
    s.set_max_frame_size(None);
    ensure!(s.max_frame_size().is_none(), "size-in-range", "no maximum frame size became {:?}", s.max_frame_size());
    Ok(())
}

pub fn c15_upgrade(cx: &mut Ctx) -> Res {
    if cx.ch.chance(1, 16) {
        refused_size(cx)?;
    }
    let c = client(cx)?;
    cx.bytes_ev("head", &c.head);
    let relays = cx.ch.below(3);
    let mut wire = c.head.clone();
    for hop in 0..=relays {
        // each receiver reads the head from a segmented stream; relays pass it on
        let link = Link::new(cx);
        let end = wire.len();
        let mut data = wire.clone();
        let follow = cx.ch.below(30) as usize;
        let tail = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00";
        data.extend_from_slice(&tail[..follow]);
        let mut cuts = link.cuts(cx, data.len(), &[end]);
        cuts.push(data.len());
        let mut req = Request::new();
        let mut done = false;
        for cut in cuts {
            let kind = cx.ch.below(5);
            cx.cov.deliveries += 1;
            cx.ev("rx", &[hop, cut as u64]);
            match parse_any_req(cx, &mut req, &data[..cut], kind)? {
                Ok(n) => {
                    ensure!(n == end, "wrong-length", "upgrade head of {} bytes read as {}", end, n);
                    done = true;
                    break;
                }
                Err(e) => ensure!(e.is_partial() && cut < end, "error-on-prefix", "{:?} after {} of {} bytes of {}", e, cut, end, show(&data)),
            }
        }
        ensure!(done, "not-delivered", "the upgrade head was never complete");
        super::h1::check_headers(req.headers(), &c.headers)?;
        ensure!(req.path() == &c.path, "path", "sent {:?}, got {:?}", c.path, req.path());
        ensure!(req.headers().get_upgrade_protocol().as_deref() == Some("h2c"), "upgrade-not-seen", "protocol {:?} in {}", req.headers().get_upgrade_protocol(), show(&wire));
        if hop < relays {
            wire = encode_any_req(cx, &mut req)?;
            cx.probe("upgrade_relayed");
            continue;
        }
        let token = req.headers().get_str_value(&"http2-SETTINGS");
        ensure!(token.as_ref().map(|t| t.as_bytes()) == Some(&c.token[..]), "token-differs", "sent {}, got {:?}", show(&c.token), token);
        let token = token.unwrap();
        let b0 = alloc::start();
        // a server may read the token with whatever settings object it has at hand
        let base = if cx.ch.chance(1, 2) { Settings::default() } else { lib_settings(cx, &c.vals)? };
        let r = base.parse_http_settings(&token);
        ensure!(alloc::peak_since(b0) < 400_000, "allocation", "{} bytes", alloc::peak_since(b0));
        let got = judge_token(cx, &c.token, r)?;
        cx.message();
        let mut peer = match got {
            Some(v) => v,
            None => return Ok(()),
        };
        return history(cx, &mut peer);
    }
    Ok(())
}

fn history(cx: &mut Ctx, from_token: &mut Vals) -> Res {
    let mut q: Queue<Ev> = Queue::new();
    let mut ends = vec![];
    for side in 0..2 {
        let link = Link::new(cx);
        let n = cx.ch.below(5) as usize;
        let plan = (0..n).map(|_| h2::gen_settings(cx, true)).collect();
        let peer = if side == 1 { from_token.clone() } else { Vals::new() };
        let told = if side == 0 { from_token.clone() } else { Vals::new() };
        ends.push(End { rx: Rx::new(), enc: new_encoder(16_384), link, plan, sent: 0, acks: 0, peer, peer_frames: 0, told });
        for _ in 0..n {
            let at = cx.now + cx.ch.below(300);
            q.push(cx, at, Ev::Send { from_client: side == 0 });
        }
    }
    while let Some(ev) = q.pop(cx) {
        match ev {
            Ev::Send { from_client } => {
                let i = !from_client as usize;
                let vals = ends[i].plan[ends[i].sent].clone();
                let own = cx.ch.chance(1, 2);
                let wire = if own {
                    let f = build(cx, &MF::Settings { ack: false, vals: vals.clone() });
                    let w = lib_encode_frame(cx, f, &mut ends[i].enc)?;
                    // an independent look at what went out
                    match Raw::take(&w) {
                        Some((raw, n)) if n == w.len() && raw.kind == h2::SETTINGS && raw.flags & 1 == 0 && raw.sid == 0 => match h2::read_settings(&raw.payload) {
                            Ok(got) => check_vals(&got, &vals, "SETTINGS frame")?,
                            Err(b) => return viol("illegal-settings-sent", format!("{:?}: {}", b, show(&w))),
                        },
                        _ => return viol("illegal-settings-sent", show(&w)),
                    }
                    w
                } else {
                    let mut w = vec![];
                    let p = payload(cx, &vals, true);
                    Raw { kind: h2::SETTINGS, flags: 0, r: false, sid: 0, payload: p }.write(&mut w);
                    w
                };
                let e = &mut ends[i];
                e.sent += 1;
                for (k, v) in &vals {
                    e.told.insert(*k, *v);
                }
                post(cx, &mut q, &mut ends, i, wire);
            }
            Ev::Data { to_server, bytes } => {
                let i = to_server as usize;
                cx.cov.deliveries += 1;
                cx.ev("rx", &[i as u64, bytes.len() as u64]);
                ends[i].rx.buf.extend_from_slice(&bytes);
                loop {
                    match ends[i].rx.step(cx, None, false)? {
                        Step::More => break,
                        Step::Skipped => continue,
                        Step::Frame(MF::Settings { ack: true, .. }, _) => ends[i].acks += 1,
                        Step::Frame(MF::Settings { ack: false, vals }, _) => {
                            let e = &mut ends[i];
                            e.peer_frames += 1;
                            for (k, v) in vals {
                                e.peer.insert(k, v);
                            }
                            cx.message();
                            let f = Frame::Settings(Settings::ack());
                            let w = lib_encode_frame(cx, f, &mut ends[i].enc)?;
                            post(cx, &mut q, &mut ends, i, w);
                        }
                        Step::Frame(f, _) => return viol("settings-differ", format!("SETTINGS arrived as {}", f.show())),
                    }
                }
            }
        }
    }
    for i in 0..2 {
        let (a, b) = (&ends[i], &ends[1 - i]);
        ensure!(b.peer_frames == a.sent && a.acks == a.sent && b.rx.buf.is_empty(), "not-delivered", "{} SETTINGS sent, {} received, {} acknowledged", a.sent, b.peer_frames, a.acks);
        check_vals(&b.peer, &a.told, "after the history")?;
    }
    Ok(())
}

fn post(cx: &mut Ctx, q: &mut Queue<Ev>, ends: &mut [End], i: usize, wire: Vec<u8>) {
    let segs = ends[i].link.segments(cx, &wire, &[9]);
    for (at, s) in segs {
        q.push(cx, at, Ev::Data { to_server: i == 0, bytes: s });
    }
}
