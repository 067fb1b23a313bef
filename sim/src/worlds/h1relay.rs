//! C03: chains of intermediaries that parse, optionally edit, and re-encode HTTP/1 messages.
use super::h1::{check_req, check_resp, parse_any_req, parse_any_resp};
use crate::buf::SimSink;
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::http1::{self as m, Read, Req, Resp};
use crate::net::{Link, Queue};
use algorithm::buf::{Bt, BinaryMut};
use webparse::{Request, Response};

#[derive(Clone)]
enum Sent {
    Q(Req),
    S(Resp),
}

struct Node {
    rx: Vec<u8>,
    link: Link,
    next: usize,
    /// this relay's view of what each message should look like when it arrives
    reuse: bool,
    req: Request<()>,
    resp: Response<()>,
    edits: bool,
    sink: u64,
}

struct Deliver {
    node: usize,
    bytes: Vec<u8>,
}

/// Encodes with one of several sinks; checks the returned count and what the sink held before.
macro_rules! encode_via {
    ($cx:expr, $o:expr, $kind:expr, $data:ident) => {{
        $cx.cov.lib_calls += 1;
        let out: Vec<u8> = match $kind {
            0 => {
                let mut b = BinaryMut::new();
                match $o.encode_header(&mut b) {
                    Ok(_) => b.chunk().to_vec(),
                    Err(e) => return viol("encode-error", format!("{:?}", e)),
                }
            }
            1 => match $o.$data() {
                Ok(v) => v,
                Err(e) => return viol("encode-error", format!("{:?}", e)),
            },
            2 => {
                let mut b = SimSink::new(b"earlier output", 7);
                match $o.encode_header(&mut b) {
                    Ok(_) => b.written()[14..].to_vec(),
                    Err(e) => return viol("encode-error", format!("{:?}", e)),
                }
            }
            _ => {
                let mut c = $o.replace_clone(());
                match c.$data() {
                    Ok(v) => v,
                    Err(e) => return viol("encode-error", format!("{:?}", e)),
                }
            }
        };
        out
    }};
}

fn set(list: &mut Vec<(String, Vec<u8>)>, n: &str, v: &[u8]) {
    if let Some(e) = list.iter_mut().find(|e| m::lower(&e.0) == m::lower(n)) {
        e.1 = v.to_vec();
    } else {
        list.push((n.to_string(), v.to_vec()));
    }
}

/// A request head through a drawn sink.
pub fn encode_any_req(cx: &mut Ctx, o: &mut Request<()>) -> Res<Vec<u8>> {
    let kind = cx.ch.below(4);
    Ok(encode_via!(cx, o, kind, http1_data))
}

/// Header edits a relay makes, applied to the library object and to the model alike.
fn edit(cx: &mut Ctx, h: &mut webparse::HeaderMap, model: &mut Vec<(String, Vec<u8>)>) {
    match cx.ch.below(3) {
        0 => {
            let v = format!("1.1 relay{}", cx.ch.below(10));
            h.insert("Via", v.clone());
            set(model, "Via", v.as_bytes());
        }
        1 => {
            let v = format!("10.0.0.{}", cx.ch.below(256));
            h.insert("x-forwarded-for".to_string(), v.clone());
            set(model, "x-forwarded-for", v.as_bytes());
        }
        _ => {
            if let Some((n, _)) = model.iter().find(|e| {
                let l = m::lower(&e.0);
                l != "host" && l != "content-length"
            }) {
                let n = n.clone();
                h.remove(&n);
                model.retain(|e| m::lower(&e.0) != m::lower(&n));
            }
        }
    }
    cx.probe("relay_edited_headers");
}

fn body_of(cx: &mut Ctx) -> Vec<u8> {
    let n = cx.ch.skew(80) as usize;
    (0..n).map(|_| cx.ch.pick(b"\r\n :GETaHTTP/1.1\x00\xff")).collect()
}

pub fn relay_chain(cx: &mut Ctx) -> Res {
    let responses = cx.ch.chance(1, 3);
    let nrelay = 1 + cx.ch.below(3) as usize;
    let nmsg = 1 + cx.ch.below(3) as usize;
    let mut sent: Vec<Sent> = vec![];
    let mut bytes = vec![];
    let mut marks = vec![];
    for _ in 0..nmsg {
        let body = body_of(cx);
        let extra = if body.is_empty() && cx.ch.chance(1, 2) { vec![] } else { vec![("Content-Length".to_string(), body.len().to_string().into_bytes())] };
        let s = if responses {
            let mut r = m::gen_resp_with(cx, &extra);
            r.body = body;
            marks.extend(r.marks.iter().map(|x| x + bytes.len()));
            bytes.extend_from_slice(&r.wire);
            bytes.extend_from_slice(&r.body);
            Sent::S(r)
        } else {
            let mut r = m::gen_req_with(cx, true, false, &extra);
            r.body = body;
            marks.extend(r.marks.iter().map(|x| x + bytes.len()));
            bytes.extend_from_slice(&r.wire);
            bytes.extend_from_slice(&r.body);
            Sent::Q(r)
        };
        sent.push(s);
    }
    let mut q: Queue<Deliver> = Queue::new();
    let mut nodes: Vec<Node> = vec![];
    // expectation per node: edits upstream change what is expected downstream
    let mut expect: Vec<Vec<Sent>> = vec![sent.clone()];
    for _ in 0..=nrelay {
        let link = Link::new(cx);
        let reuse = cx.ch.chance(1, 2);
        let edits = cx.ch.chance(1, 4);
        let sink = cx.ch.below(4);
        nodes.push(Node { rx: vec![], link, next: 0, reuse, req: Request::new(), resp: Response::new(()), edits, sink });
        expect.push(vec![]);
    }
    let segs = nodes[0].link.segments(cx, &bytes, &marks);
    for (at, s) in segs {
        q.push(cx, at, Deliver { node: 0, bytes: s });
    }
    while let Some(d) = q.pop(cx) {
        cx.cov.deliveries += 1;
        cx.ev("rx", &[d.node as u64, d.bytes.len() as u64]);
        cx.bytes_ev("rx-bytes", &d.bytes);
        let i = d.node;
        nodes[i].rx.extend_from_slice(&d.bytes);
        loop {
            let n = &mut nodes[i];
            if n.next >= nmsg {
                ensure!(n.rx.is_empty(), "extra-message", "node {} received {} more bytes than the {} messages sent: {}", i, n.rx.len(), nmsg, show(&n.rx));
                break;
            }
            if n.rx.is_empty() {
                break;
            }
            let kind = cx.ch.below(5);
            if !n.reuse {
                n.req = Request::new();
                n.resp = Response::new(());
            }
            let r = if responses { parse_any_resp(cx, &mut n.resp, &n.rx, kind)? } else { parse_any_req(cx, &mut n.req, &n.rx, kind)? };
            let used = match r {
                Ok(u) => u,
                Err(e) if e.is_partial() => break,
                Err(e) => return viol("hop-parse-error", format!("node {} (0 is the first hop) got {:?} parsing {}", i, e, show(&n.rx))),
            };
            let blen = if responses { n.resp.headers().get_body_len() } else { n.req.get_body_len() };
            ensure!(blen >= 0, "body-length", "negative body length");
            let blen = blen as usize;
            if n.rx.len() < used + blen {
                break;
            }
            let body = n.rx[used..used + blen].to_vec();
            let k = n.next;
            let mut model = expect[i][k].clone();
            match &model {
                Sent::Q(e) => {
                    check_req(&n.req, e)?;
                    ensure!(body == e.body, "body", "node {}: body {} became {}", i, show(&e.body), show(&body));
                    // the same head through an independent reader
                    independent_req(&n.rx[..used], e)?;
                }
                Sent::S(e) => {
                    check_resp(&n.resp, e)?;
                    ensure!(body == e.body, "body", "node {}: body {} became {}", i, show(&e.body), show(&body));
                    independent_resp(&n.rx[..used], e)?;
                }
            }
            n.rx.drain(..used + blen);
            n.next += 1;
            cx.message();
            if i == nrelay {
                cx.probe("reached_last_hop");
                continue;
            }
            // forward
            if n.edits && cx.ch.chance(1, 2) {
                match &mut model {
                    Sent::Q(e) => edit(cx, n.req.headers_mut(), &mut e.headers),
                    Sent::S(e) => edit(cx, n.resp.headers_mut(), &mut e.headers),
                }
            }
            let mut out = if responses { encode_via!(cx, n.resp, n.sink, httpdata) } else { encode_via!(cx, n.req, n.sink, http1_data) };
            cx.ev("fwd", &[i as u64, out.len() as u64]);
            cx.fault("intermediary_hop");
            let hmarks = vec![out.len()];
            out.extend_from_slice(&body);
            expect[i + 1].push(model);
            let segs = nodes[i + 1].link.segments(cx, &out, &hmarks);
            for (at, s) in segs {
                q.push(cx, at, Deliver { node: i + 1, bytes: s });
            }
        }
    }
    for (i, n) in nodes.iter().enumerate() {
        ensure!(n.next == nmsg && n.rx.is_empty(), "not-delivered", "node {} took {} of {} messages, {} bytes left: {}", i, n.next, nmsg, n.rx.len(), show(&n.rx));
    }
    Ok(())
}

pub fn split_line(line: &[u8]) -> Vec<Vec<u8>> {
    line.split(|b| *b == b' ').filter(|p| !p.is_empty()).map(|p| p.to_vec()).collect()
}

fn same_headers(raw: &m::RawHead, exp: &[(String, Vec<u8>)]) -> Res {
    let got: Vec<(String, Vec<u8>)> = raw.headers.iter().map(|(n, v)| (String::from_utf8_lossy(n).to_string(), v.clone())).collect();
    let got = m::fold(&got);
    let same = got.len() == exp.len() && got.iter().zip(exp).all(|(a, b)| m::lower(&a.0) == m::lower(&b.0) && a.1 == b.1);
    ensure!(same, "independent-headers", "an independent reader sees {:?}, sent {:?}", super::h1::dbg_h(&got), super::h1::dbg_h(exp));
    Ok(())
}

fn independent_req(head: &[u8], e: &Req) -> Res {
    let raw = match m::read_head(head) {
        Read::Ok(r, n) if n == head.len() => r,
        other => return viol("independent-read", format!("an independent reader reads {} as {:?}", show(head), other)),
    };
    let parts = split_line(&raw.line);
    ensure!(parts.len() == 3, "independent-line", "request line {} has {} parts", show(&raw.line), parts.len());
    ensure!(parts[0] == e.method.as_bytes(), "independent-line", "method {}", show(&parts[0]));
    ensure!(parts[2] == if e.http10 { b"HTTP/1.0".to_vec() } else { b"HTTP/1.1".to_vec() }, "independent-line", "version {}", show(&parts[2]));
    let t = &parts[1];
    if e.method == "CONNECT" {
        let d = e.domain.clone().unwrap();
        let p = e.port.unwrap();
        let full = format!("{}:{}", d, p);
        ensure!(t == full.as_bytes() || (p == 80 && t == d.as_bytes()), "independent-target", "CONNECT {} became {}", full, show(t));
    } else {
        let (p, q) = match t.iter().position(|b| *b == b'?') {
            Some(i) => (t[..i].to_vec(), Some(t[i + 1..].to_vec())),
            None => (t.clone(), None),
        };
        ensure!(m::pct_decode(&p).as_deref() == Some(e.path.as_bytes()), "independent-target", "path {:?} became {}", e.path, show(&p));
        let q = match q {
            None => None,
            Some(q) => Some(m::pct_decode(&q)),
        };
        ensure!(q == e.query.as_ref().map(|q| Some(q.as_bytes().to_vec())), "independent-target", "query {:?} became {}", e.query, show(t));
    }
    same_headers(&raw, &e.headers)
}

fn independent_resp(head: &[u8], e: &Resp) -> Res {
    let raw = match m::read_head(head) {
        Read::Ok(r, n) if n == head.len() => r,
        other => return viol("independent-read", format!("an independent reader reads {} as {:?}", show(head), other)),
    };
    let l = &raw.line;
    let v: &[u8] = if e.http10 { b"HTTP/1.0 " } else { b"HTTP/1.1 " };
    ensure!(l.starts_with(v), "independent-line", "status line {}", show(l));
    let s = e.status.to_string();
    let rest = &l[v.len()..];
    ensure!(rest.starts_with(s.as_bytes()) && (rest.len() == 3 || rest[3] == b' '), "independent-line", "status line {}", show(l));
    same_headers(&raw, &e.headers)
}
