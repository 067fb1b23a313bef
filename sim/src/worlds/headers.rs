//! C19: header maps edited by every party a message passes through.
use super::h1::{parse_any_req, parse_any_resp};
use super::h2frames::{lib_encode_frame, lib_parse, lib_take, LibJoin, NO_LIMIT};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::headers::{self as rh, RefMap};
use crate::net::{Link, Queue};
use algorithm::buf::{BinaryMut, Bt};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::{Flag, Frame, FrameHeader, Headers, Kind, StreamIdentifier};
use webparse::http2::Decoder;
use webparse::{HeaderMap, HeaderValue, Method, Request, Response};

/// Drawn once per hop: how the header section travels to the next party.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hop {
    Request,
    Response,
    Block,
}

struct Party {
    hop: Hop,
    link: Link,
    rx: Vec<u8>,
    req: Request<()>,
    resp: Response<()>,
    enc: Encoder,
    dec: Decoder,
    join: LibJoin,
}

enum Ev {
    Data { to: usize, bytes: Vec<u8> },
    Cut { to: usize },
}

fn session(cx: &mut Ctx, h: &mut HeaderMap, r: &mut RefMap, hop: Hop) -> Res {
    let mut many = vec![];
    crate::model::http1::crowd(cx, &mut many);
    for (n, v) in &many {
        if cx.ch.chance(1, 2) {
            h.insert(n.clone(), HeaderValue::from_bytes(v));
        } else {
            h.push(n.clone(), HeaderValue::from_bytes(v));
        }
        if r.at(n).is_none() {
            r.insert(n, v);
        } else {
            // drawn before: rebuild both from the reference's view
            h.insert(n.clone(), HeaderValue::from_bytes(v));
            r.insert(n, v);
        }
    }
    let n = cx.ch.skew(12);
    for _ in 0..n {
        let op = rh::step(cx, h, r)?;
        cx.ev(op, &[r.0.len() as u64]);
        if cx.ch.chance(1, 3) {
            rh::observe(cx, h, r)?;
        }
    }
    if hop == Hop::Request && r.at("host").is_some() {
        // what a Host says about the target is decided elsewhere
        h.remove(&"HOST");
        r.remove("host");
    }
    rh::observe(cx, h, r)?;
    rh::display(h, r)
}

pub fn c19_sessions(cx: &mut Ctx) -> Res {
    let parties = 2 + cx.ch.below(3) as usize;
    let mut ps: Vec<Party> = vec![];
    for _ in 0..parties {
        let hop = cx.ch.pick(&[Hop::Response, Hop::Request, Hop::Block]);
        let link = Link::new(cx);
        ps.push(Party { hop, link, rx: vec![], req: Request::new(), resp: Response::new(()), enc: Encoder::new(), dec: Decoder::new(), join: LibJoin::default() });
    }
    let nmsg = 1 + cx.ch.below(3) as usize;
    let mut q: Queue<Ev> = Queue::new();
    for m in 0..nmsg {
        let mut h = HeaderMap::new();
        let mut r = RefMap::default();
        let hop0 = ps[0].hop;
        session(cx, &mut h, &mut r, hop0)?;
        let mut to = 0;
        // messages go one after another along the chain; cuts restart a hop
        loop {
            let hop = ps[to].hop;
            let p = &mut ps[to];
            let wire = match hop {
                Hop::Request => {
                    let mut o = Request::builder().method(Method::Get).url("/").body(()).map_err(|e| fail(e))?;
                    *o.headers_mut() = std::mem::replace(&mut h, HeaderMap::new());
                    o.http1_data().map_err(|e| fail(e))?
                }
                Hop::Response => {
                    let mut o = Response::new(());
                    *o.headers_mut() = std::mem::replace(&mut h, HeaderMap::new());
                    if cx.ch.chance(1, 2) {
                        o.httpdata().map_err(|e| fail(e))?
                    } else {
                        let mut b = BinaryMut::new();
                        o.encode_header(&mut b).map_err(|e| fail(e))?;
                        b.chunk().to_vec()
                    }
                }
                Hop::Block => {
                    let fields = std::mem::replace(&mut h, HeaderMap::new());
                    let f = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), StreamIdentifier(1 + 2 * m as u32)), fields);
                    lib_encode_frame(cx, Frame::from(f), &mut p.enc)?
                }
            };
            cx.bytes_ev("wire", &wire);
            let cut = hop != Hop::Block && wire.len() > 1 && cx.ch.chance(1, 6);
            if cut {
                let k = cx.ch.range(1, wire.len() as u64 - 1) as usize;
                let segs = p.link.segments(cx, &wire[..k], &[]);
                let mut last = cx.now;
                for (at, s) in segs {
                    last = at;
                    q.push(cx, at, Ev::Data { to, bytes: s });
                }
                q.push(cx, last, Ev::Cut { to });
            }
            let segs = p.link.segments(cx, &wire, &[]);
            for (at, s) in segs {
                let at = at + if cut { 5000 } else { 0 };
                q.push(cx, at, Ev::Data { to, bytes: s });
            }
            let mut arrived = None;
            while let Some(ev) = q.pop(cx) {
                match ev {
                    Ev::Cut { to } => {
                        cx.fault("connection_cut");
                        ps[to].rx.clear();
                    }
                    Ev::Data { to, bytes } => {
                        cx.cov.deliveries += 1;
                        cx.ev("rx", &[to as u64, bytes.len() as u64]);
                        let p = &mut ps[to];
                        p.rx.extend_from_slice(&bytes);
                        ensure!(arrived.is_none(), "early", "a header section was complete before its last octets arrived");
                        arrived = receive(cx, p)?;
                    }
                }
            }
            let mut got = match arrived {
                Some(h) => h,
                None => return viol("not-delivered", format!("hop {} ({:?}) never completed: {}", to, hop, show(&ps[to].rx))),
            };
            rh::observe(cx, &got, &r)?;
            cx.message();
            cx.fault("intermediary_hop");
            to += 1;
            if to == parties {
                break;
            }
            let next = ps[to].hop;
            session(cx, &mut got, &mut r, next)?;
            h = got;
        }
    }
    Ok(())
}

fn fail(e: webparse::WebError) -> crate::ctx::Violation {
    crate::ctx::Violation { class: "encode-error".into(), detail: format!("{:?}", e) }
}

fn receive(cx: &mut Ctx, p: &mut Party) -> Res<Option<HeaderMap>> {
    let kind = cx.ch.below(5);
    match p.hop {
        Hop::Request => match parse_any_req(cx, &mut p.req, &p.rx, kind)? {
            Ok(n) => {
                p.rx.drain(..n);
                ensure!(p.rx.is_empty(), "trailing", "{} octets after the head", p.rx.len());
                let h = p.req.headers().clone();
                let o = &mut p.req;
                ensure!(
                    o.get_referer() == h.get_referer() && o.get_user_agent() == h.get_user_agent() && o.get_cookie() == h.get_cookie() && o.get_body_len() == h.get_body_len() && o.is_keep_alive() == h.is_keep_alive(),
                    "request-accessors", "a request answers otherwise than its own fields: {:?}", h.to_string()
                );
                let host = o.url().domain.clone().or_else(|| h.get_host());
                ensure!(o.get_host() == host, "request-accessors", "host {:?}, expected {:?}", o.get_host(), host);
                let parts = o.parts();
                ensure!(parts.get_host() == host, "parts-accessors", "host {:?}, expected {:?}", parts.get_host(), host);
                ensure!(parts.get_referer() == h.get_referer() && parts.get_user_agent() == h.get_user_agent() && parts.get_cookie() == h.get_cookie(), "parts-accessors", "{:?}", h.to_string());
                ensure!(o.headers_body().0.to_string() == h.to_string() && o.headers_body_mut().0.to_string() == h.to_string(), "headers-body", "{:?}", h.to_string());
                Ok(Some(if cx.ch.chance(1, 2) { p.req.headers().clone() } else { std::mem::replace(p.req.headers_mut(), HeaderMap::new()) }))
            }
            Err(e) if e.is_partial() => Ok(None),
            Err(e) => viol("parse-error", format!("{:?} for {}", e, show(&p.rx))),
        },
        Hop::Response => match parse_any_resp(cx, &mut p.resp, &p.rx, kind)? {
            Ok(n) => {
                p.rx.drain(..n);
                ensure!(p.rx.is_empty(), "trailing", "{} octets after the head", p.rx.len());
                let h = p.resp.headers().clone();
                let o = &mut p.resp;
                ensure!(o.get_body_len() == h.get_body_len(), "response-accessors", "{:?}", h.to_string());
                ensure!(o.headers_body().0.to_string() == h.to_string() && o.headers_body_mut().0.to_string() == h.to_string(), "headers-body", "{:?}", h.to_string());
                Ok(Some(if cx.ch.chance(1, 2) { p.resp.headers().clone() } else { std::mem::replace(p.resp.headers_mut(), HeaderMap::new()) }))
            }
            Err(e) if e.is_partial() => Ok(None),
            Err(e) => viol("parse-error", format!("{:?} for {}", e, show(&p.rx))),
        },
        Hop::Block => {
            while let Some((h, payload, n)) = lib_take(cx, &p.rx)? {
                p.rx.drain(..n);
                match p.join.push(h, payload) {
                    Ok(None) => continue,
                    Err(e) => return viol("join-error", format!("{:?}", e)),
                    Ok(Some((h, b))) => {
                        let (_, f) = match lib_parse(cx, h, &b, &mut p.dec, NO_LIMIT, true)? {
                            Ok(x) => x,
                            Err(e) => return viol("frame-error", format!("{:?} for {}", e, show(&b))),
                        };
                        match f {
                            Some(Frame::Headers(h)) => return Ok(Some(if cx.ch.chance(1, 2) { h.into_fields() } else { h.fields().clone() })),
                            _ => return viol("frame-kind", "HEADERS expected"),
                        }
                    }
                }
            }
            Ok(None)
        }
    }
}
