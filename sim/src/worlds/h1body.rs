//! C05: chunked and length-delimited bodies.
use super::h1::{check_req, check_resp, parse_any_req, parse_any_resp};
use crate::buf::{SimBuf, SimSink};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::http1::{self as m, Req, Resp};
use crate::net::{corrupt, Link, Queue};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use webparse::{HeaderValue, Helper, Request, Response, WebError};

#[derive(Debug, PartialEq, Clone)]
pub enum RefChunk {
    /// the size line is not complete: the parser may wait, or already know it is malformed
    Line,
    /// size line complete, data or its line end missing
    Data,
    Bad,
    Ok(usize, usize),
}

/// Independent reading of one chunk at the start of `b`.
pub fn ref_chunk(b: &[u8]) -> RefChunk {
    let nl = match b.iter().position(|x| *x == b'\n') {
        Some(i) => i,
        None => return RefChunk::Line,
    };
    let mut line = &b[..nl];
    if line.last() == Some(&b'\r') {
        line = &line[..line.len() - 1];
    }
    if line.contains(&b'\r') {
        return RefChunk::Bad;
    }
    let hex: Vec<u8> = line.iter().take_while(|c| c.is_ascii_hexdigit()).copied().collect();
    if hex.is_empty() {
        return RefChunk::Bad;
    }
    let mut ext = &line[hex.len()..];
    while ext.first().map_or(false, |c| *c == b' ' || *c == b'\t') {
        ext = &ext[1..];
    }
    if !ext.is_empty() && ext[0] != b';' {
        return RefChunk::Bad;
    }
    let mut n: usize = 0;
    for h in &hex {
        let d = (*h as char).to_digit(16).unwrap() as usize;
        n = match n.checked_mul(16).and_then(|x| x.checked_add(d)) {
            Some(x) => x,
            None => return RefChunk::Bad,
        };
    }
    if n > usize::MAX - 2 {
        return RefChunk::Bad;
    }
    let h = nl + 1;
    let rest = &b[h..];
    if rest.len() <= n {
        return RefChunk::Data;
    }
    match rest[n] {
        b'\r' => match rest.get(n + 1) {
            None => RefChunk::Data,
            Some(b'\n') => RefChunk::Ok(h, n),
            _ => RefChunk::Bad,
        },
        b'\n' => RefChunk::Ok(h, n),
        _ if n == 0 => RefChunk::Ok(h, n), // trailer fields follow
        _ => RefChunk::Bad,
    }
}

fn lib_chunk(cx: &mut Ctx, data: &[u8], kind: u64) -> Result<(usize, usize), WebError> {
    cx.cov.lib_calls += 1;
    match kind {
        0 => Helper::parse_chunk_data(&mut SimBuf::new(data)),
        1 => Helper::parse_chunk_data(&mut Binary::from(data.to_vec())),
        2 => Helper::parse_chunk_data(&mut BinaryRef::from(data)),
        _ => {
            let mut v = b"stale".to_vec();
            v.extend_from_slice(data);
            let mut b = BinaryMut::from(v);
            b.advance(5);
            Helper::parse_chunk_data(&mut b)
        }
    }
}

/// Compares the library's verdict on the bytes so far with the reference reader.
fn judge(data: &[u8], lib: &Result<(usize, usize), WebError>) -> Res {
    let r = ref_chunk(data);
    match (&r, lib) {
        (RefChunk::Line, Err(_)) => Ok(()),
        (RefChunk::Data, Err(e)) if e.is_partial() => Ok(()),
        (RefChunk::Bad, Err(e)) if !e.is_partial() => Ok(()),
        (RefChunk::Bad, Err(_)) => viol("chunk-endless-partial", format!("malformed chunk reported partial: {}", show(data))),
        (RefChunk::Ok(h, n), Ok((a, b))) if a == h && b == n => Ok(()),
        (_, Ok(x)) => viol("chunk-wrong-boundary", format!("{} read as {:?}, expected {:?}", show(data), x, r)),
        (_, Err(e)) => viol("chunk-rejected", format!("{} rejected with {:?}, expected {:?}", show(data), e, r)),
    }
}

#[derive(Clone)]
struct BodyMsg {
    req: Option<Req>,
    resp: Option<Resp>,
    body: Vec<u8>,
    chunks: Option<Vec<Vec<u8>>>,
    wire: Vec<u8>,
    marks: Vec<usize>,
}

fn gen_data(cx: &mut Ctx, max: u64) -> Vec<u8> {
    let n = cx.ch.skew(max) as usize;
    if n > 64 {
        let s = cx.ch.below(256) as u8;
        return (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(s)).collect();
    }
    (0..n).map(|_| cx.ch.pick(b"\r\n 0;a5fF:\x00\xffz")).collect()
}

/// One chunk on the wire, written by the library's encoder or by the harness with legal variations.
fn write_chunk(cx: &mut Ctx, d: &[u8], by_lib: bool) -> Res<Vec<u8>> {
    if by_lib {
        cx.cov.lib_calls += 1;
        let (n, out) = if cx.ch.chance(1, 2) {
            let mut b = BinaryMut::new();
            let n = Helper::encode_chunk_data(&mut b, d);
            (n, b.chunk().to_vec())
        } else {
            let mut b = SimSink::new(b"", 1 + cx.ch.below(30) as usize);
            let n = Helper::encode_chunk_data(&mut b, d);
            (n, b.written().to_vec())
        };
        match n {
            Ok(n) => ensure!(n == out.len(), "chunk-count", "encode_chunk_data reported {} bytes, wrote {}", n, out.len()),
            Err(e) => return viol("chunk-encode-error", format!("{:?}", e)),
        }
        return Ok(out);
    }
    let mut o = vec![];
    if cx.ch.chance(1, 4) {
        let n = if cx.ch.chance(1, 20) { cx.ch.pick(&[7u64, 8, 14, 15, 16, 17, 20, 32, 64]) } else { 1 + cx.ch.below(3) };
        for _ in 0..n {
            o.push(b'0');
        }
    }
    o.extend(if cx.ch.chance(1, 2) { format!("{:x}", d.len()) } else { format!("{:X}", d.len()) }.bytes());
    if cx.ch.chance(1, 4) {
        o.extend_from_slice(cx.ch.pick(&[&b";a=b"[..], b";x", b" ;name=\"q;\"", b";\xc3\xa9=1", b";a=1;b=2"]));
        if cx.ch.chance(1, 12) {
            let x = m::bulk(cx);
            o.extend_from_slice(b";l=");
            o.extend(x.bytes());
        }
        cx.probe("chunk_extension_sent");
    }
    o.extend_from_slice(b"\r\n");
    o.extend_from_slice(d);
    o.extend_from_slice(b"\r\n");
    Ok(o)
}

fn gen_msg(cx: &mut Ctx) -> Res<BodyMsg> {
    let framing = cx.ch.below(3);
    let mut chunks = None;
    let mut payload_wire = vec![];
    let mut body = vec![];
    let mut extra = vec![];
    let mut marks = vec![];
    match framing {
        0 => {
            body = if cx.ch.chance(1, 100) { m::bulk(cx).into_bytes() } else { gen_data(cx, 300) };
            if !body.is_empty() || cx.ch.chance(1, 2) {
                let nm = cx.ch.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]);
                let z = if cx.ch.chance(1, 6) { "00" } else { "" };
                extra.push((nm.to_string(), format!("{}{}", z, body.len()).into_bytes()));
            }
            payload_wire = body.clone();
        }
        1 => {
            let mut cs = vec![];
            let by_lib = cx.ch.chance(1, 2);
            let n = cx.ch.below(5);
            for _ in 0..n {
                let big = cx.ch.chance(1, 20);
                let mut d = if cx.ch.chance(1, 3000) { cx.probe("over_a_megabyte"); let n = cx.ch.pick(&[(1usize << 20) - 1, 1 << 20, (1 << 20) + 1]); (0..n).map(|i| i as u8).collect() } else { gen_data(cx, if big { 70_000 } else { 400 }) };
                if d.is_empty() {
                    d.push(b'\n');
                }
                payload_wire.extend(write_chunk(cx, &d, by_lib)?);
                marks.push(payload_wire.len());
                body.extend_from_slice(&d);
                cs.push(d);
            }
            payload_wire.extend(write_chunk(cx, &[], by_lib)?);
            cs.push(vec![]);
            chunks = Some(cs);
            let nm = cx.ch.pick(&["Transfer-Encoding", "transfer-encoding", "TRANSFER-ENCODING"]);
            let mut v = cx.ch.pick(&["chunked", "Chunked", "CHUNKED", "gzip, chunked"]).to_string();
            if cx.ch.chance(1, 12) {
                // other codings before it
                v = cx.ch.pick(&["gzip, ", "x-c,", "chunke, "]).repeat(1 + cx.ch.skew(150) as usize) + &v;
            }
            extra.push((nm.to_string(), v.as_bytes().to_vec()));
        }
        _ => {}
    }
    let (req, resp, mut wire, mut hm);
    if cx.ch.chance(1, 3) {
        let r = m::gen_resp_with(cx, &extra);
        wire = r.wire.clone();
        hm = r.marks.clone();
        resp = Some(r);
        req = None;
    } else {
        let r = m::gen_req_with(cx, false, true, &extra);
        wire = r.wire.clone();
        hm = r.marks.clone();
        req = Some(r);
        resp = None;
    }
    hm.extend(marks.iter().map(|x| x + wire.len()));
    wire.extend_from_slice(&payload_wire);
    Ok(BodyMsg { req, resp, body, chunks, wire, marks: hm })
}

enum St {
    Head,
    Length(usize),
    Chunks(usize),
}

/// One chunk of megabytes: whole, and cut in a few places.
fn big_chunk(cx: &mut Ctx) -> Res {
    let n = cx.ch.pick(&[1_048_575usize, 1_048_576, 1_048_577, 1_500_000, 2_097_152, 0x300_000]);
    let d: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31)).collect();
    let by_lib = cx.ch.chance(1, 2);
    let mut w = write_chunk(cx, &d, by_lib)?;
    let whole = w.len();
    w.extend_from_slice(b"0\r\n\r\n");
    for at in [whole - 1, whole - 2, whole - 3, n, 9, whole, w.len()] {
        let kind = cx.ch.below(4);
        let r = lib_chunk(cx, &w[..at], kind);
        judge(&w[..at], &r)?;
    }
    cx.probe("chunk_of_megabytes");
    Ok(())
}

pub fn bodies(cx: &mut Ctx) -> Res {
    if cx.ch.chance(1, 3000) {
        big_chunk(cx)?;
    }
    let n = 1 + cx.ch.below(4) as usize;
    let mut msgs = vec![];
    let mut stream = vec![];
    let mut marks = vec![];
    for _ in 0..n {
        let b = gen_msg(cx)?;
        marks.extend(b.marks.iter().map(|x| x + stream.len()));
        stream.extend_from_slice(&b.wire);
        marks.push(stream.len());
        msgs.push(b);
    }
    let mut link = Link::new(cx);
    let mut q: Queue<Vec<u8>> = Queue::new();
    let segs = link.segments(cx, &stream, &marks);
    for (at, s) in segs {
        q.push(cx, at, s);
    }
    let mut rx: Vec<u8> = vec![];
    let mut st = St::Head;
    let mut cur = 0;
    let mut got: Vec<u8> = vec![];
    let mut req = Request::new();
    let mut resp = Response::new(());
    let kinds = cx.ch.below(5);
    while let Some(seg) = q.pop(cx) {
        cx.cov.deliveries += 1;
        cx.ev("rx", &[seg.len() as u64]);
        cx.bytes_ev("rx-bytes", &seg);
        rx.extend_from_slice(&seg);
        loop {
            if cur >= n {
                ensure!(rx.is_empty(), "trailing", "{} bytes after the last message", rx.len());
                break;
            }
            let mm = &msgs[cur];
            let kind = if kinds == 4 { cx.ch.below(4) } else { kinds };
            let mut done = false;
            match st {
                St::Head => {
                    if rx.is_empty() {
                        break;
                    }
                    let r = if mm.req.is_some() { parse_any_req(cx, &mut req, &rx, kind)? } else { parse_any_resp(cx, &mut resp, &rx, kind)? };
                    match r {
                        Ok(u) => {
                            rx.drain(..u);
                            got.clear();
                            let h = if let Some(e) = &mm.req {
                                check_req(&req, e)?;
                                req.headers()
                            } else {
                                check_resp(&resp, mm.resp.as_ref().unwrap())?;
                                resp.headers()
                            };
                            ensure!(h.is_chunked() == mm.chunks.is_some(), "framing", "is_chunked()={} for {:?}", h.is_chunked(), super::h1::dbg_h(&mm.req.as_ref().map(|r| r.headers.clone()).unwrap_or_default()));
                            if h.is_chunked() {
                                st = St::Chunks(0);
                            } else {
                                let l = h.get_body_len();
                                ensure!(l == mm.body.len() as isize, "framing", "declared length {} read as {}", mm.body.len(), l);
                                st = St::Length(l as usize);
                            }
                            cx.ev("head", &[cur as u64, got.len() as u64]);
                        }
                        Err(e) if e.is_partial() => break,
                        Err(e) => return viol("head-error", format!("message {}: {:?} for {}", cur, e, show(&rx))),
                    }
                }
                St::Length(left) => {
                    let k = left.min(rx.len());
                    got.extend(rx.drain(..k));
                    if left > k {
                        st = St::Length(left - k);
                        break;
                    }
                    done = true;
                }
                St::Chunks(i) => {
                    if rx.is_empty() {
                        break;
                    }
                    let cs = mm.chunks.as_ref().unwrap();
                    let r = lib_chunk(cx, &rx, kind);
                    judge(&rx, &r)?;
                    match r {
                        Err(e) if e.is_partial() => {
                            cx.probe("chunk_partial");
                            break;
                        }
                        Err(e) => return viol("chunk-error", format!("{:?} for a legal chunk {}", e, show(&rx))),
                        Ok((h, k)) => {
                            ensure!(h + k <= rx.len() && i < cs.len() && k == cs[i].len(), "chunk-wrong-boundary", "chunk {} of {} bytes read as {}", i, cs.get(i).map_or(0, |c| c.len()), k);
                            got.extend_from_slice(&rx[h..h + k]);
                            let mut rest = SimBuf::new(&rx[h + k..]);
                            match Helper::skip_new_line(&mut rest) {
                                Ok(()) => {
                                    let p = rest.pos();
                                    rx.drain(..h + k + p);
                                }
                                Err(e) => return viol("chunk-line-end", format!("{:?} after chunk data", e)),
                            }
                            cx.ev("chunk", &[k as u64]);
                            if k == 0 {
                                done = true;
                            } else {
                                st = St::Chunks(i + 1);
                            }
                        }
                    }
                }
            }
            if done {
                ensure!(got == mm.body, "body", "message {}: {} bytes sent, {} received", cur, mm.body.len(), got.len());
                cx.message();
                cur += 1;
                st = St::Head;
                if cur < n && !rx.is_empty() {
                    cx.probe("pipelined_after_body");
                }
            }
        }
    }
    ensure!(cur == n && rx.is_empty(), "not-delivered", "{} of {} messages, {} bytes left", cur, n, rx.len());
    Ok(())
}

/// Chunk framing damaged in flight, segmented: verdicts follow the reference reader and never change.
pub fn damaged_chunks(cx: &mut Ctx) -> Res {
    let mut stream = vec![];
    let style = cx.ch.below(4);
    if style < 3 {
        let n = 1 + cx.ch.below(3);
        for _ in 0..n {
            let d = gen_data(cx, 40);
            let by_lib = cx.ch.chance(1, 2);
            stream.extend(write_chunk(cx, &d, by_lib)?);
        }
        if style > 0 {
            corrupt(cx, &mut stream, b"\r\n0123456789abcdefABCDEFgx;: \t-+/@G`");
        } else {
            // sizes around the limits of the integer type
            let any = {
                // any size that can be meant, of every number of digits
                let bits = 1 + cx.ch.below(60);
                let n = (1u64 << bits >> 1) + cx.ch.below(1u64 << bits >> 1) ;
                let t = if cx.ch.chance(1, 2) { format!("{:x}", n) } else { format!("{:X}", n) };
                format!("{}{}", "0".repeat(cx.ch.skew(3) as usize), t)
            };
            let s = if cx.ch.chance(1, 2) { &any[..] } else { cx.ch.pick(&["ffffffffffffffff", "fffffffffffffffe", "fffffffffffffffd", "10000000000000000", "7fffffffffffffff", "8000000000000000", "00000000000000000000000000000003", "fffffffffffffffffffffffffffffffff"]) };
            let mut v = s.as_bytes().to_vec();
            v.extend_from_slice(b"\r\nabc\r\n");
            v.extend_from_slice(&stream);
            stream = v;
            cx.fault("extreme_length");
        }
    } else {
        let n = cx.ch.skew(40);
        for _ in 0..n {
            let t = cx.ch.pick(&[&b"\r\n"[..], b"\n", b"\r", b"0", b"3", b"a", b"F", b"abc", b";x=y", b" ", b"-1", b"0x", b"g", b"\t", b"`", b"/", b"@", b"G", b":"]);
            stream.extend_from_slice(t);
        }
        cx.fault("fabricated_stream");
    }
    if cx.ch.chance(1, 4) && !stream.is_empty() {
        let k = cx.ch.below(stream.len() as u64) as usize;
        stream.truncate(k);
        cx.fault("truncated");
    }
    let link = Link::new(cx);
    let mut cuts = link.cuts(cx, stream.len(), &[]);
    cuts.push(stream.len());
    // feed: follow accepted chunks like a receiver would
    let mut start = 0;
    let mut last_err = false;
    for c in cuts {
        cx.ev("rx", &[c as u64]);
        let mut guard = 0;
        while start < c {
            guard += 1;
            if guard > 2000 {
                return viol("no-progress", "chunk reader does not advance");
            }
            let data = &stream[start..c];
            let kind = cx.ch.below(4);
            let r = lib_chunk(cx, data, kind);
            judge(data, &r)?;
            cx.bytes_ev("chunk-input", data);
            if last_err {
                ensure!(matches!(&r, Err(e) if !e.is_partial()), "verdict-changed", "a definite error became {:?} with more bytes: {}", r, show(data));
            }
            match r {
                Ok((h, k)) => {
                    let mut rest = SimBuf::new(&stream[start + h + k..c]);
                    match Helper::skip_new_line(&mut rest) {
                        Ok(()) => {
                            start += h + k + rest.pos();
                            cx.message();
                        }
                        Err(_) => return Ok(()),
                    }
                }
                Err(e) => {
                    if !e.is_partial() {
                        last_err = true;
                        cx.probe("malformed_chunk_rejected");
                        cx.progressed = true;
                    }
                    break;
                }
            }
        }
    }
    Ok(())
}

/// Length values as they arrive in a header.
pub fn lengths(cx: &mut Ctx) -> Res {
    let v: Vec<u8> = match cx.ch.below(4) {
        0 => cx.ch.pick(&["18446744073709551615", "18446744073709551616", "18446744073709551609", "9223372036854775807", "9223372036854775808", "9223372036854775809", "-9223372036854775808", "-9223372036854775809", "00000000000000000000000000000000000005", "0", "", "-", "--5", "5-", "0-5", "+5", "5 5", "1e3", "0x10", "1844674407370955161", "5,5", "99999999999999999999999999"]).as_bytes().to_vec(),
        1 => {
            let b = cx.ch.below(64);
            let x = (1u128 << (b + 1)).wrapping_add(cx.ch.below(5) as u128).wrapping_sub(2);
            x.to_string().into_bytes()
        }
        2 => {
            let n = 1 + cx.ch.below(40);
            (0..n).map(|_| cx.ch.pick(b"0123456789")).collect()
        }
        _ => {
            let n = cx.ch.below(12);
            (0..n).map(|_| cx.ch.pick(b"0123456789-+., xe/:")).collect()
        }
    };
    cx.fault("extreme_length");
    let v: Vec<u8> = {
        let s = String::from_utf8(v).unwrap();
        s.trim().as_bytes().to_vec()
    };
    let extra = vec![("Content-Length".to_string(), v.clone())];
    let resp_side = cx.ch.chance(1, 2);
    cx.ev("length", &[v.len() as u64, resp_side as u64]);
    cx.bytes_ev("length-bytes", &v);
    let kind = cx.ch.below(5);
    let (l, val): (isize, HeaderValue) = if resp_side {
        let e = m::gen_resp_with(cx, &extra);
        let mut o = Response::new(());
        if let Err(e) = parse_any_resp(cx, &mut o, &e.wire, kind)? {
            return viol("head-error", format!("{:?}", e));
        }
        check_resp(&o, &e)?;
        (o.get_body_len(), o.headers().get_option_value(&"content-length").unwrap().clone())
    } else {
        let e = m::gen_req_with(cx, true, true, &extra);
        let mut o = Request::new();
        if let Err(e) = parse_any_req(cx, &mut o, &e.wire, kind)? {
            return viol("head-error", format!("{:?}", e));
        }
        check_req(&o, &e)?;
        (o.get_body_len(), o.headers().get_option_value(&"content-length").unwrap().clone())
    };
    cx.message();
    let digits = !v.is_empty() && v.iter().all(|b| b.is_ascii_digit());
    let exact: Option<u128> = if digits {
        let mut x: u128 = 0;
        for b in &v {
            x = x.saturating_mul(10).saturating_add((b - b'0') as u128);
        }
        Some(x)
    } else {
        None
    };
    match exact {
        Some(x) if x <= isize::MAX as u128 => ensure!(l as u128 == x && l >= 0, "length-value", "{} read as {}", show(&v), l),
        _ => ensure!(l <= 0, "length-value", "{} read as {}", show(&v), l),
    }
    let u: Result<usize, WebError> = (&val).try_into();
    match (exact, &u) {
        (Some(x), Ok(y)) if x == *y as u128 => {}
        (Some(x), Err(_)) if x > usize::MAX as u128 => {}
        (None, Err(_)) => {}
        (None, Ok(0)) if v.is_empty() => {}
        _ => return viol("length-value", format!("{} converted to {:?}", show(&v), u)),
    }
    Ok(())
}
