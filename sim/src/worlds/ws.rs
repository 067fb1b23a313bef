//! WebSocket worlds: C12 frames, C13 messages, C14 hostile peers.
use crate::alloc;
use crate::buf::{SimBuf, SimSink};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::ws::{self as m, Msg, RFrame, Read};
use crate::net::{corrupt, Link, Queue};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt, BtMut};
use std::io::ErrorKind;
use webparse::ws::frame_header::{read_header, write_header, WsFrameFlags};
use webparse::ws::{CloseCode, CloseData, DataFrame, DataFrameable, Message, Opcode, OwnedMessage, WsFrameHeader};
use webparse::{WebError, WebResult};

// ---------------------------------------------------------------- calling the library

pub fn needs_more(e: &WebError) -> bool {
    match e {
        WebError::Io(e) => e.kind() == ErrorKind::UnexpectedEof,
        e => e.is_partial(),
    }
}

pub fn to_lib(f: &RFrame) -> DataFrame {
    if f.rsv == [false; 3] && f.data.len() % 2 == 0 {
        return DataFrame::new(f.fin, Opcode::new(f.opcode).expect("nibble"), f.data.clone());
    }
    DataFrame { finished: f.fin, reserved: f.rsv, opcode: Opcode::new(f.opcode).expect("nibble"), data: f.data.clone() }
}

fn same(d: &DataFrame, f: &RFrame) -> bool {
    d.finished == f.fin && d.reserved == f.rsv && d.opcode as u8 == f.opcode && d.data == f.data
}

fn read_with<B: Bt>(b: &mut B, masked: bool, how: u64, limit: usize) -> WebResult<DataFrame> {
    match how {
        0 => DataFrame::read_dataframe(b, masked),
        1 => DataFrame::read_dataframe_with_limit(b, masked, limit),
        _ => {
            let h = read_header(b)?;
            if (b.remaining() as u64) < h.len {
                return Err(std::io::Error::new(ErrorKind::UnexpectedEof, "harness: payload incomplete").into());
            }
            let body = b.advance_chunk(h.len as usize).to_vec();
            DataFrame::read_dataframe_body(h, body, masked)
        }
    }
}

/// One read through one buffer type: the frame and the number of bytes consumed.
pub fn lib_read(cx: &mut Ctx, data: &[u8], masked: bool, how: u64, limit: usize, kind: u64) -> WebResult<(DataFrame, usize)> {
    cx.cov.lib_calls += 1;
    match kind {
        0 => {
            let mut b = data;
            let d = read_with(&mut b, masked, how, limit)?;
            Ok((d, data.len() - b.len()))
        }
        1 => {
            let mut b = SimBuf::new(data);
            let d = read_with(&mut b, masked, how, limit)?;
            Ok((d, b.pos()))
        }
        2 => {
            let mut b = Binary::from(data.to_vec());
            let d = read_with(&mut b, masked, how, limit)?;
            Ok((d, data.len() - b.remaining()))
        }
        3 => {
            let mut v = vec![0x81, 0x05, 9];
            v.extend_from_slice(data);
            let mut b = BinaryMut::from(v);
            b.advance(3);
            let d = read_with(&mut b, masked, how, limit)?;
            Ok((d, data.len() - b.remaining()))
        }
        _ => {
            let mut b = BinaryRef::from(data);
            let d = read_with(&mut b, masked, how, limit)?;
            Ok((d, data.len() - b.remaining()))
        }
    }
}

/// Writes through one sink type; checks the count, the declared size and what the sink held before.
pub fn lib_write<D: DataFrameable>(cx: &mut Ctx, d: &D, mask: Option<[u8; 4]>) -> Res<Result<Vec<u8>, WebError>> {
    cx.cov.lib_calls += 1;
    let pre: &[u8] = if cx.ch.chance(1, 2) { b"\x89\x02ab" } else { b"" };
    let (r, out) = match cx.ch.below(3) {
        0 => {
            let mut v = pre.to_vec();
            let r = d.write_to(&mut v, mask);
            (r, v)
        }
        1 => {
            let mut b = BinaryMut::from(pre.to_vec());
            let r = d.write_to(&mut b, mask);
            (r, b.chunk().to_vec())
        }
        _ => {
            let w = 1 + cx.ch.skew(300) as usize;
            let mut s = SimSink::new(pre, w);
            let r = d.write_to(&mut s, mask);
            (r, s.written().to_vec())
        }
    };
    ensure!(out.starts_with(pre), "sink-overwritten", "writing a frame changed what the sink already held: {}", show(&out));
    let new = out[pre.len()..].to_vec();
    match r {
        Ok(n) => {
            ensure!(n == new.len(), "write-count", "write_to reported {} for {} bytes written", n, new.len());
            ensure!(d.frame_size(mask.is_some()) == new.len(), "frame-size", "declared size {} for {} bytes written", d.frame_size(mask.is_some()), new.len());
            Ok(Ok(new))
        }
        Err(e) => {
            ensure!(new.is_empty(), "partial-write", "write_to failed with {:?} but wrote {}", e, show(&new));
            Ok(Err(e))
        }
    }
}

fn gen_mask(cx: &mut Ctx) -> [u8; 4] {
    match cx.ch.below(4) {
        0 => [0; 4],
        1 => [0xff, 0, 0x80, 1],
        _ => {
            let v = cx.ch.below(1 << 32) as u32;
            v.to_be_bytes()
        }
    }
}

fn gen_len(cx: &mut Ctx, control: bool) -> usize {
    if control {
        return match cx.ch.below(3) {
            0 => cx.ch.below(6) as usize,
            1 => cx.ch.us(120, 125),
            _ => cx.ch.below(126) as usize,
        };
    }
    if cx.ch.chance(1, 6000) {
        cx.probe("over_a_megabyte");
        return cx.ch.pick(&[(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, 1_300_000]);
    }
    match cx.ch.below(12) {
        0 => 0,
        1..=5 => cx.ch.below(20) as usize,
        6 => cx.ch.us(123, 128),
        7 | 8 => cx.ch.skew(2000) as usize,
        9 => cx.ch.us(254, 258),
        10 => if cx.ch.chance(1, 3) { cx.ch.us(65533, 65538) } else { 32 },
        _ => if cx.ch.chance(1, 6) { cx.ch.us(65536, 140_000) } else { 126 },
    }
}

/// Payload bytes: cheap pattern with drawn edges, so long payloads cost few choices.
fn gen_payload(cx: &mut Ctx, n: usize) -> Vec<u8> {
    let a = cx.ch.below(256) as u8;
    let s = cx.ch.below(256) as u8;
    let mut v: Vec<u8> = (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(s)).wrapping_add((i >> 8) as u8)).collect();
    for _ in 0..cx.ch.below(4) {
        if n > 0 {
            let i = cx.ch.below(n as u64) as usize;
            v[i] = cx.ch.pick(&[0, 0x80, 0xff, 0x81, 0x7f, b'\n']);
        }
    }
    v
}

/// Writes a frame through the frame or the message types; only the count is returned.
pub fn emit_frame(cx: &mut Ctx, f: &RFrame, b: &mut dyn BtMut) -> WebResult<usize> {
    if f.fin && f.rsv == [false; 3] && cx.ch.chance(1, 2) {
        let x = match f.opcode {
            1 => Some(Msg::Text(String::from_utf8_lossy(&f.data).to_string())),
            2 => Some(Msg::Binary(f.data.clone())),
            8 if f.data.len() > 1 && f.data.len() < 42 => Some(Msg::Close(Some((f.data[0] as u16 * 7, String::from_utf8_lossy(&f.data[2..]).to_string())))),
            8 => Some(Msg::Close(None)),
            9 => Some(Msg::Ping(f.data.clone())),
            10 => Some(Msg::Pong(f.data.clone())),
            _ => None,
        };
        if let Some(x) = x {
            if cx.ch.chance(1, 2) {
                return message(&x).write_to(b, f.mask);
            }
            if let Ok(o) = owned(cx, &x) {
                return o.write_to(b, f.mask);
            }
        }
    }
    to_lib(f).write_to(b, f.mask)
}

pub fn gen_frame(cx: &mut Ctx, masked: bool) -> RFrame {
    let opcode = match cx.ch.below(3) {
        0 => cx.ch.pick(&[1u8, 2, 0]),
        1 => cx.ch.pick(&[8u8, 9, 10]),
        _ => cx.ch.below(16) as u8,
    };
    let control = opcode >= 8;
    let fin = control || !cx.ch.chance(1, 3);
    let rsv = if cx.ch.chance(1, 3) { [cx.ch.chance(1, 2), cx.ch.chance(1, 2), cx.ch.chance(1, 2)] } else { [false; 3] };
    let n = gen_len(cx, control);
    let data = gen_payload(cx, n);
    RFrame { fin, rsv, opcode, mask: if masked { Some(gen_mask(cx)) } else { None }, data }
}

// ---------------------------------------------------------------- C12

enum Ev {
    Data { conn: usize, hop: usize, gen: u64, bytes: Vec<u8> },
    Cut { conn: usize, hop: usize },
    Tick { conn: usize, hop: usize },
}

/// One hop of a connection: what was put on its wire (frame by frame) and what its reader has seen.
struct Hop {
    link: Link,
    masked: bool,
    sent: Vec<(RFrame, Vec<u8>)>,
    taken: usize,
    rx: Vec<u8>,
    gen: u64,
    cut_left: u64,
    /// the connection is already lost: nothing more gets through until it is reopened
    broken: bool,
    lazy: bool,
    kind: u64,
    how: u64,
}

fn send(cx: &mut Ctx, q: &mut Queue<Ev>, h: &mut Hop, conn: usize, hop: usize, from: usize) {
    let mut bytes = vec![];
    let mut marks = vec![];
    for (f, w) in &h.sent[from..] {
        let b = bytes.len();
        marks.push(b + w.len() - f.data.len());
        bytes.extend_from_slice(w);
        marks.push(bytes.len());
    }
    if bytes.is_empty() || h.broken {
        return;
    }
    let mut cut = false;
    if h.cut_left > 0 && cx.ch.chance(1, 3) {
        h.cut_left -= 1;
        let at = cx.ch.below(bytes.len() as u64) as usize;
        bytes.truncate(at);
        cut = true;
        h.broken = true;
    }
    let segs = h.link.segments(cx, &bytes, &marks);
    let mut last = cx.now;
    let gen = h.gen;
    for (at, s) in segs {
        last = at;
        q.push(cx, at, Ev::Data { conn, hop, gen, bytes: s });
    }
    if cut {
        q.push(cx, last + 1, Ev::Cut { conn, hop });
    }
}

/// The longest payload prefix of the buffer is read as far as the library goes; relays pass frames on.
fn pump(cx: &mut Ctx, q: &mut Queue<Ev>, chain: &mut Vec<Hop>, conn: usize, hop: usize) -> Res {
    loop {
        let h = &mut chain[hop];
        let next = h.taken;
        let kind = if h.kind == 5 { cx.ch.below(5) } else { h.kind };
        let how = if h.how == 3 { cx.ch.below(3) } else { h.how };
        if h.rx.is_empty() && cx.ch.chance(1, 2) {
            return Ok(());
        }
        let exp = h.sent.get(next).cloned();
        let limit = match &exp {
            Some((f, _)) => f.data.len() + cx.ch.pick(&[0usize, 1, 1000]),
            None => 100,
        };
        let r = lib_read(cx, &h.rx, h.masked, how, limit, kind);
        cx.ev("read", &[conn as u64, hop as u64, h.rx.len() as u64, r.is_ok() as u64]);
        let complete = matches!(&exp, Some((_, w)) if h.rx.len() >= w.len());
        match r {
            Err(e) if needs_more(&e) => {
                ensure!(!complete, "not-enough-on-complete", "'not enough data' for a complete frame {}", show(&h.rx));
                cx.probe("incomplete_reported");
                return Ok(());
            }
            Err(e) => return viol("frame-rejected", format!("{:?} for a legal frame stream {}", e, show(&h.rx))),
            Ok((d, n)) => {
                ensure!(complete, "frame-too-early", "frame {:?} read from an incomplete one {}", hdr(&d), show(&h.rx));
                let (f, w) = exp.unwrap();
                ensure!(n == w.len(), "wrong-consumed", "a frame of {} bytes consumed {}", w.len(), n);
                ensure!(same(&d, &f), "frame-altered", "sent {:?} {}, got {} {}", (f.fin, f.rsv, f.opcode, f.mask), show(&f.data), hdr(&d), show(&d.data));
                h.rx.drain(..n);
                h.taken += 1;
                if hop + 1 < chain.len() {
                    let masked = chain[hop + 1].masked;
                    let mask = if masked { Some(gen_mask(cx)) } else { None };
                    let f2 = RFrame { mask, ..f };
                    let w2 = put(cx, &d, &f2)?;
                    let h2 = &mut chain[hop + 1];
                    h2.sent.push((f2, w2));
                    let from = h2.sent.len() - 1;
                    send(cx, q, h2, conn, hop + 1, from);
                } else {
                    cx.message();
                }
            }
        }
    }
}

fn hdr(d: &DataFrame) -> String {
    format!("fin={} rsv={:?} opcode={:?} len={}", d.finished, d.reserved, d.opcode, d.data.len())
}

/// Writes a frame the way an application would and compares the wire with the reference encoding.
fn put(cx: &mut Ctx, d: &DataFrame, f: &RFrame) -> Res<Vec<u8>> {
    let mut wire = None;
    if f.fin && f.rsv == [false; 3] && cx.ch.chance(1, 2) {
        // through the message types, which are frames themselves
        match f.opcode {
            2 => {
                wire = Some(if cx.ch.chance(1, 2) { lib_write(cx, &Message::binary(&f.data[..]), f.mask)? } else { lib_write(cx, &OwnedMessage::Binary(f.data.clone()), f.mask)? });
            }
            9 => {
                wire = Some(if cx.ch.chance(1, 2) { lib_write(cx, &Message::ping(f.data.clone()), f.mask)? } else { lib_write(cx, &OwnedMessage::Ping(f.data.clone()), f.mask)? });
            }
            10 => {
                wire = Some(if cx.ch.chance(1, 2) { lib_write(cx, &Message::pong(f.data.clone()), f.mask)? } else { lib_write(cx, &OwnedMessage::Pong(f.data.clone()), f.mask)? });
            }
            _ => {}
        }
    }
    let wire = match wire {
        Some(w) => w,
        None => lib_write(cx, d, f.mask)?,
    };
    let want = m::encode(f);
    match wire {
        Ok(w) => {
            ensure!(w == want, "wire", "frame {} written as {}, RFC 6455 form is {}", hdr(d), show(&w), show(&want));
            Ok(w)
        }
        Err(e) => viol("write-rejected", format!("legal frame {} not written: {:?}", hdr(d), e)),
    }
}

/// Frames that must not reach the wire, and bare headers of any length.
fn header_only(cx: &mut Ctx) -> Res {
    let control = cx.ch.chance(1, 4);
    let opcode = if control { 8 + cx.ch.below(8) as u8 } else { cx.ch.below(8) as u8 };
    let mask = if cx.ch.chance(1, 2) { Some(gen_mask(cx)) } else { None };
    if control && cx.ch.chance(1, 2) {
        let n = if cx.ch.chance(1, 2) { cx.ch.pick(&[126, 127, 128, 255, 256, 65535, 65536]) } else { cx.ch.us(126, 70_000) };
        let d = DataFrame::new(true, Opcode::new(opcode).unwrap(), vec![7; n]);
        if let Ok(w) = lib_write(cx, &d, mask)? {
            return viol("oversized-control-sent", format!("control frame with {} payload bytes written: {}", n, show(&w)));
        }
        cx.probe("oversized_control_refused");
        return Ok(());
    }
    let len = match cx.ch.below(4) {
        0 => cx.ch.below(126),
        1 => cx.ch.pick(&[125, 126, 127, 255, 256, 65535, 65536, 65537, (1 << 24) - 1, u32::MAX as u64, 1 << 32, i64::MAX as u64]),
        _ => cx.ch.skew(i64::MAX as u64),
    };
    let len = if control { len % 126 } else { len };
    let fin = control || cx.ch.chance(1, 2);
    let rsv = [cx.ch.chance(1, 3), cx.ch.chance(1, 3), cx.ch.chance(1, 3)];
    let mut flags = WsFrameFlags::empty();
    for (b, f) in [(fin, WsFrameFlags::FIN), (rsv[0], WsFrameFlags::RSV1), (rsv[1], WsFrameFlags::RSV2), (rsv[2], WsFrameFlags::RSV3)] {
        if b {
            flags.insert(f);
        }
    }
    let h = WsFrameHeader { flags, opcode, mask, len };
    let mut v: Vec<u8> = vec![];
    let r = write_header(&mut v, h);
    ensure!(r.is_ok(), "write-rejected", "legal header {:?} not written: {:?}", h, r);
    let want = m::header(fin, rsv, opcode, mask, len);
    ensure!(v == want, "wire", "header {:?} written as {}, RFC 6455 form is {}", h, show(&v), show(&want));
    for c in 0..v.len() {
        let mut b = SimBuf::new(&v[..c]);
        match read_header(&mut b) {
            Err(e) if needs_more(&e) => {}
            other => return viol("frame-too-early", format!("{} of {} header bytes read as {:?}", c, v.len(), other)),
        }
    }
    let extra = cx.ch.below(3) as usize;
    let mut w = v.clone();
    w.extend(std::iter::repeat(0xff).take(extra));
    let mut b = SimBuf::new(&w);
    match read_header(&mut b) {
        Ok(g) => {
            ensure!(g == h, "frame-altered", "header {:?} read as {:?}", h, g);
            ensure!(b.pos() == v.len(), "wrong-consumed", "a header of {} bytes consumed {}", v.len(), b.pos());
        }
        Err(e) => return viol("frame-rejected", format!("{:?} for the legal header {:?}", e, h)),
    }
    cx.message();
    Ok(())
}

pub fn c12_frames(cx: &mut Ctx) -> Res {
    if cx.ch.chance(1, 6) {
        return header_only(cx);
    }
    let mut q: Queue<Ev> = Queue::new();
    let nconn = 1 + cx.ch.below(2) as usize;
    let mut conns: Vec<Vec<Hop>> = vec![];
    for c in 0..nconn {
        let hops = 1 + cx.ch.below(3) as usize;
        let mut chain = vec![];
        for _ in 0..hops {
            let link = Link::new(cx);
            let masked = cx.ch.chance(1, 2);
            let cutting = cx.ch.chance(1, 4);
            chain.push(Hop { link, masked, sent: vec![], taken: 0, rx: vec![], gen: 0, cut_left: if cutting { 3 } else { 0 }, broken: false, lazy: cx.ch.chance(1, 5), kind: cx.ch.below(6), how: cx.ch.below(4) });
        }
        let n = 1 + cx.ch.below(6) as usize;
        for _ in 0..n {
            let f = gen_frame(cx, chain[0].masked);
            let w = if cx.ch.chance(1, 3) { m::encode(&f) } else { put(cx, &to_lib(&f), &f)? };
            chain[0].sent.push((f, w));
        }
        send(cx, &mut q, &mut chain[0], c, 0, 0);
        conns.push(chain);
    }
    let mut steps = 0;
    while let Some(ev) = q.pop(cx) {
        steps += 1;
        if steps > 20_000 {
            break;
        }
        match ev {
            Ev::Data { conn, hop, gen, bytes } => {
                let h = &mut conns[conn][hop];
                if gen != h.gen {
                    continue;
                }
                cx.cov.deliveries += 1;
                cx.ev("rx", &[conn as u64, hop as u64, bytes.len() as u64]);
                cx.bytes_ev("rx-bytes", &bytes);
                h.rx.extend_from_slice(&bytes);
                if h.lazy && cx.ch.chance(1, 2) {
                    cx.fault("slow_receiver");
                    let at = cx.now + 200;
                    q.push(cx, at, Ev::Tick { conn, hop });
                    continue;
                }
                pump(cx, &mut q, &mut conns[conn], conn, hop)?;
            }
            Ev::Tick { conn, hop } => pump(cx, &mut q, &mut conns[conn], conn, hop)?,
            Ev::Cut { conn, hop } => {
                pump(cx, &mut q, &mut conns[conn], conn, hop)?;
                cx.fault("connection_cut");
                let h = &mut conns[conn][hop];
                cx.ev("cut", &[conn as u64, hop as u64, h.taken as u64]);
                h.rx.clear();
                h.gen += 1;
                h.broken = false;
                h.link = Link::new(cx);
                let from = h.taken;
                send(cx, &mut q, h, conn, hop, from);
            }
        }
    }
    for (i, chain) in conns.iter().enumerate() {
        let n = chain[0].sent.len();
        for (j, h) in chain.iter().enumerate() {
            ensure!(h.taken == n && h.rx.is_empty(), "not-delivered", "connection {} hop {}: {} of {} frames read, {} bytes left", i, j, h.taken, n, h.rx.len());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn gen_text(cx: &mut Ctx, max: usize) -> String {
    let mut s = String::new();
    if max > 4096 && cx.ch.chance(1, 12) {
        // a long text with wide characters anywhere in it
        cx.probe("long_text");
        let n = match cx.ch.below(4) {
            0 => 1000 + cx.ch.below(100),
            1 => 4000 + cx.ch.below(200),
            2 => 65_500 + cx.ch.below(80),
            _ => cx.ch.below(max as u64),
        } as usize;
        let fill = cx.ch.pick(&["a", "é", "水", "😀", "ab水"]);
        while s.len() < n {
            s.push_str(fill);
        }
        for _ in 0..cx.ch.below(4) {
            let mut at = cx.ch.below(s.len() as u64 + 1) as usize;
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert(at, cx.ch.pick(&['a', 'é', '水', '😀']));
        }
        return s;
    }
    let n = match cx.ch.below(4) {
        0 => cx.ch.below(4) as usize,
        1 => cx.ch.below(40) as usize,
        2 => cx.ch.skew(300) as usize,
        _ => 30,
    };
    for _ in 0..n {
        let c = cx.ch.pick(&['a', ' ', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '水', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '😀', '\u{10ffff}']);
        if s.len() + c.len_utf8() > max {
            break;
        }
        s.push(c);
    }
    s
}

fn gen_code(cx: &mut Ctx) -> u16 {
    match cx.ch.below(3) {
        0 => 1000 + cx.ch.below(20) as u16,
        1 => cx.ch.pick(&[0, 1, 999, 1004, 1014, 1016, 2999, 3000, 4999, 65535]),
        _ => cx.ch.below(65536) as u16,
    }
}

fn gen_msg(cx: &mut Ctx, control: bool) -> Msg {
    if control {
        match cx.ch.below(4) {
            0 => {
                let n = gen_len(cx, true);
                Msg::Ping(gen_payload(cx, n))
            }
            1 => {
                let n = gen_len(cx, true);
                Msg::Pong(gen_payload(cx, n))
            }
            2 => Msg::Close(Some((gen_code(cx), gen_text(cx, 123)))),
            _ => Msg::Close(None),
        }
    } else if cx.ch.chance(1, 2) {
        Msg::Text(gen_text(cx, 70_000))
    } else {
        let n = gen_len(cx, false);
        Msg::Binary(gen_payload(cx, n))
    }
}

fn owned(cx: &mut Ctx, x: &Msg) -> Res<OwnedMessage> {
    Ok(match x {
        Msg::Text(s) => if cx.ch.chance(1, 2) { OwnedMessage::Text(s.clone()) } else { OwnedMessage::from(s.clone()) },
        Msg::Binary(b) => if cx.ch.chance(1, 2) { OwnedMessage::Binary(b.clone()) } else { OwnedMessage::from(b.clone()) },
        Msg::Ping(b) => OwnedMessage::Ping(b.clone()),
        Msg::Pong(b) => OwnedMessage::Pong(b.clone()),
        Msg::Close(None) => OwnedMessage::Close(None),
        Msg::Close(Some((c, r))) => {
            let code = CloseCode::from(*c);
            let back: u16 = code.into();
            ensure!(back == *c, "close-code", "close code {} came back as {} through {:?}", c, back, code);
            let cd = CloseData::new(code, r.clone());
            let bytes = cd.clone().into_bytes().unwrap_or_default();
            ensure!(bytes == x.payload(), "close-bytes", "close {} {:?} has payload {}", c, r, show(&bytes));
            OwnedMessage::Close(Some(cd))
        }
    })
}

fn message<'a>(x: &'a Msg) -> Message<'a> {
    match x {
        Msg::Text(s) => Message::text(&s[..]),
        Msg::Binary(b) => Message::binary(&b[..]),
        Msg::Ping(b) => Message::ping(&b[..]),
        Msg::Pong(b) => Message::pong(&b[..]),
        Msg::Close(None) => Message::close(),
        Msg::Close(Some((c, r))) => Message::close_because(*c, &r[..]),
    }
}

fn from_owned(o: &OwnedMessage) -> Msg {
    match o {
        OwnedMessage::Text(s) => Msg::Text(s.clone()),
        OwnedMessage::Binary(b) => Msg::Binary(b.clone()),
        OwnedMessage::Ping(b) => Msg::Ping(b.clone()),
        OwnedMessage::Pong(b) => Msg::Pong(b.clone()),
        OwnedMessage::Close(c) => Msg::Close(c.as_ref().map(|c| (c.status_code, c.reason.clone()))),
    }
}

fn short(x: &Msg) -> String {
    format!("opcode {} {}", x.opcode(), show(&x.payload()))
}

fn frames_dbg(fs: &[RFrame]) -> String {
    fs.iter().map(|f| format!("(fin={} rsv={:?} op={} {})", f.fin as u8, f.rsv, f.opcode, show(&f.data))).collect::<Vec<_>>().join(" ")
}

/// Frames of one message: fragments of arbitrary sizes.
fn fragments(cx: &mut Ctx, x: &Msg, masked: bool) -> Vec<RFrame> {
    let p = x.payload();
    let n = if x.opcode() >= 8 { 1 } else if cx.ch.chance(1, 150) { cx.probe("many_fragments"); cx.ch.pick(&[32usize, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]) } else { 1 + if cx.ch.chance(1, 2) { cx.ch.below(6) as usize } else { 0 } };
    let mut cuts: Vec<usize> = (1..n).map(|_| cx.ch.below(p.len() as u64 + 1) as usize).collect();
    cuts.sort();
    cuts.push(p.len());
    let mut out = vec![];
    let mut at = 0;
    for (i, c) in cuts.iter().enumerate() {
        out.push(RFrame { fin: i + 1 == cuts.len(), rsv: [false; 3], opcode: if i == 0 { x.opcode() } else { 0 }, mask: if masked { Some(gen_mask(cx)) } else { None }, data: p[at..*c].to_vec() });
        at = *c;
    }
    if n > 1 {
        cx.probe("fragmented_message");
    }
    out
}

/// Holds the library's reading of a frame list against the rules.
fn judge_list(cx: &mut Ctx, frames: &[RFrame]) -> Res<Option<Msg>> {
    cx.cov.lib_calls += 1;
    let got = OwnedMessage::from_dataframes(frames.iter().map(to_lib).collect::<Vec<_>>());
    let want = m::message(frames);
    match (&want, &got) {
        (Ok(Some(w)), Ok(g)) => {
            let g = from_owned(g);
            ensure!(&g == w, "message-altered", "frames {} are {}, delivered as {}", frames_dbg(frames), short(w), short(&g));
            Ok(Some(g))
        }
        (Ok(Some(w)), Err(e)) => viol("message-rejected", format!("{:?} for {} in frames {}", e, short(w), frames_dbg(frames))),
        (Err(why), Ok(g)) => viol("broken-list-delivered", format!("frames {} ({}) delivered as {}", frames_dbg(frames), why, short(&from_owned(g)))),
        _ => Ok(None),
    }
}

fn damage_list(cx: &mut Ctx, fs: &mut Vec<RFrame>, other: &[RFrame]) {
    for _ in 0..1 + cx.ch.below(2) {
        if fs.is_empty() {
            return;
        }
        let i = cx.ch.below(fs.len() as u64) as usize;
        match cx.ch.below(11) {
            0 => {
                fs.remove(i);
                cx.fault("fragment_dropped");
            }
            1 => {
                let f = fs[i].clone();
                fs.insert(i, f);
                cx.fault("fragment_duplicated");
            }
            2 => {
                let j = cx.ch.below(fs.len() as u64) as usize;
                fs.swap(i, j);
                cx.fault("fragments_reordered");
            }
            3 => {
                fs[i].fin = !fs[i].fin;
                cx.fault("fin_flipped");
            }
            4 => {
                let b = cx.ch.below(3) as usize;
                fs[i].rsv[b] = !fs[i].rsv[b];
                cx.fault("rsv_flipped");
            }
            5 => {
                fs[i].opcode = cx.ch.below(16) as u8;
                cx.fault("opcode_changed");
            }
            6 => {
                if !fs[i].data.is_empty() {
                    let j = cx.ch.below(fs[i].data.len() as u64) as usize;
                    fs[i].data[j] = cx.ch.pick(&[0x80, 0xff, 0xc0, 0xed, 0xf5, b'a', 0]);
                    cx.fault("payload_byte_changed");
                }
            }
            7 => {
                let n = cx.ch.below(fs[i].data.len() as u64 + 1) as usize;
                fs[i].data.truncate(n);
                cx.fault("payload_truncated");
            }
            8 => {
                fs[i].data.insert(0, cx.ch.below(256) as u8);
                cx.fault("payload_byte_inserted");
            }
            9 => {
                fs.truncate(i);
                cx.fault("list_truncated");
            }
            _ => {
                let at = cx.ch.below(fs.len() as u64 + 1) as usize;
                for (k, f) in other.iter().enumerate() {
                    fs.insert(at + k, f.clone());
                }
                cx.fault("lists_spliced");
            }
        }
    }
}

/// Conversions an application makes on a message it holds.
fn conversions(cx: &mut Ctx, x: &Msg, o: &OwnedMessage) -> Res {
    let ctl = x.opcode() >= 8;
    ensure!(o.is_close() == (x.opcode() == 8) && o.is_ping() == (x.opcode() == 9) && o.is_pong() == (x.opcode() == 10) && o.is_control() == ctl && o.is_data() == !ctl,
        "message-kind", "kind predicates of {} are wrong", short(x));
    let b: Message = o.clone().into();
    let back = OwnedMessage::from(b.clone());
    ensure!(&back == o, "message-altered", "{} changed by conversion to Message and back: {}", short(x), short(&from_owned(&back)));
    ensure!(o.opcode() == x.opcode() && b.opcode() == x.opcode(), "message-kind", "opcode of {} reported as {} / {}", short(x), o.opcode(), b.opcode());
    let n = x.payload().len();
    ensure!(o.size() == n && b.size() == n, "frame-size", "payload size of {} reported as {} / {}", short(x), o.size(), b.size());
    ensure!(o.message_size(true) == o.frame_size(true) && o.message_size(false) == o.frame_size(false), "frame-size", "message_size and frame_size differ for {}", short(x));
    ensure!(o.clone().take_payload() == x.payload() && b.clone().take_payload() == x.payload(), "message-altered", "take_payload of {} differs", short(x));
    if cx.ch.chance(1, 3) {
        let mut p = b;
        let r = p.into_pong();
        ensure!(r.is_ok() == (x.opcode() == 9), "message-kind", "into_pong of {} gave {:?}", short(x), r);
        let want = match x {
            Msg::Ping(d) => Msg::Pong(d.clone()),
            y => y.clone(),
        };
        let got = from_owned(&OwnedMessage::from(p));
        ensure!(got == want, "message-altered", "into_pong of {} left {}", short(x), short(&got));
    }
    Ok(())
}

struct MEnd {
    expect: Vec<Msg>,
    got: usize,
    asm: Vec<RFrame>,
    rx: Vec<u8>,
}

/// Frames of concurrently sent messages: control messages slip between fragments.
pub fn c13_messages(cx: &mut Ctx) -> Res {
    if cx.ch.chance(1, 3) {
        return c13_lists(cx);
    }
    let mut q: Queue<(usize, Vec<u8>)> = Queue::new();
    let nconn = 1 + cx.ch.below(2) as usize;
    let mut ends = vec![];
    for c in 0..nconn {
        let mut link = Link::new(cx);
        let masked = cx.ch.chance(1, 2);
        let mut expect = vec![];
        let mut wire = vec![];
        let mut marks = vec![];
        let n = 1 + cx.ch.below(4) as usize;
        for _ in 0..n {
            let control = cx.ch.chance(1, 3);
            let x = gen_msg(cx, control);
            let fs = fragments(cx, &x, masked);
            let whole = fs.len() == 1 && cx.ch.chance(2, 3);
            for (i, f) in fs.iter().enumerate() {
                if i > 0 && cx.ch.chance(1, 3) {
                    let y = gen_msg(cx, true);
                    let g = fragments(cx, &y, masked);
                    let w = write_msg(cx, &y, g[0].mask)?;
                    wire.extend_from_slice(&w);
                    marks.push(wire.len());
                    expect.push(y);
                    cx.fault("control_between_fragments");
                }
                let w = if whole { write_msg(cx, &x, f.mask)? } else { put(cx, &to_lib(f), f)? };
                wire.extend_from_slice(&w);
                marks.push(wire.len());
            }
            expect.push(x);
        }
        let segs = link.segments(cx, &wire, &marks);
        for (at, s) in segs {
            q.push(cx, at, (c, s));
        }
        ends.push((masked, MEnd { expect, got: 0, asm: vec![], rx: vec![] }));
    }
    while let Some((c, bytes)) = q.pop(cx) {
        cx.cov.deliveries += 1;
        cx.ev("rx", &[c as u64, bytes.len() as u64]);
        cx.bytes_ev("rx-bytes", &bytes);
        let (masked, e) = &mut ends[c];
        e.rx.extend_from_slice(&bytes);
        loop {
            let kind = cx.ch.below(5);
            let how = cx.ch.below(3);
            let (d, n) = match lib_read(cx, &e.rx, *masked, how, usize::MAX, kind) {
                Ok(x) => x,
                Err(er) if needs_more(&er) => break,
                Err(er) => return viol("frame-rejected", format!("{:?} for a legal frame stream {}", er, show(&e.rx))),
            };
            e.rx.drain(..n);
            let f = RFrame { fin: d.finished, rsv: d.reserved, opcode: d.opcode as u8, mask: None, data: d.data };
            let list = if f.opcode >= 8 {
                vec![f]
            } else {
                let fin = f.fin;
                e.asm.push(f);
                if !fin {
                    continue;
                }
                std::mem::take(&mut e.asm)
            };
            let got = OwnedMessage::from_dataframes(list.iter().map(to_lib).collect::<Vec<_>>());
            let want = match e.expect.get(e.got) {
                Some(w) => w.clone(),
                None => return viol("message-invented", format!("{} messages sent, one more received: {}", e.expect.len(), frames_dbg(&list))),
            };
            match got {
                Ok(o) => {
                    let g = from_owned(&o);
                    ensure!(g == want, "message-altered", "sent {}, received {}", short(&want), short(&g));
                    conversions(cx, &g, &o)?;
                }
                Err(er) => return viol("message-rejected", format!("{:?} for {} in frames {}", er, short(&want), frames_dbg(&list))),
            }
            e.got += 1;
            cx.message();
            cx.ev("msg", &[c as u64, want.opcode() as u64, want.payload().len() as u64]);
        }
    }
    for (i, (_, e)) in ends.iter().enumerate() {
        ensure!(e.got == e.expect.len() && e.rx.is_empty() && e.asm.is_empty(), "not-delivered", "connection {}: {} of {} messages received", i, e.got, e.expect.len());
    }
    Ok(())
}

/// A whole message written by the message types themselves.
fn write_msg(cx: &mut Ctx, x: &Msg, mask: Option<[u8; 4]>) -> Res<Vec<u8>> {
    let r = if cx.ch.chance(1, 2) {
        let o = owned(cx, x)?;
        lib_write(cx, &o, mask)?
    } else {
        lib_write(cx, &message(x), mask)?
    };
    let want = m::encode(&RFrame { fin: true, rsv: [false; 3], opcode: x.opcode(), mask, data: x.payload() });
    match r {
        Ok(w) => {
            ensure!(w == want, "wire", "{} written as {}, RFC 6455 form is {}", short(x), show(&w), show(&want));
            Ok(w)
        }
        Err(e) => viol("write-rejected", format!("{} not written: {:?}", short(x), e)),
    }
}

fn c13_lists(cx: &mut Ctx) -> Res {
    let control = cx.ch.chance(1, 3);
    let x = gen_msg(cx, control);
    let mut fs = fragments(cx, &x, false);
    let control = cx.ch.chance(1, 2);
    let y = gen_msg(cx, control);
    let other = fragments(cx, &y, false);
    if cx.ch.chance(1, 8) {
        // messages are frames too
        let o = owned(cx, &x)?;
        let r = if cx.ch.chance(1, 2) { OwnedMessage::from_dataframes(vec![o]) } else { OwnedMessage::from_dataframes(vec![message(&x)]) };
        match r {
            Ok(g) => ensure!(from_owned(&g) == x, "message-altered", "sent {}, rebuilt {}", short(&x), short(&from_owned(&g))),
            Err(e) => return viol("message-rejected", format!("{:?} for {}", e, short(&x))),
        }
    }
    let got = judge_list(cx, &fs)?;
    ensure!(got.as_ref() == Some(&x), "message-altered", "sent {}, received {:?}", short(&x), got);
    damage_list(cx, &mut fs, &other);
    cx.ev("list", &[fs.len() as u64, x.opcode() as u64]);
    if judge_list(cx, &fs)?.is_some() {
        cx.probe("damaged_list_still_a_message");
    }
    cx.message();
    Ok(())
}

// ---------------------------------------------------------------- C14

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    More,
    Frame(usize, String),
    Err,
}

pub fn c14_hostile(cx: &mut Ctx) -> Res {
    let masked = cx.ch.chance(1, 2);
    let mut stream = vec![];
    let shape = cx.ch.below(4);
    let n = 1 + cx.ch.below(4);
    let mut marks = vec![];
    for _ in 0..n {
        match shape {
            0 | 1 => {
                let mut f = gen_frame(cx, masked);
                f.data.truncate(400);
                stream.extend(m::encode(&f));
            }
            2 => {
                // fabricated headers: any first byte, any length form, any declared length
                stream.push(cx.ch.below(256) as u8);
                let mb = if masked { 0x80 } else { 0 };
                match cx.ch.below(4) {
                    0 => stream.push(mb | cx.ch.below(128) as u8),
                    1 => {
                        stream.push(mb | 126);
                        let l = cx.ch.pick(&[0u16, 1, 125, 126, 127, 300, 65535]);
                        stream.extend_from_slice(&l.to_be_bytes());
                    }
                    2 => {
                        stream.push(mb | 127);
                        let l = cx.ch.pick(&[0u64, 125, 126, 65535, 65536, 70000, u32::MAX as u64, 1 << 40, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 13]);
                        stream.extend_from_slice(&l.to_be_bytes());
                    }
                    _ => {
                        stream.push(mb | 127);
                        let l = cx.ch.skew(u64::MAX);
                        stream.extend_from_slice(&l.to_be_bytes());
                    }
                }
                cx.fault("fabricated_header");
                let k = cx.ch.skew(200) as usize;
                for _ in 0..k {
                    stream.push(cx.ch.below(256) as u8);
                }
            }
            _ => {
                let k = cx.ch.skew(60) as usize;
                for _ in 0..k {
                    stream.push(cx.ch.below(256) as u8);
                }
                cx.fault("noise");
            }
        }
        marks.push(stream.len());
    }
    if shape == 1 || cx.ch.chance(1, 6) {
        corrupt(cx, &mut stream, &[0, 0x7e, 0x7f, 0xfe, 0xff, 0x88, 0x09, 0x80]);
    }
    if cx.ch.chance(1, 6) {
        let at = cx.ch.below(stream.len() as u64 + 1) as usize;
        stream.truncate(at);
        cx.fault("truncated");
    }
    // a third of the streams are read without a limit
    let limit = match cx.ch.below(3) {
        0 => None,
        1 => Some(cx.ch.pick(&[0u64, 1, 10, 124, 125, 126, 127, 1000, 65535, 65536])),
        _ => Some(cx.ch.skew(usize::MAX as u64)),
    };
    cx.bytes_ev("stream", &stream);
    let link = Link::new(cx);
    let mut cuts = link.cuts(cx, stream.len(), &marks);
    cuts.push(stream.len());
    let mut base = 0usize;
    let mut verdict = Verdict::More;
    let mut asm: Vec<DataFrame> = vec![];
    for c in cuts {
        loop {
            if c < base {
                break;
            }
            let data = &stream[base..c];
            let kind = cx.ch.below(5);
            let want = m::read(data, limit);
            let b0 = alloc::start();
            let r = match limit {
                None => lib_read(cx, data, masked, 0, 0, kind),
                Some(l) => lib_read(cx, data, masked, 1, l as usize, kind),
            };
            let used = alloc::peak_since(b0);
            ensure!(used <= 400_000 + 8 * data.len() as i64, "allocation", "{} bytes allocated to read {}", used, show(data));
            cx.ev("read", &[data.len() as u64, r.is_ok() as u64]);
            let v = match &r {
                Ok((d, n)) => {
                    ensure!(*n <= data.len(), "wrong-consumed", "{} bytes consumed of {}", n, data.len());
                    Verdict::Frame(*n, format!("{:?}", d))
                }
                Err(e) if needs_more(e) => Verdict::More,
                Err(_) => Verdict::Err,
            };
            if verdict != Verdict::More {
                ensure!(v == verdict, "verdict-changed", "verdict {:?} became {:?} when more data arrived: {}", verdict, v, show(data));
            }
            match (&want, &v) {
                (Read::NeedHeader { doomed: false } | Read::NeedPayload, Verdict::More) => {}
                (Read::NeedHeader { doomed: true }, Verdict::More | Verdict::Err) => {}
                (Read::Bad(_), Verdict::Err) => cx.probe("bad_frame_refused"),
                (Read::Frame(f, n), Verdict::Frame(k, _)) => {
                    let d = &r.as_ref().unwrap().0;
                    ensure!(n == k, "wrong-consumed", "a frame of {} bytes consumed {}: {}", n, k, show(data));
                    ensure!(same(d, f), "frame-altered", "{} read as {} {}", show(data), hdr(d), show(&d.data));
                }
                // undefined opcodes and reserved bits may be refused
                (Read::Frame(f, _), Verdict::Err) if f.rsv != [false; 3] || !matches!(f.opcode, 0 | 1 | 2 | 8 | 9 | 10) => {}
                (Read::NeedHeader { doomed: false } | Read::NeedPayload, Verdict::Err) if data.len() > 0 && (data[0] & 0x70 != 0 || !matches!(data[0] & 15, 0 | 1 | 2 | 8 | 9 | 10)) => {}
                (Read::Bad(w), _) => return viol("bad-frame-not-refused", format!("{} is {} (limit {:?}) but the reader says {:?}", show(data), w, limit, v)),
                _ => return viol("wrong-verdict", format!("{} (limit {:?}) is {:?} but the reader says {:?} {:?}", show(data), limit, want, v, r.as_ref().err())),
            }
            match r {
                Ok((d, n)) => {
                    // whatever arrives is also tried as part of a message
                    let last = d.finished;
                    asm.push(d);
                    if last {
                        let l = std::mem::take(&mut asm);
                        cx.cov.lib_calls += 1;
                        let fs: Vec<RFrame> = l.iter().map(|d| RFrame { fin: d.finished, rsv: d.reserved, opcode: d.opcode as u8, mask: None, data: d.data.clone() }).collect();
                        judge_list(cx, &fs)?;
                    }
                    base += n;
                    verdict = Verdict::More;
                    cx.message();
                    if n == 0 {
                        break;
                    }
                }
                Err(_) => {
                    verdict = v;
                    break;
                }
            }
        }
        if verdict == Verdict::Err && cx.ch.chance(1, 2) {
            break;
        }
    }
    Ok(())
}

/// A frame whose masking does not match its direction must be refused (RFC 6455 5.1).
pub fn c14_direction(cx: &mut Ctx) -> Res {
    let masked = cx.ch.chance(1, 2);
    let mut f = gen_frame(cx, masked);
    f.data.truncate(100);
    let w = m::encode(&f);
    let kind = cx.ch.below(5);
    let how = cx.ch.below(3);
    cx.message();
    cx.fault("wrong_direction");
    if let Ok((d, _)) = lib_read(cx, &w, !masked, how, 1000, kind) {
        return viol("mask-direction", format!("a frame that is {}masked was accepted where the opposite is required: {}", if masked { "" } else { "not " }, hdr(&d)));
    }
    Ok(())
}
