//! Reference RFC 9113 framing: a writer that draws every legal freedom of a peer, and a strict reader.
use super::hpack::{self as hp, Bad, Field};
use crate::ctx::{show, Ctx};
use std::collections::BTreeMap;

pub const DATA: u8 = 0;
pub const HEADERS: u8 = 1;
pub const PRIORITY: u8 = 2;
pub const RST: u8 = 3;
pub const SETTINGS: u8 = 4;
pub const PUSH: u8 = 5;
pub const PING: u8 = 6;
pub const GOAWAY: u8 = 7;
pub const WINUP: u8 = 8;
pub const CONT: u8 = 9;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Parts {
    pub method: Option<String>,
    pub scheme: Option<String>,
    pub authority: Option<String>,
    pub path: Option<String>,
    pub status: Option<u16>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prio {
    pub dep: u32,
    pub weight: u8,
    pub excl: bool,
}

/// A logical frame: HEADERS and PUSH_PROMISE stand for the frame and its CONTINUATIONs.
#[derive(Clone, Debug, PartialEq)]
pub enum MF {
    Data { sid: u32, data: Vec<u8>, end: bool },
    Headers { sid: u32, parts: Parts, fields: Vec<Field>, end: bool, prio: Option<Prio> },
    Priority { sid: u32, prio: Prio },
    Reset { sid: u32, code: u32 },
    Settings { ack: bool, vals: BTreeMap<u16, u32> },
    Push { sid: u32, promised: u32, parts: Parts, fields: Vec<Field> },
    Ping { ack: bool, data: [u8; 8] },
    GoAway { last: u32, code: u32, debug: Vec<u8> },
    WinUp { sid: u32, inc: u32 },
    Unknown,
}

impl MF {
    pub fn kind(&self) -> u8 {
        match self {
            MF::Data { .. } => DATA,
            MF::Headers { .. } => HEADERS,
            MF::Priority { .. } => PRIORITY,
            MF::Reset { .. } => RST,
            MF::Settings { .. } => SETTINGS,
            MF::Push { .. } => PUSH,
            MF::Ping { .. } => PING,
            MF::GoAway { .. } => GOAWAY,
            MF::WinUp { .. } => WINUP,
            MF::Unknown => 0xee,
        }
    }
    pub fn show(&self) -> String {
        let s = match self {
            MF::Data { sid, data, end } => format!("DATA sid={} end={} {}", sid, end, show(data)),
            MF::Headers { sid, parts, fields, end, prio } => format!("HEADERS sid={} end={} prio={:?} {:?} [{}]", sid, end, prio, parts, hp::show_list(fields)),
            MF::Push { sid, promised, parts, fields } => format!("PUSH_PROMISE sid={} promised={} {:?} [{}]", sid, promised, parts, hp::show_list(fields)),
            o => format!("{:?}", o),
        };
        s.chars().take(1200).collect()
    }
}

/// Header list on the wire: pseudo fields first.
pub fn wire_list(p: &Parts, fields: &[Field]) -> Vec<Field> {
    let mut l: Vec<Field> = vec![];
    let mut add = |n: &str, v: &Option<String>| {
        if let Some(v) = v {
            l.push((n.as_bytes().to_vec(), v.as_bytes().to_vec()));
        }
    };
    add(":method", &p.method);
    add(":scheme", &p.scheme);
    add(":authority", &p.authority);
    add(":path", &p.path);
    add(":status", &p.status.map(|s| s.to_string()));
    l.extend(fields.iter().cloned());
    l
}

pub const METHODS: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"];

/// Splits a decoded list. `May` for what RFC 9113 calls malformed but a framing layer may let pass.
pub fn split_list(l: Vec<Field>) -> Result<(Parts, Vec<Field>), Bad> {
    let mut p = Parts::default();
    let mut f: Vec<Field> = vec![];
    let mut may = None;
    for (n, v) in l {
        if n.iter().any(|b| b.is_ascii_uppercase()) {
            may = Some("upper-case field name");
        }
        if n.first() == Some(&b':') {
            if !f.is_empty() {
                may = Some("pseudo field after a regular field");
            }
            let s = match String::from_utf8(v) {
                Ok(s) => s,
                Err(_) => {
                    may = Some("pseudo field is not text");
                    continue;
                }
            };
            let dup = match &n[..] {
                b":method" => {
                    if !METHODS.contains(&s.as_str()) {
                        may = Some("unregistered method");
                    }
                    p.method.replace(s).is_some()
                }
                b":scheme" => {
                    if s.len() > 64 || s.is_empty() {
                        may = Some("odd scheme");
                    }
                    p.scheme.replace(s).is_some()
                }
                b":authority" => p.authority.replace(s).is_some(),
                b":path" => p.path.replace(s).is_some(),
                b":status" => {
                    let b = s.as_bytes();
                    if b.len() == 3 && b.iter().all(|c| c.is_ascii_digit()) && b[0] != b'0' {
                        p.status.replace(s.parse().unwrap()).is_some()
                    } else {
                        may = Some("bad status");
                        false
                    }
                }
                _ => {
                    may = Some("unknown pseudo field");
                    false
                }
            };
            if dup {
                may = Some("repeated pseudo field");
            }
        } else {
            match f.iter_mut().find(|x| x.0 == n) {
                // RFC 9113, 8.2.3: the pieces of a Cookie field are joined
                Some(x) if x.0 == b"cookie" => {
                    x.1.extend_from_slice(b"; ");
                    x.1.extend_from_slice(&v);
                }
                Some(x) => x.1 = v,
                None => f.push((n, v)),
            }
        }
    }
    match may {
        Some(w) => Err(Bad::May(w)),
        None => Ok((p, f)),
    }
}

/// Faults of what a header block says, found after the whole block was decoded: they concern its
/// stream alone, and the connection's header table has moved on as the sender's has.
pub fn is_meaning(w: &str) -> bool {
    ["upper-case field name", "pseudo field after a regular field", "pseudo field is not text", "unregistered method", "odd scheme", "bad status", "unknown pseudo field", "repeated pseudo field"].contains(&w)
}

// ------------------------------------------------------------------ raw frames

#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub kind: u8,
    pub flags: u8,
    pub r: bool,
    pub sid: u32,
    pub payload: Vec<u8>,
}

impl Raw {
    pub fn write(&self, o: &mut Vec<u8>) {
        let l = self.payload.len() as u32;
        o.extend_from_slice(&l.to_be_bytes()[1..]);
        o.push(self.kind);
        o.push(self.flags);
        let id = self.sid | if self.r { 1 << 31 } else { 0 };
        o.extend_from_slice(&id.to_be_bytes());
        o.extend_from_slice(&self.payload);
    }
    /// The first frame in `b`, if all of it is there.
    pub fn take(b: &[u8]) -> Option<(Raw, usize)> {
        if b.len() < 9 {
            return None;
        }
        let l = u32::from_be_bytes([0, b[0], b[1], b[2]]) as usize;
        if b.len() < 9 + l {
            return None;
        }
        let id = u32::from_be_bytes([b[5], b[6], b[7], b[8]]);
        Some((Raw { kind: b[3], flags: b[4], r: id >> 31 == 1, sid: id & 0x7fff_ffff, payload: b[9..9 + l].to_vec() }, 9 + l))
    }
}

fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

fn prio_of(b: &[u8]) -> Prio {
    let v = be32(b);
    Prio { dep: v & 0x7fff_ffff, weight: b[4], excl: v >> 31 == 1 }
}

fn unpad(raw: &Raw) -> Result<&[u8], Bad> {
    let p = &raw.payload[..];
    if raw.flags & 8 == 0 {
        return Ok(p);
    }
    let n = *p.first().ok_or(Bad::Must("padded frame without a pad length"))? as usize;
    if n >= p.len() {
        return Err(Bad::Must("padding not smaller than the payload"));
    }
    Ok(&p[1..p.len() - n])
}

/// Reads one logical frame; HEADERS and PUSH_PROMISE carry their whole block.
pub fn read(raw: &Raw, dec: &mut hp::Decoder) -> Result<MF, Bad> {
    let p = &raw.payload[..];
    let need_sid = |want: bool| if (raw.sid != 0) == want { Ok(()) } else { Err(Bad::Must("stream id illegal for the kind")) };
    match raw.kind {
        DATA => {
            need_sid(true)?;
            Ok(MF::Data { sid: raw.sid, data: unpad(raw)?.to_vec(), end: raw.flags & 1 != 0 })
        }
        HEADERS => {
            need_sid(true)?;
            let mut b = unpad(raw)?;
            let mut prio = None;
            if raw.flags & 0x20 != 0 {
                if b.len() < 5 {
                    return Err(Bad::Must("HEADERS too short for its priority"));
                }
                prio = Some(prio_of(b));
                b = &b[5..];
            }
            let l = dec.decode(b)?;
            let (parts, fields) = split_list(l)?;
            if prio.as_ref().map_or(false, |p| p.dep == raw.sid) {
                return Err(Bad::May("self dependency"));
            }
            Ok(MF::Headers { sid: raw.sid, parts, fields, end: raw.flags & 1 != 0, prio })
        }
        PRIORITY => {
            need_sid(true)?;
            if p.len() != 5 {
                return Err(Bad::Must("PRIORITY length"));
            }
            let prio = prio_of(p);
            if prio.dep == raw.sid {
                return Err(Bad::Must("PRIORITY on itself"));
            }
            Ok(MF::Priority { sid: raw.sid, prio })
        }
        RST => {
            need_sid(true)?;
            if p.len() != 4 {
                return Err(Bad::Must("RST_STREAM length"));
            }
            Ok(MF::Reset { sid: raw.sid, code: be32(p) })
        }
        SETTINGS => {
            need_sid(false)?;
            if raw.flags & 1 != 0 {
                if !p.is_empty() {
                    return Err(Bad::Must("SETTINGS ACK with a payload"));
                }
                return Ok(MF::Settings { ack: true, vals: BTreeMap::new() });
            }
            Ok(MF::Settings { ack: false, vals: read_settings(p)? })
        }
        PUSH => {
            need_sid(true)?;
            let b = unpad(raw)?;
            if b.len() < 4 {
                return Err(Bad::Must("PUSH_PROMISE too short"));
            }
            let promised = be32(b) & 0x7fff_ffff;
            if promised == 0 {
                return Err(Bad::Must("PUSH_PROMISE promises stream 0"));
            }
            let l = dec.decode(&b[4..])?;
            let (parts, fields) = split_list(l)?;
            Ok(MF::Push { sid: raw.sid, promised, parts, fields })
        }
        PING => {
            need_sid(false)?;
            if p.len() != 8 {
                return Err(Bad::Must("PING length"));
            }
            let mut data = [0; 8];
            data.copy_from_slice(p);
            Ok(MF::Ping { ack: raw.flags & 1 != 0, data })
        }
        GOAWAY => {
            need_sid(false)?;
            if p.len() < 8 {
                return Err(Bad::Must("GOAWAY length"));
            }
            Ok(MF::GoAway { last: be32(p) & 0x7fff_ffff, code: be32(&p[4..]), debug: p[8..].to_vec() })
        }
        WINUP => {
            if p.len() != 4 {
                return Err(Bad::Must("WINDOW_UPDATE length"));
            }
            let inc = be32(p) & 0x7fff_ffff;
            if inc == 0 {
                return Err(Bad::Must("WINDOW_UPDATE of 0"));
            }
            Ok(MF::WinUp { sid: raw.sid, inc })
        }
        CONT => Err(Bad::Must("CONTINUATION on its own")),
        _ => Err(Bad::May("unknown frame kind")),
    }
}

pub fn read_settings(p: &[u8]) -> Result<BTreeMap<u16, u32>, Bad> {
    if p.len() % 6 != 0 {
        return Err(Bad::Must("SETTINGS length"));
    }
    let mut vals = BTreeMap::new();
    for c in p.chunks(6) {
        let id = u16::from_be_bytes([c[0], c[1]]);
        let v = be32(&c[2..]);
        let ok = match id {
            2 | 8 => v <= 1,
            4 => v <= 0x7fff_ffff,
            5 => v >= 16_384 && v <= 16_777_215,
            _ => true,
        };
        if !ok {
            return Err(Bad::Must("setting out of range"));
        }
        if matches!(id, 1..=6 | 8) {
            vals.insert(id, v);
        }
    }
    Ok(vals)
}

/// Joins a header frame and its continuations into one frame with its padding removed.
#[derive(Default)]
pub struct Joiner {
    pub open: Option<Raw>,
}

impl Joiner {
    /// `Ok(None)` while a block is incomplete.
    pub fn push(&mut self, raw: Raw) -> Result<Option<Raw>, Bad> {
        if let Some(o) = &mut self.open {
            if raw.kind != CONT || raw.sid != o.sid {
                return Err(Bad::Must("a header block is interrupted"));
            }
            o.payload.extend_from_slice(&raw.payload);
            if raw.flags & 4 != 0 {
                o.flags |= 4;
                return Ok(self.open.take());
            }
            return Ok(None);
        }
        if matches!(raw.kind, HEADERS | PUSH) && raw.flags & 4 == 0 {
            let mut r = raw;
            if r.flags & 8 != 0 {
                r.payload = unpad(&r)?.to_vec();
                r.flags &= !8;
            }
            self.open = Some(r);
            return Ok(None);
        }
        Ok(Some(raw))
    }
}

/// What a frame written by the library must look like on the wire, whatever it means.
pub fn strict(raw: &Raw, max: usize) -> Result<(), String> {
    // how much debug data a GOAWAY carries is the application's choice: it cannot be split
    if raw.payload.len() > max && raw.kind != GOAWAY {
        return Err(format!("payload of {} octets exceeds the frame size {}", raw.payload.len(), max));
    }
    let defined = match raw.kind {
        DATA => 0x01,
        HEADERS => 0x25,
        SETTINGS | PING => 0x01,
        PUSH | CONT => 0x04,
        PRIORITY | RST | GOAWAY | WINUP => 0,
        _ => return Err(format!("unknown kind {} sent", raw.kind)),
    };
    if raw.flags & !defined != 0 {
        return Err(format!("flags {:02x} sent on kind {}", raw.flags, raw.kind));
    }
    if raw.r {
        return Err("reserved bit sent".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ generation

pub fn gen_sid(cx: &mut Ctx) -> u32 {
    match cx.ch.below(6) {
        0..=2 => 1 + cx.ch.below(9) as u32,
        3 => 0x7fff_ffff,
        4 => 1 << cx.ch.below(31),
        _ => 1 + cx.ch.below(0x7fff_fffe) as u32,
    }
}

fn gen_u32(cx: &mut Ctx) -> u32 {
    match cx.ch.below(5) {
        0 => cx.ch.below(16) as u32,
        1 => u32::MAX,
        2 => 1 << cx.ch.below(32),
        3 => 0x8000_0000,
        _ => cx.ch.below(1 << 32) as u32,
    }
}

pub fn gen_fields(cx: &mut Ctx, max: u64) -> Vec<Field> {
    let mut out: Vec<Field> = vec![];
    for (n, v) in hp::gen_list(cx, max) {
        if n[0] != b':' && !out.iter().any(|f| f.0 == n) {
            out.push((n, v));
        }
    }
    let mut many = vec![];
    crate::model::http1::crowd(cx, &mut many);
    out.extend(many.into_iter().map(|(n, v)| (n.into_bytes(), v)));
    if cx.ch.chance(1, 150) {
        let v = crate::model::http1::bulk(cx);
        out.push((b"x-long".to_vec(), v.into_bytes()));
    }
    out
}

fn gen_text(cx: &mut Ctx, max: u64) -> String {
    let n = cx.ch.skew(max);
    (0..n).map(|_| if cx.ch.chance(1, 12) { 'é' } else { (0x21 + cx.ch.below(0x5e) as u8) as char }).collect()
}

pub fn gen_parts(cx: &mut Ctx, kind: u64) -> Parts {
    match kind {
        0 => Parts {
            method: Some(cx.ch.pick(&METHODS).to_string()),
            scheme: if cx.ch.chance(1, 10) { None } else { Some(if cx.ch.chance(1, 8) { "x-proto".to_string() } else { cx.ch.pick(&["http", "https", "ws", "wss", "ftp"]).to_string() }) },
            authority: if cx.ch.chance(1, 4) { None } else { Some(if cx.ch.chance(1, 2) { "example.com:8080".into() } else { gen_text(cx, 60) }) },
            path: if cx.ch.chance(1, 10) { None } else if cx.ch.chance(1, 60) { Some(format!("/{}", crate::model::http1::bulk(cx))) } else { Some(format!("/{}", gen_text(cx, 80))) },
            status: None,
        },
        1 => Parts { status: Some(100 + cx.ch.below(900) as u16), ..Default::default() },
        _ => Parts::default(),
    }
}

pub fn gen_settings(cx: &mut Ctx, table_size: bool) -> BTreeMap<u16, u32> {
    let mut m = BTreeMap::new();
    if table_size && cx.ch.chance(1, 2) {
        m.insert(1, gen_u32(cx));
    }
    if cx.ch.chance(1, 2) {
        m.insert(2, cx.ch.below(2) as u32);
    }
    if cx.ch.chance(1, 2) {
        m.insert(3, gen_u32(cx));
    }
    if cx.ch.chance(1, 2) {
        m.insert(4, gen_u32(cx) & 0x7fff_ffff);
    }
    if cx.ch.chance(1, 2) {
        m.insert(5, cx.ch.pick(&[16_384u32, 16_385, 16_777_215, 65_536, 1 << 20]));
    }
    if cx.ch.chance(1, 2) {
        m.insert(6, gen_u32(cx));
    }
    if cx.ch.chance(1, 3) {
        m.insert(8, cx.ch.below(2) as u32);
    }
    m
}

pub fn gen_bytes(cx: &mut Ctx, max: u64) -> Vec<u8> {
    let n = cx.ch.skew(max) as usize;
    if n > 2000 {
        let a = cx.ch.below(251);
        return (0..n as u64).map(|i| (i.wrapping_mul(31) ^ (i >> 8) ^ a) as u8).collect();
    }
    (0..n).map(|_| cx.ch.below(256) as u8).collect()
}

pub fn gen_mf(cx: &mut Ctx, max_data: u64) -> MF {
    match cx.ch.below(10) {
        0 => MF::Data { sid: gen_sid(cx), data: gen_bytes(cx, max_data), end: cx.ch.chance(1, 2) },
        1 | 2 => {
            let k = cx.ch.below(3);
            let sid = gen_sid(cx);
            let prio = if cx.ch.chance(1, 5) { Some(gen_prio(cx, sid)) } else { None };
            MF::Headers { sid, parts: gen_parts(cx, k), fields: gen_fields(cx, 12), end: cx.ch.chance(1, 2), prio }
        }
        3 => {
            let sid = gen_sid(cx);
            MF::Priority { sid, prio: gen_prio(cx, sid) }
        }
        4 => MF::Reset { sid: gen_sid(cx), code: gen_u32(cx) },
        5 => {
            if cx.ch.chance(1, 4) {
                MF::Settings { ack: true, vals: BTreeMap::new() }
            } else {
                MF::Settings { ack: false, vals: gen_settings(cx, true) }
            }
        }
        6 => MF::Push { sid: gen_sid(cx), promised: gen_sid(cx), parts: gen_parts(cx, 0), fields: gen_fields(cx, 8) },
        7 => {
            let mut data = [0; 8];
            for b in data.iter_mut() {
                *b = cx.ch.below(256) as u8;
            }
            MF::Ping { ack: cx.ch.chance(1, 2), data }
        }
        8 => MF::GoAway { last: if cx.ch.chance(1, 3) { 0 } else { gen_sid(cx) }, code: gen_u32(cx), debug: if cx.ch.chance(1, 20) { crate::model::http1::bulk(cx).into_bytes() } else { gen_bytes(cx, 40.min(max_data)) } },
        _ => MF::WinUp { sid: if cx.ch.chance(1, 3) { 0 } else { gen_sid(cx) }, inc: 1 + gen_u32(cx) % 0x7fff_ffff },
    }
}

fn gen_prio(cx: &mut Ctx, sid: u32) -> Prio {
    let mut dep = if cx.ch.chance(1, 4) { 0 } else { gen_sid(cx) };
    if dep == sid {
        dep = 0;
    }
    Prio { dep, weight: cx.ch.below(256) as u8, excl: cx.ch.chance(1, 2) }
}

/// How the reference peer uses its freedoms.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub pad: bool,
    pub noise: bool,
    pub split: bool,
    pub unknown: bool,
}

fn prio_bytes(p: &Prio) -> Vec<u8> {
    let mut o = (p.dep | if p.excl { 1 << 31 } else { 0 }).to_be_bytes().to_vec();
    o.push(p.weight);
    o
}

fn pad(cx: &mut Ctx, raw: &mut Raw) {
    let n = if cx.ch.chance(1, 4) { cx.ch.pick(&[0u64, 1, 255]) } else { cx.ch.below(256) } as usize;
    raw.flags |= 8;
    raw.payload.insert(0, n as u8);
    // a receiver must not care what the padding holds
    let fill = if cx.ch.chance(1, 3) { cx.ch.below(256) as u8 } else { 0 };
    raw.payload.extend(std::iter::repeat(fill).take(n));
    cx.probe("padded");
}

fn noise(cx: &mut Ctx, raw: &mut Raw) {
    let defined = match raw.kind {
        DATA => 0x09,
        HEADERS => 0x2d,
        SETTINGS | PING => 0x01,
        PUSH => 0x0c,
        CONT => 0x04,
        _ => 0,
    };
    raw.flags |= cx.ch.below(256) as u8 & !defined;
    raw.r = cx.ch.chance(1, 2);
    cx.probe("undefined_flag_bits");
}

/// Writes a logical frame as a reference peer would.
pub fn ref_write(cx: &mut Ctx, f: &MF, enc: &mut hp::Encoder, st: Style) -> Vec<Raw> {
    let mut out = vec![];
    let mk = |kind: u8, flags: u8, sid: u32, payload: Vec<u8>| Raw { kind, flags, r: false, sid, payload };
    if st.unknown && cx.ch.chance(1, 5) {
        let k = 10 + cx.ch.below(246) as u8;
        let p = gen_bytes(cx, 40);
        let fl = cx.ch.below(256) as u8;
        let sid = if cx.ch.chance(1, 2) { 0 } else { gen_sid(cx) };
        out.push(mk(k, fl, sid, p));
        cx.probe("unknown_kind_sent");
    }
    match f {
        MF::Data { sid, data, end } => {
            let mut r = mk(DATA, *end as u8, *sid, data.clone());
            if st.pad && cx.ch.chance(1, 2) {
                pad(cx, &mut r);
            }
            out.push(r);
        }
        MF::Headers { .. } | MF::Push { .. } => {
            let (kind, flags, sid, prefix, list) = match f {
                MF::Headers { sid, parts, fields, end, prio } => {
                    let mut fl = *end as u8;
                    let mut pre = vec![];
                    if let Some(p) = prio {
                        fl |= 0x20;
                        pre = prio_bytes(p);
                    }
                    (HEADERS, fl, *sid, pre, wire_list(parts, fields))
                }
                MF::Push { sid, promised, parts, fields } => (PUSH, 0, *sid, promised.to_be_bytes().to_vec(), wire_list(parts, fields)),
                _ => unreachable!(),
            };
            let block = enc.encode(cx, &list);
            let mut pieces = vec![];
            if st.split && cx.ch.chance(1, 2) {
                let n = 1 + cx.ch.below(4);
                let mut at: Vec<usize> = (0..n).map(|_| cx.ch.below(block.len() as u64 + 1) as usize).collect();
                at.sort();
                let mut p = 0;
                for a in at {
                    pieces.push(block[p..a].to_vec());
                    p = a;
                }
                pieces.push(block[p..].to_vec());
                cx.probe("continuation_sent");
            } else {
                pieces.push(block);
            }
            let last = pieces.len() - 1;
            for (i, b) in pieces.into_iter().enumerate() {
                let mut r = if i == 0 {
                    let mut p = prefix.clone();
                    p.extend(b);
                    let mut r = mk(kind, flags, sid, p);
                    if st.pad && cx.ch.chance(1, 2) {
                        pad(cx, &mut r);
                    }
                    r
                } else {
                    mk(CONT, 0, sid, b)
                };
                if i == last {
                    r.flags |= 4;
                }
                out.push(r);
            }
        }
        MF::Priority { sid, prio } => out.push(mk(PRIORITY, 0, *sid, prio_bytes(prio))),
        MF::Reset { sid, code } => out.push(mk(RST, 0, *sid, code.to_be_bytes().to_vec())),
        MF::Settings { ack, vals } => {
            let mut p = vec![];
            let put = |p: &mut Vec<u8>, k: u16, v: u32| {
                p.extend_from_slice(&k.to_be_bytes());
                p.extend_from_slice(&v.to_be_bytes());
            };
            for (k, v) in vals {
                if st.noise && cx.ch.chance(1, 4) {
                    // an unknown setting, or an earlier value that the next one overrides
                    if cx.ch.chance(1, 2) {
                        let k = cx.ch.pick(&[0u16, 7, 9, 10, 0xffff]);
                        let v = gen_u32(cx);
                        put(&mut p, k, v);
                    } else {
                        let v = match k {
                            5 => 16_384,
                            _ => 0,
                        };
                        put(&mut p, *k, v);
                    }
                }
                put(&mut p, *k, *v);
            }
            out.push(mk(SETTINGS, *ack as u8, 0, p));
        }
        MF::Ping { ack, data } => out.push(mk(PING, *ack as u8, 0, data.to_vec())),
        MF::GoAway { last, code, debug } => {
            let mut p = last.to_be_bytes().to_vec();
            if st.noise && cx.ch.chance(1, 3) {
                p[0] |= 0x80;
            }
            p.extend_from_slice(&code.to_be_bytes());
            p.extend_from_slice(debug);
            out.push(mk(GOAWAY, 0, 0, p));
        }
        MF::WinUp { sid, inc } => {
            let mut p = inc.to_be_bytes().to_vec();
            if st.noise && cx.ch.chance(1, 3) {
                p[0] |= 0x80;
            }
            out.push(mk(WINUP, 0, *sid, p));
        }
        MF::Unknown => {}
    }
    if st.noise {
        for r in out.iter_mut() {
            if r.kind <= CONT && cx.ch.chance(1, 3) {
                noise(cx, r);
            }
        }
    }
    out
}
