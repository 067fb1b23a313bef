//! Independent RFC 6455 framing and message rules.

#[derive(Clone, Debug, PartialEq)]
pub struct RFrame {
    pub fin: bool,
    pub rsv: [bool; 3],
    pub opcode: u8,
    pub mask: Option<[u8; 4]>,
    /// unmasked payload
    pub data: Vec<u8>,
}

pub fn xor(mask: [u8; 4], data: &[u8]) -> Vec<u8> {
    data.iter().enumerate().map(|(i, b)| b ^ mask[i & 3]).collect()
}

pub fn header(fin: bool, rsv: [bool; 3], opcode: u8, mask: Option<[u8; 4]>, len: u64) -> Vec<u8> {
    let mut o = vec![];
    let mut b0 = opcode & 15;
    if fin { b0 |= 0x80 }
    if rsv[0] { b0 |= 0x40 }
    if rsv[1] { b0 |= 0x20 }
    if rsv[2] { b0 |= 0x10 }
    o.push(b0);
    let m = if mask.is_some() { 0x80 } else { 0 };
    if len < 126 {
        o.push(m | len as u8);
    } else if len < 65536 {
        o.push(m | 126);
        o.extend_from_slice(&(len as u16).to_be_bytes());
    } else {
        o.push(m | 127);
        o.extend_from_slice(&len.to_be_bytes());
    }
    if let Some(k) = mask {
        o.extend_from_slice(&k);
    }
    o
}

pub fn encode(f: &RFrame) -> Vec<u8> {
    let mut o = header(f.fin, f.rsv, f.opcode, f.mask, f.data.len() as u64);
    match f.mask {
        Some(k) => o.extend(xor(k, &f.data)),
        None => o.extend_from_slice(&f.data),
    }
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Read {
    /// header not complete; `doomed` when the bytes so far already break a rule
    NeedHeader { doomed: bool },
    /// header complete, legal and within the limit; payload not complete
    NeedPayload,
    Frame(RFrame, usize),
    Bad(&'static str),
}

pub fn read(b: &[u8], limit: Option<u64>) -> Read {
    if b.len() < 2 {
        return Read::NeedHeader { doomed: false };
    }
    let fin = b[0] & 0x80 != 0;
    let rsv = [b[0] & 0x40 != 0, b[0] & 0x20 != 0, b[0] & 0x10 != 0];
    let opcode = b[0] & 15;
    let short = b[1] & 0x7f;
    let mut bad: Option<&'static str> = None;
    if opcode >= 8 {
        if !fin {
            bad = Some("fragmented control frame");
        }
        if short > 125 {
            bad = Some("oversized control frame");
        }
    }
    let ext = match short { 126 => 2, 127 => 8, _ => 0 };
    if b.len() < 2 + ext {
        return Read::NeedHeader { doomed: bad.is_some() };
    }
    let mut len = short as u64;
    if ext > 0 {
        len = 0;
        for x in &b[2..2 + ext] {
            len = (len << 8) | *x as u64;
        }
        if (ext == 2 && len < 126) || (ext == 8 && len < 65536) {
            bad = bad.or(Some("length not in its shortest form"));
        }
        if len >> 63 != 0 {
            bad = bad.or(Some("length with its top bit set"));
        }
    }
    if let Some(l) = limit {
        if len > l {
            bad = bad.or(Some("length above the limit"));
        }
    }
    let mut p = 2 + ext;
    let masked = b[1] & 0x80 != 0;
    let mut mask = None;
    if masked {
        if b.len() < p + 4 {
            return Read::NeedHeader { doomed: bad.is_some() };
        }
        mask = Some([b[p], b[p + 1], b[p + 2], b[p + 3]]);
        p += 4;
    }
    if let Some(w) = bad {
        return Read::Bad(w);
    }
    if ((b.len() - p) as u64) < len {
        return Read::NeedPayload;
    }
    let raw = &b[p..p + len as usize];
    let data = match mask { Some(k) => xor(k, raw), None => raw.to_vec() };
    Read::Frame(RFrame { fin, rsv, opcode, mask, data }, p + len as usize)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    Text(String),
    Binary(Vec<u8>),
    Close(Option<(u16, String)>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
}

impl Msg {
    pub fn opcode(&self) -> u8 {
        match self {
            Msg::Text(_) => 1,
            Msg::Binary(_) => 2,
            Msg::Close(_) => 8,
            Msg::Ping(_) => 9,
            Msg::Pong(_) => 10,
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            Msg::Text(s) => s.as_bytes().to_vec(),
            Msg::Binary(b) | Msg::Ping(b) | Msg::Pong(b) => b.clone(),
            Msg::Close(None) => vec![],
            Msg::Close(Some((c, r))) => {
                let mut v = c.to_be_bytes().to_vec();
                v.extend_from_slice(r.as_bytes());
                v
            }
        }
    }
}

/// What a list of frames means as one message; `Ok(None)`: either answer is acceptable.
pub fn message(frames: &[RFrame]) -> Result<Option<Msg>, &'static str> {
    let first = frames.first().ok_or("no frames")?;
    if !matches!(first.opcode, 1 | 2 | 8 | 9 | 10) {
        return Err("not a message opcode");
    }
    let mut data = vec![];
    for (i, f) in frames.iter().enumerate() {
        if i > 0 && f.opcode != 0 {
            return Err("continuation with an opcode");
        }
        if f.rsv != [false; 3] {
            return Err("reserved bit");
        }
        if f.fin != (i + 1 == frames.len()) {
            return Err("FIN not exactly on the last frame");
        }
        data.extend_from_slice(&f.data);
    }
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|_| "not UTF-8");
    let m = match first.opcode {
        1 => Msg::Text(text(&data)?),
        2 => Msg::Binary(data),
        8 if data.is_empty() => Msg::Close(None),
        8 if data.len() == 1 => return Err("one-byte close payload"),
        8 => Msg::Close(Some((((data[0] as u16) << 8) | data[1] as u16, text(&data[2..])?))),
        9 => Msg::Ping(data),
        _ => Msg::Pong(data),
    };
    if first.opcode >= 8 && (frames.len() > 1 || first.data.len() > 125) {
        return Ok(None);
    }
    Ok(Some(m))
}
