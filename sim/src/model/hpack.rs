//! Reference RFC 7541: table, strict decoder, and an encoder whose every representation choice is drawn.
use super::hpack_tables::{HUFF, STATIC};
use crate::ctx::Ctx;
use std::collections::VecDeque;
use std::sync::OnceLock;

pub type Field = (Vec<u8>, Vec<u8>);

#[derive(Clone, Debug)]
pub struct Table {
    pub entries: VecDeque<Field>,
    pub size: usize,
    pub max: usize,
    /// bound set by SETTINGS
    pub limit: usize,
}

impl Table {
    pub fn new(limit: usize) -> Table {
        Table { entries: VecDeque::new(), size: 0, max: limit, limit }
    }
    fn evict(&mut self) {
        while self.size > self.max {
            let (n, v) = self.entries.pop_back().expect("size without entries");
            self.size -= n.len() + v.len() + 32;
        }
    }
    pub fn set_max(&mut self, m: usize) {
        self.max = m;
        self.evict();
    }
    pub fn add(&mut self, n: &[u8], v: &[u8]) {
        let sz = n.len() + v.len() + 32;
        if sz > self.max {
            self.entries.clear();
            self.size = 0;
            return;
        }
        self.size += sz;
        self.entries.push_front((n.to_vec(), v.to_vec()));
        self.evict();
    }
    pub fn get(&self, i: usize) -> Option<Field> {
        if i == 0 {
            return None;
        }
        if i <= STATIC.len() {
            let (n, v) = STATIC[i - 1];
            return Some((n.as_bytes().to_vec(), v.as_bytes().to_vec()));
        }
        self.entries.get(i - 1 - STATIC.len()).cloned()
    }
    pub fn count(&self) -> usize {
        STATIC.len() + self.entries.len()
    }
}

// ------------------------------------------------------------------ Huffman

fn tree() -> &'static Vec<[i32; 2]> {
    static T: OnceLock<Vec<[i32; 2]>> = OnceLock::new();
    T.get_or_init(|| {
        // node = [left, right]; value < 0 is leaf -(sym+1); 0 is unset
        let mut t: Vec<[i32; 2]> = vec![[0, 0]];
        let mut put = |code: u32, len: u8, sym: i32| {
            let mut n = 0usize;
            for i in (0..len).rev() {
                let b = ((code >> i) & 1) as usize;
                if i == 0 {
                    t[n][b] = -(sym + 1);
                } else {
                    if t[n][b] == 0 {
                        t.push([0, 0]);
                        t[n][b] = (t.len() - 1) as i32;
                    }
                    n = t[n][b] as usize;
                }
            }
        };
        for (s, (c, l)) in HUFF.iter().enumerate() {
            put(*c, *l, s as i32);
        }
        put(0x3fffffff, 30, 256);
        t
    })
}

pub fn huff_encode(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut acc: u64 = 0;
    let mut n = 0u32;
    for b in s {
        let (c, l) = HUFF[*b as usize];
        acc = (acc << l) | c as u64;
        n += l as u32;
        while n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
        acc &= (1u64 << n) - 1;
    }
    if n > 0 {
        let pad = 8 - n;
        out.push(((acc << pad) | ((1u64 << pad) - 1)) as u8);
    }
    out
}

pub fn huff_decode(s: &[u8]) -> Result<Vec<u8>, Bad> {
    let t = tree();
    let mut out = vec![];
    let mut n = 0usize;
    let mut depth = 0;
    let mut ones = true;
    for b in s {
        for i in (0..8).rev() {
            let bit = ((b >> i) & 1) as usize;
            depth += 1;
            if bit == 0 {
                ones = false;
            }
            let nx = t[n][bit];
            if nx < 0 {
                let sym = -nx - 1;
                if sym == 256 {
                    return Err(Bad::Must("EOS in Huffman string"));
                }
                out.push(sym as u8);
                n = 0;
                depth = 0;
                ones = true;
            } else {
                n = nx as usize;
            }
        }
    }
    if depth > 7 {
        return Err(Bad::Must("Huffman padding longer than 7 bits"));
    }
    if !ones {
        return Err(Bad::Must("Huffman padding is not EOS bits"));
    }
    Ok(out)
}

// ------------------------------------------------------------------ decoder

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// every conforming decoder must reject
    Must(&'static str),
    /// a decoder may reject (implementation limits, octets HTTP/2 forbids)
    May(&'static str),
}

/// Sets `may` when the encoding is longer than any 32-bit value needs (a decoder may refuse it).
fn int(b: &[u8], p: &mut usize, bits: u32, may: &mut Option<&'static str>) -> Result<u64, Bad> {
    let at = *p;
    let v = int0(b, p, bits)?;
    if *p - at > 6 || v > u32::MAX as u64 {
        *may = Some("over-long integer");
    }
    Ok(v)
}

fn int0(b: &[u8], p: &mut usize, bits: u32) -> Result<u64, Bad> {
    let mask = (1u64 << bits) - 1;
    let first = *b.get(*p).ok_or(Bad::Must("truncated integer"))?;
    *p += 1;
    let mut v = first as u64 & mask;
    if v < mask {
        return Ok(v);
    }
    let mut m = 0;
    loop {
        let x = *b.get(*p).ok_or(Bad::Must("truncated integer"))?;
        *p += 1;
        if m >= 63 {
            return Err(Bad::Must("integer overflow"));
        }
        v = match ((x & 127) as u64).checked_shl(m).filter(|s| (s >> m) == (x & 127) as u64).and_then(|s| v.checked_add(s)) {
            Some(v) => v,
            None => return Err(Bad::Must("integer overflow")),
        };
        m += 7;
        if x & 128 == 0 {
            return Ok(v);
        }
    }
}

fn string(b: &[u8], p: &mut usize, may: &mut Option<&'static str>) -> Result<Vec<u8>, Bad> {
    let h = *b.get(*p).ok_or(Bad::Must("truncated string"))? & 128 != 0;
    let l = int(b, p, 7, may)?;
    if l > (b.len() - *p) as u64 {
        return Err(Bad::Must("string longer than the block"));
    }
    let raw = &b[*p..*p + l as usize];
    *p += l as usize;
    if h { huff_decode(raw) } else { Ok(raw.to_vec()) }
}

#[derive(Clone, Debug)]
pub struct Decoder {
    pub table: Table,
    /// a reduction of the limit that the peer has yet to acknowledge with a size update
    pub must_update: bool,
}

impl Decoder {
    pub fn new(limit: usize) -> Decoder {
        Decoder { table: Table::new(limit), must_update: false }
    }
    /// The SETTINGS value changed (and was acknowledged).
    pub fn set_limit(&mut self, limit: usize) {
        self.table.limit = limit;
        if limit < self.table.max {
            self.must_update = true;
            self.table.set_max(limit);
        }
    }
    pub fn decode(&mut self, b: &[u8]) -> Result<Vec<Field>, Bad> {
        let mut out = vec![];
        let mut p = 0;
        let mut may: Option<&'static str> = None;
        while p < b.len() {
            let o = b[p];
            if o & 0xe0 != 0x20 && self.must_update {
                may = Some("limit was lowered but the block starts without a size update");
            }
            if o & 0x80 != 0 {
                let i = int(b, &mut p, 7, &mut may)?;
                if i > usize::MAX as u64 {
                    return Err(Bad::Must("index"));
                }
                out.push(self.table.get(i as usize).ok_or(Bad::Must("index outside the tables"))?);
            } else if o & 0xe0 == 0x20 {
                let n = int(b, &mut p, 5, &mut may)?;
                if n > self.table.limit as u64 {
                    return Err(Bad::Must("size update above the limit"));
                }
                if !out.is_empty() {
                    may = Some("size update inside a block");
                }
                self.table.set_max(n as usize);
                self.must_update = false;
            } else {
                let inc = o & 0x40 != 0;
                let i = int(b, &mut p, if inc { 6 } else { 4 }, &mut may)?;
                let name = if i == 0 { string(b, &mut p, &mut may)? } else { self.table.get(i as usize).ok_or(Bad::Must("index outside the tables"))?.0 };
                if i == 0 && std::str::from_utf8(&name).is_err() {
                    may = Some("name is not text");
                }
                let val = string(b, &mut p, &mut may)?;
                if inc {
                    self.table.add(&name, &val);
                }
                out.push((name, val));
            }
        }
        match may {
            Some(w) => Err(Bad::May(w)),
            None => Ok(out),
        }
    }
}

// ------------------------------------------------------------------ encoder

pub fn put_int(o: &mut Vec<u8>, mut v: u64, bits: u32, lead: u8) {
    let mask = (1u64 << bits) - 1;
    if v < mask {
        o.push(lead | v as u8);
        return;
    }
    o.push(lead | mask as u8);
    v -= mask;
    while v >= 128 {
        o.push((v % 128) as u8 | 128);
        v /= 128;
    }
    o.push(v as u8);
}

pub fn put_string(cx: &mut Ctx, o: &mut Vec<u8>, s: &[u8]) {
    if cx.ch.chance(1, 2) {
        let h = huff_encode(s);
        put_int(o, h.len() as u64, 7, 0x80);
        o.extend(h);
    } else {
        put_int(o, s.len() as u64, 7, 0);
        o.extend_from_slice(s);
    }
}

#[derive(Clone, Debug)]
pub struct Encoder {
    pub table: Table,
    pub pending: Vec<usize>,
}

impl Encoder {
    pub fn new(limit: usize) -> Encoder {
        Encoder { table: Table::new(limit), pending: vec![] }
    }
    /// The peer's SETTINGS changed: a conforming encoder announces what it will use.
    pub fn set_limit(&mut self, cx: &mut Ctx, limit: usize) {
        let queued = std::mem::take(&mut self.pending);
        let low = limit.min(self.table.max).min(queued.iter().copied().min().unwrap_or(usize::MAX));
        self.table.limit = limit;
        if low < self.table.max || !queued.is_empty() {
            self.pending.push(low);
            self.table.set_max(low);
        }
        if limit > low || cx.ch.chance(1, 3) {
            self.pending.push(limit);
            self.table.set_max(limit);
        }
    }
    pub fn update(&mut self, size: usize) {
        self.pending.push(size);
        self.table.set_max(size);
    }
    pub fn encode(&mut self, cx: &mut Ctx, list: &[Field]) -> Vec<u8> {
        let mut o = vec![];
        for s in std::mem::take(&mut self.pending) {
            put_int(&mut o, s as u64, 5, 0x20);
            cx.probe("size_update_sent");
        }
        for (n, v) in list {
            let full: Vec<usize> = (1..=self.table.count()).filter(|i| self.table.get(*i).map_or(false, |f| f.0 == *n && f.1 == *v)).collect();
            if !full.is_empty() && cx.ch.chance(3, 4) {
                let i = cx.ch.pick(&full);
                if i >= 127 {
                    cx.probe("multi_octet_index");
                }
                put_int(&mut o, i as u64, 7, 0x80);
                continue;
            }
            let names: Vec<usize> = (1..=self.table.count()).filter(|i| self.table.get(*i).map_or(false, |f| f.0 == *n)).collect();
            let idx = if !names.is_empty() && cx.ch.chance(3, 4) { cx.ch.pick(&names) } else { 0 };
            let kind = cx.ch.below(4);
            match kind {
                0 | 1 => put_int(&mut o, idx as u64, 6, 0x40),
                2 => put_int(&mut o, idx as u64, 4, 0x00),
                _ => put_int(&mut o, idx as u64, 4, 0x10),
            }
            if idx == 0 {
                put_string(cx, &mut o, n);
            }
            put_string(cx, &mut o, v);
            if kind < 2 {
                if n.len() + v.len() + 32 > self.table.max {
                    cx.probe("entry_larger_than_table");
                }
                self.table.add(n, v);
            }
        }
        o
    }
}

// ------------------------------------------------------------------ header lists

const NAMES: [&str; 24] = [
    ":method", ":path", ":status", ":authority", ":scheme", "accept", "accept-encoding", "accept-charset", "cookie", "x-a", "content-type", "user-agent", "a", "b", "c", "set-cookie", "www-authenticate",
    "x-very-long-header-name-used-to-fill-the-table-quickly", "age", "via", "etag", "te", "x-request-id", "accept-ranges",
];
pub const STD: [&str; 40] = [
    "accept-language", "access-control-allow-origin", "allow", "authorization", "cache-control", "connection", "content-disposition", "content-encoding", "content-language", "content-length", "content-location",
    "content-range", "date", "dnt", "expect", "expires", "forwarded", "from", "host", "if-match", "if-modified-since", "if-none-match", "if-range", "if-unmodified-since", "last-modified", "link", "location",
    "max-forwards", "origin", "proxy-authenticate", "proxy-authorization", "range", "referer", "refresh", "retry-after", "server", "strict-transport-security", "transfer-encoding", "vary", "x-xss-protection",
];
const VALUES: [&str; 16] = ["", "GET", "POST", "PUT", "/", "/index.html", "200", "404", "http", "https", "gzip, deflate", "1", "www.example.com", "v", "no-cache", "text/html; charset=utf-8"];

pub fn gen_name(cx: &mut Ctx) -> Vec<u8> {
    match cx.ch.below(8) {
        0..=4 => cx.ch.pick(&NAMES).as_bytes().to_vec(),
        5 if cx.ch.chance(1, 2) => cx.ch.pick(&crate::model::http1::REGISTERED).as_bytes().to_vec(),
        5 => cx.ch.pick(&STD).as_bytes().to_vec(),
        6 => format!("n{}", cx.ch.below(200)).into_bytes(),
        _ => {
            let n = if cx.ch.chance(1, 8) { 60 + cx.ch.below(240) as usize } else { 1 + cx.ch.skew(30) as usize };
            (0..n).map(|_| cx.ch.pick(b"abz019-_.!#$%&'*+^`|~")).collect()
        }
    }
}

pub fn gen_value(cx: &mut Ctx) -> Vec<u8> {
    match cx.ch.below(8) {
        0..=3 => cx.ch.pick(&VALUES).as_bytes().to_vec(),
        4 => format!("{}", cx.ch.below(300)).into_bytes(),
        5 => {
            let n = cx.ch.skew(40) as usize;
            (0..n).map(|_| cx.ch.below(256) as u8).collect()
        }
        6 => {
            let n = cx.ch.skew(60) as usize;
            (0..n).map(|_| 0x20 + cx.ch.below(0x5f) as u8).collect()
        }
        _ => {
            let n = cx.ch.skew(600) as usize;
            let b = cx.ch.below(256) as u8;
            vec![b; n]
        }
    }
}

pub fn gen_list(cx: &mut Ctx, max: u64) -> Vec<Field> {
    let n = cx.ch.skew(max) as usize;
    (0..n)
        .map(|_| {
            let n = gen_name(cx);
            let v = gen_value(cx);
            (n, v)
        })
        .collect()
}

pub fn show_list(l: &[Field]) -> String {
    l.iter().map(|(n, v)| format!("{}={}", String::from_utf8_lossy(n), crate::ctx::show(v))).collect::<Vec<_>>().join("; ").chars().take(1500).collect()
}
