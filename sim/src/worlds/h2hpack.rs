//! HPACK worlds: C06 (library to library), C07 (reference peer to library), C08 (hostile blocks).
use crate::alloc;
use crate::buf::{SimBuf, SimSink};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use crate::model::hpack::{self as hp, Bad, Field};
use crate::net::{corrupt, Link, Queue};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::encoder::Encoder;
use webparse::http2::{Decoder, HeaderIndex};
use webparse::{HeaderName, HeaderValue, WebError};

pub type Index = Arc<RwLock<HeaderIndex>>;

pub fn new_index(cx: &mut Ctx, limit: Option<usize>) -> Index {
    let mut i = HeaderIndex::new();
    if let Some(l) = limit {
        i.set_max_table_size(l);
        cx.probe("non_default_limit");
    }
    Arc::new(RwLock::new(i))
}

pub fn gen_limit(cx: &mut Ctx) -> usize {
    if cx.ch.chance(1, 25) {
        cx.probe("large_limit");
        return cx.ch.pick(&[65_535usize, 65_536, 65_537, 100_000, 1 << 20, (1 << 21) + 30, 1 << 24, 1 << 28, u32::MAX as usize]);
    }
    match cx.ch.below(6) {
        0 => 4096,
        1 => 0,
        2 => 32 + cx.ch.below(80) as usize,
        3 => cx.ch.below(400) as usize,
        4 => cx.ch.skew(20_000) as usize,
        _ => 16_384,
    }
}

/// Decodes one block through a drawn buffer type and entry point.
pub fn lib_decode(cx: &mut Ctx, d: &mut Decoder, block: &[u8]) -> Res<Result<Vec<Field>, WebError>> {
    cx.cov.lib_calls += 1;
    let cb = cx.ch.chance(1, 3);
    macro_rules! go {
        ($b:expr) => {{
            let r = if cb {
                let mut v = vec![];
                d.decode_with_cb(&mut $b, |n, x| v.push((n.into_owned(), x.into_owned()))).map(|_| v)
            } else {
                d.decode(&mut $b)
            };
            (r, $b.remaining())
        }};
    }
    let (r, left) = match cx.ch.below(5) {
        0 => {
            let mut b = Binary::from(block.to_vec());
            go!(b)
        }
        1 => {
            let mut b = SimBuf::new(block);
            go!(b)
        }
        2 => {
            let mut b = BinaryRef::from(block);
            go!(b)
        }
        3 => {
            let mut v = b"\x82\x86".to_vec();
            v.extend_from_slice(block);
            let mut b = BinaryMut::from(v);
            b.advance(2);
            go!(b)
        }
        _ => {
            let mut b: &[u8] = block;
            go!(b)
        }
    };
    if r.is_ok() && left != 0 {
        return viol("block-not-consumed", format!("decoded {} but left {} octets", show(block), left));
    }
    Ok(r.map(|l| l.into_iter().map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()))
}

fn lower(l: &[Field]) -> Vec<Field> {
    l.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect()
}

pub fn table_of(i: &Index) -> (Vec<Field>, usize, usize, usize) {
    let t = i.read().unwrap();
    (t.to_vec().iter().map(|(n, v)| (n.as_bytes().to_ascii_lowercase(), v.as_bytes().to_vec())).collect(), t.len(), t.get_size(), t.get_max_table_size())
}

/// Compares a library table with the prescribed contents.
pub fn check_table(what: &'static str, i: &Index, want: &[Field], max: usize) -> Res {
    let (e, len, size, m) = table_of(i);
    let real: usize = e.iter().map(|(n, v)| n.len() + v.len() + 32).sum();
    ensure!(len == e.len() && size == real, "table-accounting", "{} table has {} entries of {} octets but reports len {} size {}", what, e.len(), real, len, size);
    ensure!(size <= m, "table-over-limit", "{} table holds {} octets with maximum {}", what, size, m);
    ensure!(m == max, "table-limit", "{} table maximum is {}, agreed {}", what, m, max);
    ensure!(e == lower(want), "table-contents", "{} table is [{}], prescribed [{}]", what, hp::show_list(&e), hp::show_list(want));
    Ok(())
}

/// The table answers by number and by field, and integers are written as prescribed.
fn lookups(cx: &mut Ctx, i: &Index, rf: &hp::Table) -> Res {
    if !cx.ch.chance(1, 6) {
        return Ok(());
    }
    cx.cov.lib_calls += 1;
    let i = i.read().unwrap();
    let n = rf.count();
    let mut at = vec![0, 1, 61, 62, n, n + 1, n + 2, usize::MAX];
    for _ in 0..4 {
        at.push(cx.ch.below(n as u64 + 2) as usize);
    }
    for k in at {
        let got = i.get_from_index(k).map(|(n, v)| (n.as_bytes().to_ascii_lowercase(), v.as_bytes().to_vec()));
        ensure!(got == if k == 0 { None } else { rf.get(k) }, "lookup-by-number", "entry {} is {:?}, prescribed {:?}", k, got.map(|f| hp::show_list(&[f])), rf.get(k).map(|f| hp::show_list(&[f])));
    }
    for _ in 0..4 {
        let (name, value) = match cx.ch.below(4) {
            0 => (hp::gen_name(cx), hp::gen_value(cx)),
            k => {
                let mut f = rf.get(1 + cx.ch.below(n as u64) as usize).unwrap_or_default();
                if k == 1 {
                    f.1 = hp::gen_value(cx);
                }
                f
            }
        };
        let (ln, lv) = (lib_name(cx, &name), HeaderValue::from_bytes(&value));
        match i.find_header((&ln, &lv)) {
            Some((k, whole)) => {
                let e = rf.get(k);
                ensure!(e.as_ref().map_or(false, |e| e.0 == name.to_ascii_lowercase() && (!whole || e.1 == value)), "lookup-by-field", "{} {} found at {} which holds {:?}", hp::show_list(&[(name, value)]), whole, k, e.map(|f| hp::show_list(&[f])));
            }
            None => {}
        }
    }
    let bits = 1 + cx.ch.below(8) as u8;
    let lead = cx.ch.below(256) as u8;
    let v = match cx.ch.below(4) {
        0 => cx.ch.below(1 << bits) as usize,
        1 => ((1usize << bits) + cx.ch.below(300) as usize).saturating_sub(2),
        2 => cx.ch.skew(1 << 32) as usize,
        _ => (1usize << cx.ch.below(32)) + cx.ch.below(3) as usize,
    };
    let mut b = BinaryMut::new();
    Encoder::encode_integer_into(v, bits, lead, &mut b).map_err(|e| crate::ctx::Violation { class: "integer".into(), detail: format!("{:?}", e) })?;
    let b = b.chunk().to_vec();
    let mask = ((1u32 << bits) - 1) as u8;
    let mut back = (b[0] & mask) as u128;
    let mut end = 1;
    if b[0] & mask == mask {
        let mut m = 0;
        loop {
            ensure!(end < b.len() && m < 70, "integer", "{} in {} bits is written {}", v, bits, show(&b));
            back += ((b[end] & 127) as u128) << m;
            m += 7;
            end += 1;
            if b[end - 1] & 128 == 0 {
                break;
            }
        }
    }
    ensure!(back == v as u128 && end == b.len() && b[0] & !mask == lead & !mask, "integer", "{} in {} bits after {:02x} is written {}", v, bits, lead, show(&b));
    Ok(())
}

pub fn lib_name(cx: &mut Ctx, n: &[u8]) -> HeaderName {
    let mut b = n.to_vec();
    if cx.ch.chance(1, 6) {
        for c in b.iter_mut() {
            if cx.ch.chance(1, 2) {
                *c = c.to_ascii_uppercase();
            }
        }
    }
    HeaderName::from_bytes(&b).expect("ASCII name")
}

pub fn lib_list(cx: &mut Ctx, l: &[Field]) -> Vec<(HeaderName, HeaderValue)> {
    l.iter().map(|(n, v)| (lib_name(cx, n), HeaderValue::from_bytes(v))).collect()
}

/// Encodes one list with a drawn entry point and sink, returning the block.
pub fn lib_encode(cx: &mut Ctx, e: &mut Encoder, l: &[(HeaderName, HeaderValue)]) -> Res<Vec<u8>> {
    cx.cov.lib_calls += 1;
    let it = l.iter().map(|(n, v)| (n, v));
    Ok(match cx.ch.below(4) {
        0 => e.encode(it).chunk().to_vec(),
        1 => {
            let mut b = BinaryMut::from(b"kept".to_vec());
            if let Err(x) = e.encode_into(it, &mut b) {
                return viol("encode-error", format!("{:?}", x));
            }
            ensure!(b.chunk().starts_with(b"kept"), "sink-damaged", "{}", show(b.chunk()));
            b.chunk()[4..].to_vec()
        }
        2 => {
            let w = 1 + cx.ch.below(9) as usize;
            let mut b = SimSink::new(b"old", w);
            if let Err(x) = e.encode_into(it, &mut b) {
                return viol("encode-error", format!("{:?}", x));
            }
            ensure!(b.written().starts_with(b"old"), "sink-damaged", "{}", show(b.written()));
            b.written()[3..].to_vec()
        }
        _ => {
            let mut b = BinaryMut::new();
            for (n, v) in l {
                if let Err(x) = e.encode_header_into((n, v), &mut b) {
                    return viol("encode-error", format!("{:?}", x));
                }
            }
            b.chunk().to_vec()
        }
    })
}

// ------------------------------------------------------------------ C06

enum Item {
    Block { list: Vec<Field>, bytes: Vec<u8>, enc_table: Vec<Field> },
    Ack(usize),
}

enum Ev {
    Send(usize),
    Arrive(usize),
    Settings(usize, usize),
    Reset(usize),
}

struct Conn {
    enc: Index,
    dec: Index,
    encs: Vec<Encoder>,
    decs: Vec<Decoder>,
    rf: hp::Decoder,
    /// a second independent reader, whose table shrinks only when the wire tells it to
    lazy: hp::Decoder,
    link: Link,
    wire: std::collections::VecDeque<Item>,
    epoch_skip: usize,
    left: u64,
    broken: bool,
}

fn fresh(cx: &mut Ctx, left: u64, huge: bool) -> Conn {
    let limit = if huge { Some(1 << 20) } else if cx.ch.chance(1, 2) { None } else { Some(gen_limit(cx)) };
    let enc = new_index(cx, limit);
    let dec = new_index(cx, limit);
    let ne = 1 + cx.ch.below(3) as usize;
    let nd = 1 + cx.ch.below(2) as usize;
    let frame = cx.ch.pick(&[16_384usize, 100, 9, 1 << 20]);
    Conn {
        encs: (0..ne).map(|_| Encoder::new_index(enc.clone(), frame)).collect(),
        decs: (0..nd).map(|_| Decoder::new_index(dec.clone())).collect(),
        rf: hp::Decoder::new(limit.unwrap_or(4096)),
        lazy: hp::Decoder { table: hp::Table { limit: limit.unwrap_or(4096), ..hp::Table::new(4096) }, must_update: false },
        enc,
        dec,
        link: Link::new(cx),
        wire: Default::default(),
        epoch_skip: 0,
        left,
        broken: false,
    }
}

/// Thousands of different fields, so that tables hold thousands of entries.
fn grow(cx: &mut Ctx, pool: &mut Vec<Field>, huge: bool) {
    if huge {
        cx.probe("thousands_of_entries");
        pool.extend((0..3000).map(|i| (format!("k{}", i).into_bytes(), format!("{}", i * 7).into_bytes())));
    }
}

/// Now and then a value is very long.
fn lengthen(cx: &mut Ctx, list: &mut Vec<Field>) {
    if !list.is_empty() && cx.ch.chance(1, 300) {
        let i = cx.ch.below(list.len() as u64) as usize;
        list[i].1 = crate::model::http1::bulk(cx).into_bytes();
    }
}

pub fn c06_sync(cx: &mut Ctx) -> Res {
    let nconn = 1 + cx.ch.below(3) as usize;
    let longlived = cx.ch.chance(1, 12);
    let many = cx.ch.chance(1, 6);
    let huge = cx.ch.chance(1, 300);
    let settings = cx.ch.chance(1, 2);
    let mut q: Queue<Ev> = Queue::new();
    let mut cs: Vec<Conn> = vec![];
    for c in 0..nconn {
        let n = if longlived { 20 + cx.ch.below(60) } else { 1 + cx.ch.below(8) };
        cs.push(fresh(cx, n, huge));
        q.push(cx, 0, Ev::Send(c));
        if settings {
            for _ in 0..=cx.ch.below(3) {
                let at = cx.ch.below(400);
                let l = gen_limit(cx);
                q.push(cx, at, Ev::Settings(c, l));
            }
        }
        if cx.ch.chance(1, 6) {
            let at = cx.ch.below(300);
            q.push(cx, at, Ev::Reset(c));
        }
    }
    // a small pool of fields makes repeats, and thus indexed fields, common
    let mut pool = hp::gen_list(cx, if many { 200 } else { 12 });
    grow(cx, &mut pool, huge);
    while let Some(ev) = q.pop(cx) {
        match ev {
            Ev::Send(c) => {
                if cs[c].left == 0 {
                    continue;
                }
                cs[c].left -= 1;
                let n = cx.ch.skew(if huge { 1500 } else if many { 120 } else { 10 }) as usize;
                let mut list: Vec<Field> = vec![];
                for _ in 0..n {
                    if !pool.is_empty() && cx.ch.chance(3, 4) {
                        let i = cx.ch.below(pool.len() as u64) as usize;
                        list.push(pool[i].clone());
                    } else {
                        let n = hp::gen_name(cx);
                        let v = hp::gen_value(cx);
                        list.push((n, v));
                    }
                }
                lengthen(cx, &mut list);
                let h = lib_list(cx, &list);
                let e = cx.ch.below(cs[c].encs.len() as u64) as usize;
                cx.ev("send", &[c as u64, e as u64, list.len() as u64]);
                let bytes = lib_encode(cx, &mut cs[c].encs[e], &h)?;
                cx.bytes_ev("block", &bytes);
                let enc_table = table_of(&cs[c].enc).0;
                if enc_table.len() > 66 {
                    cx.probe("table_beyond_one_octet_index");
                }
                cs[c].wire.push_back(Item::Block { list: lower(&list), bytes, enc_table });
                let at = cs[c].link.arrival(cx);
                q.push(cx, at, Ev::Arrive(c));
                let gap = cx.ch.below(60);
                let at = cx.now + gap;
                q.push(cx, at, Ev::Send(c));
            }
            Ev::Settings(c, l) => {
                // the peer's SETTINGS reach the encoder; the acknowledgement travels in order with the blocks
                cx.fault("limit_change");
                cx.ev("settings", &[c as u64, l as u64]);
                cs[c].enc.write().unwrap().set_max_table_size(l);
                cs[c].wire.push_back(Item::Ack(l));
                let at = cs[c].link.arrival(cx);
                q.push(cx, at, Ev::Arrive(c));
            }
            Ev::Reset(c) => {
                cx.fault("connection_reset");
                cx.ev("reset", &[c as u64]);
                let skip = cs[c].wire.len() + cs[c].epoch_skip;
                let left = cs[c].left + 1;
                cs[c] = fresh(cx, left, huge);
                cs[c].epoch_skip = skip;
                let at = cx.now + 1;
                q.push(cx, at, Ev::Send(c));
            }
            Ev::Arrive(c) => {
                if cs[c].epoch_skip > 0 {
                    // in flight when the connection was reset
                    cs[c].epoch_skip -= 1;
                    continue;
                }
                let conn = &mut cs[c];
                match conn.wire.pop_front() {
                    None => {}
                    Some(Item::Ack(l)) => {
                        conn.dec.write().unwrap().set_max_table_size(l);
                        conn.rf.set_limit(l);
                        conn.lazy.table.limit = l;
                    }
                    Some(Item::Block { list, bytes, enc_table }) => {
                        if conn.broken {
                            continue;
                        }
                        cx.cov.deliveries += 1;
                        let d = cx.ch.below(conn.decs.len() as u64) as usize;
                        cx.ev("decode", &[c as u64, d as u64, bytes.len() as u64]);
                        let got = match lib_decode(cx, &mut conn.decs[d], &bytes)? {
                            Ok(g) => g,
                            Err(e) => return viol("decode-error", format!("{:?} decoding {} which encodes {}", e, show(&bytes), hp::show_list(&list))),
                        };
                        ensure!(got == list, "list-differs", "encoded {} decoded {} from {}", hp::show_list(&list), hp::show_list(&got), show(&bytes));
                        // an independent reader of the wire
                        let r = conn.rf.decode(&bytes);
                        match r {
                            Ok(l) => ensure!(lower(&l) == list, "wire-not-rfc7541", "independent reader gets {} from {}, sent {}", hp::show_list(&l), show(&bytes), hp::show_list(&list)),
                            Err(e) => return viol("wire-not-rfc7541", format!("independent reader: {:?} for {}", e, show(&bytes))),
                        }
                        match conn.lazy.decode(&bytes) {
                            Ok(l) => ensure!(lower(&l) == list, "wire-not-rfc7541", "a reader that shrinks its table when told to gets {} from {}, sent {}", hp::show_list(&l), show(&bytes), hp::show_list(&list)),
                            Err(e) => return viol("wire-not-rfc7541", format!("a reader that shrinks its table when told to: {:?} for {}", e, show(&bytes))),
                        }
                        if !list.is_empty() {
                            ensure!(conn.lazy.table.entries == conn.rf.table.entries && conn.lazy.table.max == conn.rf.table.max, "limit-not-announced", "a reader that shrinks its table when told to holds {} octets of {}, prescribed {} of {}", conn.lazy.table.size, conn.lazy.table.max, conn.rf.table.size, conn.rf.table.max);
                        }
                        let (dt, _, dsize, dmax) = table_of(&conn.dec);
                        ensure!(dt == enc_table, "tables-differ", "encoder [{}] decoder [{}]", hp::show_list(&enc_table), hp::show_list(&dt));
                        ensure!(dsize <= dmax, "table-over-limit", "{} > {}", dsize, dmax);
                        if !list.is_empty() {
                            let want: Vec<Field> = conn.rf.table.entries.iter().cloned().collect();
                            check_table("decoder", &conn.dec, &want, conn.rf.table.max)?;
                            lookups(cx, &conn.dec, &conn.rf.table)?;
                        }
                        cx.message();
                    }
                }
            }
        }
    }
    for (c, conn) in cs.iter().enumerate() {
        ensure!(conn.wire.is_empty() && conn.left == 0, "not-delivered", "connection {}", c);
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

pub fn c07_rfc_peer(cx: &mut Ctx) -> Res {
    let nconn = 1 + cx.ch.below(2) as usize;
    let many = cx.ch.chance(1, 6);
    let huge = cx.ch.chance(1, 300);
    let mut pool = hp::gen_list(cx, if many { 250 } else { 12 });
    grow(cx, &mut pool, huge);
    struct C {
        enc: hp::Encoder,
        rf: hp::Decoder,
        idx: Index,
        decs: Vec<Decoder>,
    }
    let mut cs = vec![];
    for _ in 0..nconn {
        let limit = if huge { Some(1 << 20) } else if cx.ch.chance(1, 2) { None } else { Some(gen_limit(cx)) };
        let idx = new_index(cx, limit);
        let l = limit.unwrap_or(4096);
        let mut enc = hp::Encoder::new(4096);
        let mut rf = hp::Decoder::new(4096);
        if limit.is_some() {
            enc.set_limit(cx, l);
            rf.set_limit(l);
            // a raised limit is always announced
        }
        cs.push(C { enc, rf, decs: (0..2).map(|_| Decoder::new_index(idx.clone())).collect(), idx });
    }
    let top = if cx.ch.chance(1, 10) { 60 } else { 10 };
    let blocks = 1 + cx.ch.below(top);
    for _ in 0..blocks {
        let c = cx.ch.below(nconn as u64) as usize;
        let c = &mut cs[c];
        if cx.ch.chance(1, 10) {
            let l = gen_limit(cx);
            cx.fault("limit_change");
            cx.ev("limit", &[l as u64]);
            c.enc.set_limit(cx, l);
            c.rf.set_limit(l);
            c.idx.write().unwrap().set_max_table_size(l);
        }
        if cx.ch.chance(1, 8) {
            let n = 1 + cx.ch.below(3);
            for _ in 0..n {
                let s = match cx.ch.below(3) {
                    0 => 0,
                    1 => c.enc.table.limit as u64,
                    _ => cx.ch.below(c.enc.table.limit as u64 + 1),
                };
                cx.fault("size_update");
                c.enc.update(s as usize);
            }
        }
        let n = cx.ch.skew(if huge { 1500 } else if many { 120 } else { 10 }) as usize;
        let mut list: Vec<Field> = vec![];
        for _ in 0..n {
            if !pool.is_empty() && cx.ch.chance(2, 3) {
                let i = cx.ch.below(pool.len() as u64) as usize;
                let mut f = pool[i].clone();
                if cx.ch.chance(1, 5) {
                    f.1 = hp::gen_value(cx);
                }
                list.push(f);
            } else {
                let n = hp::gen_name(cx);
                let v = hp::gen_value(cx);
                list.push((n, v));
            }
        }
        lengthen(cx, &mut list);
        let block = c.enc.encode(cx, &list);
        cx.ev("block", &[list.len() as u64, block.len() as u64]);
        cx.bytes_ev("wire", &block);
        match c.rf.decode(&block) {
            Ok(l) if l == list => {}
            o => panic!("harness: reference codec disagrees with itself: {:?}", o.map(|l| hp::show_list(&l))),
        }
        let d = cx.ch.below(2) as usize;
        cx.cov.deliveries += 1;
        let got = match lib_decode(cx, &mut c.decs[d], &block)? {
            Ok(g) => g,
            Err(e) => return viol("decode-error", format!("{:?} for the legal block {} of {}", e, show(&block), hp::show_list(&list))),
        };
        ensure!(got == list, "list-differs", "sent {} decoded {} from {}", hp::show_list(&list), hp::show_list(&got), show(&block));
        let want: Vec<Field> = c.rf.table.entries.iter().cloned().collect();
        if want.len() > 66 {
            cx.probe("table_beyond_one_octet_index");
        }
        if c.enc.pending.is_empty() {
            check_table("decoder", &c.idx, &want, c.rf.table.max)?;
            lookups(cx, &c.idx, &c.rf.table)?;
        }
        cx.message();
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

fn fabricate(cx: &mut Ctx, entries: usize, limit: usize) -> Vec<u8> {
    let mut o = vec![];
    let n = 1 + cx.ch.skew(12);
    let bigint = |cx: &mut Ctx| -> u64 {
        match cx.ch.below(7) {
            0 => 62,
            1 => 61 + entries as u64 + cx.ch.below(3),
            2 => 126 + cx.ch.below(4),
            3 => cx.ch.skew(u64::MAX),
            4 => (1 << 32) - 2 + cx.ch.below(4),
            5 => 1 << cx.ch.below(64),
            _ => cx.ch.below(70),
        }
    };
    for _ in 0..n {
        match cx.ch.below(9) {
            0 => {
                let i = bigint(cx);
                hp::put_int(&mut o, i, 7, 0x80);
            }
            1 => {
                let s = match cx.ch.below(3) {
                    0 => (limit as u64).saturating_add(cx.ch.below(3)).saturating_sub(1),
                    1 => cx.ch.below(limit as u64 + 1),
                    _ => bigint(cx),
                };
                hp::put_int(&mut o, s, 5, 0x20);
            }
            2 | 3 | 4 => {
                let (bits, lead) = cx.ch.pick(&[(6u32, 0x40u8), (4, 0), (4, 0x10)]);
                let i = if cx.ch.chance(1, 2) { 0 } else if cx.ch.chance(1, 2) { cx.ch.below(62 + entries as u64) } else { bigint(cx) };
                hp::put_int(&mut o, i, bits, lead);
                for _ in 0..if i == 0 { 2 } else { 1 } {
                    match cx.ch.below(6) {
                        0 => {
                            // declared longer than what follows
                            let l = bigint(cx);
                            hp::put_int(&mut o, l, 7, if cx.ch.chance(1, 2) { 0x80 } else { 0 });
                        }
                        1 => {
                            // arbitrary octets as Huffman
                            let l = cx.ch.below(12);
                            hp::put_int(&mut o, l, 7, 0x80);
                            for _ in 0..l {
                                o.push(if cx.ch.chance(1, 3) { 0xff } else { cx.ch.below(256) as u8 });
                            }
                        }
                        2 => {
                            // over-padded
                            let v = hp::gen_value(cx);
                            let mut h = hp::huff_encode(&v);
                            let extra = cx.ch.below(5) as usize;
                            h.extend(std::iter::repeat(0xff).take(extra));
                            hp::put_int(&mut o, h.len() as u64, 7, 0x80);
                            o.extend(h);
                        }
                        3 => {
                            // a padding bit cleared
                            let v = hp::gen_value(cx);
                            let mut h = hp::huff_encode(&v);
                            if let Some(x) = h.last_mut() {
                                *x &= !(1 << cx.ch.below(3));
                            }
                            hp::put_int(&mut o, h.len() as u64, 7, 0x80);
                            o.extend(h);
                        }
                        4 => {
                            let v = if cx.ch.chance(1, 2) { hp::gen_name(cx) } else { hp::gen_value(cx) };
                            hp::put_string(cx, &mut o, &v);
                        }
                        _ => {
                            let v = hp::gen_name(cx);
                            hp::put_string(cx, &mut o, &v);
                        }
                    }
                }
            }
            5 => {
                // an integer that never ends
                let l = cx.ch.below(14) as usize;
                o.push(cx.ch.pick(&[0xff, 0x7f, 0x3f, 0x1f, 0x0f]));
                o.extend(std::iter::repeat(0xff).take(l));
                if cx.ch.chance(1, 2) {
                    o.push(cx.ch.below(128) as u8);
                }
            }
            6 => {
                // padded with zero continuation octets
                let l = cx.ch.below(9) as usize;
                o.push(cx.ch.pick(&[0xff, 0x7f, 0x3f, 0x1f, 0x0f]));
                o.extend(std::iter::repeat(0x80).take(l));
                o.push(cx.ch.below(8) as u8);
            }
            7 => {
                let l = cx.ch.below(8);
                for _ in 0..l {
                    o.push(cx.ch.below(256) as u8);
                }
            }
            _ => o.push(0x80 | cx.ch.below(62 + entries as u64).min(126) as u8),
        }
    }
    o
}

pub fn c08_hostile(cx: &mut Ctx) -> Res {
    let limit = if cx.ch.chance(1, 2) { None } else { Some(gen_limit(cx)) };
    let idx = new_index(cx, limit);
    let l0 = limit.unwrap_or(4096);
    let mut rf = hp::Decoder::new(l0);
    let mut enc = hp::Encoder::new(l0);
    let mut d = Decoder::new_index(idx.clone());
    let blocks = 1 + cx.ch.below(6);
    for _ in 0..blocks {
        let hostile = cx.ch.chance(2, 3);
        let mut block = vec![];
        if !hostile || cx.ch.chance(1, 2) {
            let list = hp::gen_list(cx, 8);
            // the encoder may lag behind what hostile blocks did to the table
            enc.table = rf.table.clone();
            block = enc.encode(cx, &list);
            if hostile {
                if cx.ch.chance(1, 3) && !block.is_empty() {
                    let at = cx.ch.below(block.len() as u64) as usize;
                    block.truncate(at);
                    cx.fault("block_truncated");
                } else {
                    corrupt(cx, &mut block, &[0xff, 0x7f, 0x80, 0, 0x3f, 0x40, 0xbe, 0x1f]);
                }
            }
        }
        if hostile && (block.is_empty() || cx.ch.chance(1, 3)) {
            let n = rf.table.entries.len();
            let f = fabricate(cx, n, l0);
            cx.fault("block_fabricated");
            if cx.ch.chance(1, 2) {
                block.extend(f);
            } else {
                let mut x = f;
                x.extend(block);
                block = x;
            }
        }
        cx.ev("block", &[block.len() as u64]);
        cx.bytes_ev("wire", &block);
        cx.cov.deliveries += 1;
        let want = rf.decode(&block);
        let base = alloc::start();
        let got = lib_decode(cx, &mut d, &block)?;
        let peak = alloc::peak_since(base);
        let list_size: i64 = match &got {
            Ok(l) => l.iter().map(|(n, v)| (n.len() + v.len() + 160) as i64).sum(),
            Err(_) => (block.len() as i64 + 1) * (l0 as i64 + 200),
        };
        let bound = 6 * list_size + 100 * block.len() as i64 + 100_000;
        ensure!(peak <= bound, "allocation", "{} octets allocated while decoding a {}-octet block, bound {}", peak, block.len(), bound);
        let (_, _, size, max) = table_of(&idx);
        ensure!(size <= max && max <= l0, "table-over-limit", "table holds {} octets, maximum {}, limit {}, after {}", size, max, l0, show(&block));
        let code = match &want {
            Ok(l) => l.len() as u64,
            Err(Bad::Must(w)) | Err(Bad::May(w)) => 100 + w.len() as u64,
        };
        cx.ev("verdict", &[code, block.first().map_or(0, |b| *b as u64 >> 4), rf.table.entries.len() as u64]);
        match (&want, &got) {
            (Ok(l), Ok(g)) => {
                ensure!(lower(g) == lower(l), "list-differs", "legal block {} holds {}, decoded {}", show(&block), hp::show_list(l), hp::show_list(g));
                let w: Vec<Field> = rf.table.entries.iter().cloned().collect();
                check_table("decoder", &idx, &w, rf.table.max)?;
                cx.probe(if hostile { "hostile_block_legal" } else { "legal_block" });
                cx.message();
            }
            (Ok(l), Err(e)) => return viol("legal-rejected", format!("{:?} for {} which holds {}", e, show(&block), hp::show_list(l))),
            (Err(Bad::Must(w)), Ok(g)) => return viol("accepted-malformed", format!("{}: {} decoded as {}", w, show(&block), hp::show_list(g))),
            (Err(Bad::Must(w)), Err(_)) => {
                cx.probe(w);
                return Ok(());
            }
            (Err(Bad::May(w)), _) => {
                cx.probe(w);
                return Ok(());
            }
        }
    }
    Ok(())
}
