//! Reference header map: an ordered association list keyed by case-insensitive names, and a step that
//! applies one drawn operation to the library's map and to the reference and compares what they show.
use super::http1::{gen_name, gen_value, lower};
use crate::ctx::{show, viol, Ctx, Res};
use crate::ensure;
use webparse::{HeaderMap, HeaderName, HeaderValue};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RefMap(pub Vec<(String, Vec<u8>)>);

impl RefMap {
    pub fn at(&self, n: &str) -> Option<usize> {
        self.0.iter().position(|e| lower(&e.0) == lower(n))
    }
    pub fn get(&self, n: &str) -> Option<&Vec<u8>> {
        self.at(n).map(|i| &self.0[i].1)
    }
    pub fn insert(&mut self, n: &str, v: &[u8]) {
        match self.at(n) {
            Some(i) => self.0[i].1 = v.to_vec(),
            None => self.0.push((n.to_string(), v.to_vec())),
        }
    }
    pub fn push(&mut self, n: &str, v: &[u8]) {
        match self.at(n) {
            Some(i) => {
                self.0[i].1.push(b';');
                self.0[i].1.extend_from_slice(v);
            }
            None => self.0.push((n.to_string(), v.to_vec())),
        }
    }
    pub fn remove(&mut self, n: &str) -> Option<Vec<u8>> {
        self.at(n).map(|i| self.0.remove(i).1)
    }
}

pub const STATIC_NAMES: [&str; 14] = ["Accept", "accept", "X-A", "x-a", "Via", "VIA", "date", "Content-Type", "content-type", "a^b", "a~b", "Set-Cookie", "Z9", "z9"];
pub const STATIC_VALUES: [&str; 18] = ["0", "-5", "007", "-0042", "18446744073709551615", "18446744073709551616", "9223372036854775807", "-9223372036854775808", "", "1", "gzip, br", "a;b", "text/html; q=0.5", "Keep-Alive", "x y", "Upgrade, HTTP2-Settings", "chunked", "keep-alive"];

const SPECIAL: [&str; 9] = ["Host", "content-length", "Connection", "upgrade", "transfer-encoding", "Cookie", "referer", "User-Agent", "host"];

pub fn recase(cx: &mut Ctx, n: &str) -> String {
    match cx.ch.below(4) {
        0 => n.to_string(),
        1 => n.to_ascii_uppercase(),
        2 => lower(n),
        _ => n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// A name: often one already there in another case, or a near miss.
pub fn pick_name(cx: &mut Ctx, r: &RefMap) -> String {
    match cx.ch.below(4) {
        0 | 1 if !r.0.is_empty() => {
            let i = cx.ch.below(r.0.len() as u64) as usize;
            let n = r.0[i].0.clone();
            recase(cx, &n)
        }
        2 => cx.ch.pick(&STATIC_NAMES).to_string(),
        _ if cx.ch.chance(1, 2) => cx.ch.pick(&SPECIAL).to_string(),
        _ => gen_name(cx),
    }
}

/// A value in one of the forms the map accepts, and its octets.
pub enum Val {
    Static(&'static str),
    Text(String),
    U(usize),
    I(isize),
    Raw(Vec<u8>),
}

pub fn pick_val(cx: &mut Ctx) -> Val {
    match cx.ch.below(6) {
        0 => Val::Static(cx.ch.pick(&STATIC_VALUES)),
        1 => Val::Text(String::from_utf8_lossy(&gen_value(cx)).to_string()),
        2 => Val::U(match cx.ch.below(3) {
            0 => cx.ch.below(1000) as usize,
            1 => usize::MAX - cx.ch.below(3) as usize,
            _ => cx.ch.below(u64::MAX) as usize,
        }),
        3 => Val::I(match cx.ch.below(3) {
            0 => -(cx.ch.below(1000) as isize),
            1 => isize::MIN + cx.ch.below(3) as isize,
            _ => cx.ch.below(u64::MAX / 2) as isize,
        }),
        4 => {
            // digits, near the ends of what a number holds
            let mut t = match cx.ch.below(5) {
                0 => cx.ch.below(100000).to_string(),
                1 => (u64::MAX as u128 + 3 - cx.ch.below(6) as u128).to_string(),
                2 => (i64::MAX as u128 + 3 - cx.ch.below(6) as u128).to_string(),
                3 => format!("{}{}", cx.ch.below(100), u64::MAX),
                _ => (cx.ch.below(u64::MAX) as u128 * (1 + cx.ch.below(3) as u128)).to_string(),
            };
            if cx.ch.chance(1, 4) {
                t = format!("{}{}", "0".repeat(1 + cx.ch.skew(20) as usize), t);
            }
            if cx.ch.chance(1, 2) {
                t = format!("-{}", t);
            }
            if cx.ch.chance(1, 6) {
                let at = cx.ch.below(t.len() as u64 + 1) as usize;
                t.insert(at, cx.ch.pick(&['-', 'a', '.', ' ', ':', '/', '+']));
                t = t.trim().to_string();
            }
            if cx.ch.chance(1, 2) { Val::Raw(t.into_bytes()) } else { Val::Text(t) }
        }
        _ => Val::Raw(gen_value(cx)),
    }
}

impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Static(s) => s.as_bytes().to_vec(),
            Val::Text(s) => s.as_bytes().to_vec(),
            Val::U(n) => n.to_string().into_bytes(),
            Val::I(n) => n.to_string().into_bytes(),
            Val::Raw(v) => v.clone(),
        }
    }
}

/// Something that is neither a name nor a value; converting it fails.
pub struct Unfit;

impl TryFrom<Unfit> for HeaderName {
    type Error = webparse::WebError;
    fn try_from(_: Unfit) -> Result<Self, Self::Error> {
        Err(webparse::WebError::Extension("unfit"))
    }
}

impl TryFrom<Unfit> for webparse::HeaderValue {
    type Error = webparse::WebError;
    fn try_from(_: Unfit) -> Result<Self, Self::Error> {
        Err(webparse::WebError::Extension("unfit"))
    }
}

/// Calls a two-argument generic method with the name and value in drawn representations.
#[macro_export]
macro_rules! with_name_value {
    ($cx:expr, $n:expr, $v:expr, |$k:ident, $w:ident| $call:expr) => {{
        let n: &str = $n;
        let stat = $crate::model::headers::STATIC_NAMES.iter().find(|s| **s == n).copied();
        match (stat, $cx.ch.below(3)) {
            (Some(s), 0) => { let $k = s; $crate::with_value!($v, |$w| $call) }
            (Some(s), 1) => { let $k = webparse::HeaderName::from_static(s); $crate::with_value!($v, |$w| $call) }
            (_, 2) => { let $k = webparse::HeaderName::from_bytes(n.as_bytes()).expect("text name"); $crate::with_value!($v, |$w| $call) }
            _ => { let $k = n.to_string(); $crate::with_value!($v, |$w| $call) }
        }
    }};
}

#[macro_export]
macro_rules! with_value {
    ($v:expr, |$w:ident| $call:expr) => {
        match $v {
            $crate::model::headers::Val::Static(s) => { let $w = *s; $call }
            $crate::model::headers::Val::Text(s) => { let $w = s.clone(); $call }
            $crate::model::headers::Val::U(s) => { let $w = *s; $call }
            $crate::model::headers::Val::I(s) => { let $w = *s; $call }
            $crate::model::headers::Val::Raw(s) => { let $w = webparse::HeaderValue::from_bytes(s); $call }
        }
    };
}

/// Every name the crate gives as a constant, and what it is.
pub const CONSTANTS: [(HeaderName, &str); 81] = [
    (HeaderName::ACCEPT, "accept"), (HeaderName::ACCEPT_CHARSET, "accept-charset"), (HeaderName::ACCEPT_ENCODING, "accept-encoding"),
    (HeaderName::ACCEPT_LANGUAGE, "accept-language"), (HeaderName::ACCEPT_RANGES, "accept-ranges"),
    (HeaderName::ACCESS_CONTROL_ALLOW_CREDENTIALS, "access-control-allow-credentials"), (HeaderName::ACCESS_CONTROL_ALLOW_HEADERS, "access-control-allow-headers"),
    (HeaderName::ACCESS_CONTROL_ALLOW_METHODS, "access-control-allow-methods"), (HeaderName::ACCESS_CONTROL_ALLOW_ORIGIN, "access-control-allow-origin"),
    (HeaderName::ACCESS_CONTROL_EXPOSE_HEADERS, "access-control-expose-headers"), (HeaderName::ACCESS_CONTROL_MAX_AGE, "access-control-max-age"),
    (HeaderName::ACCESS_CONTROL_REQUEST_HEADERS, "access-control-request-headers"), (HeaderName::ACCESS_CONTROL_REQUEST_METHOD, "access-control-request-method"),
    (HeaderName::AGE, "age"), (HeaderName::ALLOW, "allow"), (HeaderName::ALT_SVC, "alt-svc"), (HeaderName::AUTHORIZATION, "authorization"),
    (HeaderName::CACHE_CONTROL, "cache-control"), (HeaderName::CACHE_STATUS, "cache-status"), (HeaderName::CDN_CACHE_CONTROL, "cdn-cache-control"),
    (HeaderName::CONNECTION, "connection"), (HeaderName::CONTENT_DISPOSITION, "content-disposition"), (HeaderName::CONTENT_ENCODING, "content-encoding"),
    (HeaderName::CONTENT_LANGUAGE, "content-language"), (HeaderName::CONTENT_LENGTH, "content-length"), (HeaderName::CONTENT_LOCATION, "content-location"),
    (HeaderName::CONTENT_RANGE, "content-range"), (HeaderName::CONTENT_SECURITY_POLICY, "content-security-policy"),
    (HeaderName::CONTENT_SECURITY_POLICY_REPORT_ONLY, "content-security-policy-report-only"), (HeaderName::CONTENT_TYPE, "content-type"), (HeaderName::COOKIE, "cookie"),
    (HeaderName::DNT, "dnt"), (HeaderName::DATE, "date"), (HeaderName::ETAG, "etag"), (HeaderName::EXPECT, "expect"), (HeaderName::EXPIRES, "expires"),
    (HeaderName::FORWARDED, "forwarded"), (HeaderName::FROM, "from"), (HeaderName::HOST, "host"), (HeaderName::IF_MATCH, "if-match"),
    (HeaderName::IF_MODIFIED_SINCE, "if-modified-since"), (HeaderName::IF_NONE_MATCH, "if-none-match"), (HeaderName::IF_RANGE, "if-range"),
    (HeaderName::IF_UNMODIFIED_SINCE, "if-unmodified-since"), (HeaderName::LAST_MODIFIED, "last-modified"), (HeaderName::LINK, "link"), (HeaderName::LOCATION, "location"),
    (HeaderName::MAX_FORWARDS, "max-forwards"), (HeaderName::ORIGIN, "origin"), (HeaderName::PRAGMA, "pragma"), (HeaderName::PROXY_AUTHENTICATE, "proxy-authenticate"),
    (HeaderName::PROXY_AUTHORIZATION, "proxy-authorization"), (HeaderName::PUBLIC_KEY_PINS, "public-key-pins"),
    (HeaderName::PUBLIC_KEY_PINS_REPORT_ONLY, "public-key-pins-report-only"), (HeaderName::RANGE, "range"), (HeaderName::REFERER, "referer"),
    (HeaderName::REFERRER_POLICY, "referrer-policy"), (HeaderName::REFRESH, "refresh"), (HeaderName::RETRY_AFTER, "retry-after"),
    (HeaderName::SEC_WEBSOCKET_ACCEPT, "sec-websocket-accept"), (HeaderName::SEC_WEBSOCKET_EXTENSIONS, "sec-websocket-extensions"),
    (HeaderName::SEC_WEBSOCKET_KEY, "sec-websocket-key"), (HeaderName::SEC_WEBSOCKET_PROTOCOL, "sec-websocket-protocol"),
    (HeaderName::SEC_WEBSOCKET_VERSION, "sec-websocket-version"), (HeaderName::SERVER, "server"), (HeaderName::SET_COOKIE, "set-cookie"),
    (HeaderName::STRICT_TRANSPORT_SECURITY, "strict-transport-security"), (HeaderName::TE, "te"), (HeaderName::TRAILER, "trailer"),
    (HeaderName::TRANSFER_ENCODING, "transfer-encoding"), (HeaderName::USER_AGENT, "user-agent"), (HeaderName::UPGRADE, "upgrade"),
    (HeaderName::UPGRADE_INSECURE_REQUESTS, "upgrade-insecure-requests"), (HeaderName::VARY, "vary"), (HeaderName::VIA, "via"), (HeaderName::WARNING, "warning"),
    (HeaderName::WWW_AUTHENTICATE, "www-authenticate"), (HeaderName::X_CONTENT_TYPE_OPTIONS, "x-content-type-options"),
    (HeaderName::X_DNS_PREFETCH_CONTROL, "x-dns-prefetch-control"), (HeaderName::X_FRAME_OPTIONS, "x-frame-options"), (HeaderName::X_XSS_PROTECTION, "x-xss-protection"),
];

/// One drawn operation on both; returns its label.
pub fn step(cx: &mut Ctx, h: &mut HeaderMap, r: &mut RefMap) -> Res<&'static str> {
    cx.cov.lib_calls += 1;
    let n = pick_name(cx, r);
    if cx.ch.chance(1, 40) {
        // what cannot be converted changes nothing
        match cx.ch.below(6) {
            0 => drop(h.insert(n.clone(), Unfit)),
            1 => drop(h.insert(Unfit, n.clone())),
            2 => drop(h.insert(Unfit, Unfit)),
            3 => drop(h.push(n.clone(), Unfit)),
            4 => drop(h.push(Unfit, n.clone())),
            _ => drop(h.push(Unfit, Unfit)),
        }
        cx.probe("unfit_conversion");
        return Ok("unfit");
    }
    Ok(match cx.ch.below(14) {
        0 | 1 | 2 => {
            let v = pick_val(cx);
            if cx.ch.chance(1, 16) {
                // a list of any length, with what matters at its end
                let (k, t) = cx.ch.pick(&[("Connection", "keep-alive"), ("connection", "Upgrade"), ("Transfer-Encoding", "chunked"), ("Transfer-Encoding", "chunke"), ("Connection", "keepalive")]);
                let mut v = cx.ch.pick(&["gzip, ", "x,", "Keep-Aliv, chunke, "]).repeat(1 + cx.ch.skew(400) as usize);
                v.push_str(t);
                if cx.ch.chance(1, 3) {
                    v.push_str(", br");
                }
                h.insert(k, v.clone());
                r.insert(k, v.as_bytes());
                cx.probe("long_list");
                return Ok("insert");
            }
            if cx.ch.chance(1, 8) {
                let (k, text) = &CONSTANTS[cx.ch.below(CONSTANTS.len() as u64) as usize];
                ensure!(k.as_bytes().eq_ignore_ascii_case(text.as_bytes()), "constant-name", "the constant for {} says {}", text, show(k.as_bytes()));
                with_value!(&v, |w| { h.insert(k.clone(), w); });
                r.insert(text, &v.bytes());
                cx.probe("named_constant");
                return Ok("insert");
            }
            with_name_value!(cx, &n, &v, |k, w| { h.insert(k, w); });
            r.insert(&n, &v.bytes());
            "insert"
        }
        3 | 4 => {
            let v = pick_val(cx);
            with_name_value!(cx, &n, &v, |k, w| { h.push(k, w); });
            r.push(&n, &v.bytes());
            "append"
        }
        5 | 6 => {
            let got = match cx.ch.below(2) {
                0 => h.remove(&n),
                _ => h.remove(&HeaderName::from_bytes(n.as_bytes()).unwrap()),
            };
            let want = r.remove(&n);
            ensure!(got.as_ref().map(|v| v.as_bytes()) == want.as_deref(), "remove-result", "remove({}) gave {:?}, expected {:?}", n, got, want.map(|v| show(&v)));
            "remove"
        }
        7 => {
            if cx.ch.chance(1, 4) {
                h.clear();
                r.0.clear();
                "clear"
            } else {
                "none"
            }
        }
        8 => {
            // index access creates an empty field when there is none
            let s = cx.ch.pick(&STATIC_NAMES);
            let v = pick_val(cx);
            if cx.ch.chance(1, 2) {
                h[s] = HeaderValue::from_bytes(&v.bytes());
                r.insert(s, &v.bytes());
            } else {
                let _ = &mut h[s];
                let cur = h[s].as_bytes().to_vec();
                if r.at(s).is_none() {
                    r.insert(s, b"");
                }
                ensure!(cur == *r.get(s).unwrap(), "index-value", "[{}] is {}, expected {}", s, show(&cur), show(r.get(s).unwrap()));
            }
            "index"
        }
        9 => {
            if r.at(&n).is_some() {
                let v = gen_value(cx);
                *h.get_mut_value(&n) = HeaderValue::from_bytes(&v);
                r.insert(&n, &v);
            }
            "get_mut"
        }
        10 => {
            let k = cx.ch.below(4) as usize;
            let v = gen_value(cx);
            ensure!(h.iter_mut().count() == r.0.len(), "iter-mut-count", "{} fields, expected {}", h.iter_mut().count(), r.0.len());
            if let Some(e) = h.iter_mut().nth(k) {
                if cx.ch.chance(1, 2) {
                    e.1 = HeaderValue::from_bytes(&v);
                    r.0[k].1 = v;
                } else {
                    e.1.push(HeaderValue::from_bytes(&v));
                    r.0[k].1.push(b';');
                    r.0[k].1.extend_from_slice(&v);
                }
            }
            "iter_mut"
        }
        11 => {
            // a copy is independent of the original
            let mut c = h.clone();
            ensure!(c == *h, "clone-differs", "{:?}", c);
            match cx.ch.below(3) {
                0 => {
                    c.insert(n, "changed in the copy");
                }
                1 => {
                    c.clear();
                }
                _ => {
                    std::mem::swap(&mut c, h);
                    c.clear();
                }
            }
            "clone"
        }
        12 => {
            // notes kept beside the fields: never part of the message, and kept by a copy
            let key = format!("note{}", cx.ch.below(3));
            let val = String::from_utf8_lossy(&gen_value(cx)).to_string();
            h.system_insert(key.clone(), val.clone());
            let c = h.clone();
            ensure!(h.system_get(&key) == Some(&val) && c.system_get(&key[..]) == Some(&val) && h.system_get(&key.to_uppercase()).is_none(), "map-notes", "{}={:?} read as {:?}, in a copy {:?}", key, val, h.system_get(&key), c.system_get(&key));
            "note"
        }
        _ => {
            // rebuild by iteration
            let old = std::mem::replace(h, HeaderMap::new());
            for (k, v) in old {
                if cx.ch.chance(1, 2) {
                    h.insert(k, v);
                } else {
                    h.push(k, v);
                }
            }
            "rebuild"
        }
    })
}

fn digest<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A value read as a number is the number its text spells; text that spells none is refused.
fn numbers(n: &str, hv: &HeaderValue, v: &[u8]) -> Res {
    let u: Result<usize, _> = hv.try_into();
    let i: Result<isize, _> = hv.try_into();
    let (neg, digits) = match v.strip_prefix(b"-") {
        Some(d) => (true, d),
        None => (false, v.strip_prefix(b"+").unwrap_or(v)),
    };
    if v.first() == Some(&b'+') && !digits.is_empty() && digits.iter().all(|b| b.is_ascii_digit()) || digits.is_empty() {
        // a plus sign, a lone sign and the empty text: refused or read the obvious way
        return Ok(());
    }
    let text = std::str::from_utf8(v).unwrap_or("none");
    let (wu, wi) = if digits.iter().all(|b| b.is_ascii_digit()) { (text.parse::<usize>().ok(), text.parse::<isize>().ok()) } else { (None, None) };
    let wu = if neg { None } else { wu };
    // "-0" is no unsigned number's text; either answer stands
    ensure!(u.as_ref().ok() == wu.as_ref() || neg && wi == Some(0), "value-unsigned", "{}: {} read as {:?}, expected {:?}", n, show(v), u.ok(), wu);
    ensure!(i.as_ref().ok() == wi.as_ref(), "value-signed", "{}: {} read as {:?}, expected {:?}", n, show(v), i.ok(), wi);
    let s: Option<String> = TryInto::<String>::try_into(hv).ok();
    ensure!(s == Some(String::from_utf8_lossy(v).to_string()), "value-text", "{}: {} read as {:?}", n, show(v), s);
    ensure!(hv.as_string() == String::from_utf8(v.to_vec()).ok() && hv.to_string() == String::from_utf8_lossy(v) && hv.bytes_len() == v.len(), "value-text", "{}: {} shown as {:?}", n, show(v), hv);
    ensure!(hv.contains(v), "value-contains", "{} does not contain itself", show(v));
    Ok(())
}

/// Everything the map shows about itself.
pub fn observe(cx: &mut Ctx, h: &HeaderMap, r: &RefMap) -> Res {
    cx.cov.lib_calls += 1;
    let got: Vec<(String, Vec<u8>)> = h.iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
    let same = got.len() == r.0.len() && got.iter().zip(&r.0).all(|(a, b)| lower(&a.0) == lower(&b.0) && a.1 == b.1);
    ensure!(same, "map-contents", "expected {:?}, got {:?}", dbg(&r.0), dbg(&got));
    ensure!(h.len() == r.0.len() && h.is_empty() == r.0.is_empty(), "map-len", "len {} is_empty {} for {} fields", h.len(), h.is_empty(), r.0.len());
    for _ in 0..2 {
        let n = match cx.ch.below(2) {
            0 => pick_name(cx, r),
            _ => cx.ch.pick(&["content-length", "Host", "REFERER", "user-agent", "Cookie", "connection", "Transfer-Encoding"]).to_string(),
        };
        let other = if cx.ch.chance(1, 2) { n.to_ascii_uppercase() } else { pick_name(cx, r) };
        let (x, y) = (HeaderName::try_from(n.clone()).unwrap(), HeaderName::try_from(other.clone()).unwrap());
        let eq = lower(&n) == lower(&other);
        ensure!((x == y) == eq && (x == &other[..]) == eq && (x == other.as_bytes()) == eq && (other.as_bytes() == x) == eq, "name-equality", "{} and {}", n, other);
        ensure!(!eq || digest(&x) == digest(&y), "name-hash", "{} and {}", n, other);
        let want = r.get(&n);
        ensure!(h.contains(&n) == want.is_some(), "map-contains", "contains({}) is {}", n, h.contains(&n));
        let got = h.get_option_value(&n).map(|v| v.as_bytes().to_vec());
        ensure!(got.as_ref() == want, "map-lookup", "lookup({}) gave {:?}, expected {:?}", n, got.map(|v| show(&v)), want.map(|v| show(v)));
        let s = want.and_then(|v| String::from_utf8(v.clone()).ok());
        ensure!(h.get_str_value(&n) == s, "map-lookup-text", "{:?}, expected {:?}", h.get_str_value(&n), s);
        if let Some(v) = want {
            ensure!(h.get_value(&n).as_bytes() == &v[..], "map-get-value", "{}", n);
            let (a, b) = {
                let a = cx.ch.below(v.len() as u64 + 1) as usize;
                (a, a + cx.ch.below((v.len() - a) as u64 + 1) as usize)
            };
            let mut part = v[a..b].to_vec();
            if cx.ch.chance(1, 3) {
                part.push(b'x');
            }
            let has = part.is_empty() || v.windows(part.len()).any(|w| w == &part[..]);
            ensure!(h.is_contains(&n, &part) == has, "map-is-contains", "{} in {} reported {}", show(&part), show(v), !has);
            let hv = h.get_value(&n);
            ensure!(*hv == v[..] && v[..] == *hv && (*hv == part[..]) == (part == *v), "value-equality", "{} and {}", show(v), show(&part));
            if let Ok(t) = std::str::from_utf8(&part) {
                ensure!((*hv == t) == (part == *v) && (t == *hv) == (part == *v), "value-text-equality", "{} and {}", show(v), t);
            }
            let owned = webparse::HeaderValue::from_cow(std::borrow::Cow::Borrowed(&part[..]));
            ensure!((owned == *hv) == (part == *v) && owned.bytes_len() == part.len(), "value-equality", "{} and {}", show(v), show(&part));
            ensure!(part != *v || digest(&owned) == digest(hv), "value-hash", "{}", show(v));
            numbers(&n, hv, v)?;
            ensure!(h.is_equal(&n, v) && h.is_equal(&n, &part) == (part == *v), "map-is-equal", "{} vs {}", show(&part), show(v));
        } else {
            ensure!(!h.is_contains(&n, b"") && !h.is_equal(&n, b""), "map-absent", "{} is absent but matches", n);
        }
    }
    let lossy = |n: &str| r.get(n).map(|v| String::from_utf8_lossy(v).to_string());
    ensure!(h.get_host() == lossy("host"), "map-host", "{:?}, expected {:?}", h.get_host(), lossy("host"));
    ensure!(h.get_referer() == lossy("referer"), "map-referer", "{:?}, expected {:?}", h.get_referer(), lossy("referer"));
    ensure!(h.get_user_agent() == lossy("user-agent"), "map-user-agent", "{:?}, expected {:?}", h.get_user_agent(), lossy("user-agent"));
    ensure!(h.get_cookie() == lossy("cookie"), "map-cookie", "{:?}, expected {:?}", h.get_cookie(), lossy("cookie"));
    // a length is the number the field spells, and anything else is no positive length
    let digits = r.get("content-length").filter(|v| !v.is_empty() && v.iter().all(|b| b.is_ascii_digit())).and_then(|v| std::str::from_utf8(v).ok().and_then(|t| t.parse::<isize>().ok()));
    let len = h.get_body_len();
    ensure!(digits.map_or(len <= 0 || r.get("content-length").map_or(false, |v| v.starts_with(b"+")), |d| len == d), "map-body-len", "{} for {:?}", len, r.get("content-length").map(|v| show(v)));
    let has = |n: &str, t: &str| r.get(n).map_or(false, |v| lower(&String::from_utf8_lossy(v)).contains(&lower(t)));
    ensure!(h.is_keep_alive() == has("connection", "keep-alive"), "map-keep-alive", "{}", h.is_keep_alive());
    ensure!(h.is_chunked() == has("transfer-encoding", "chunked"), "map-chunked", "{}", h.is_chunked());
    let up = if has("connection", "upgrade") { r.get("upgrade").and_then(|v| String::from_utf8(v.clone()).ok()) } else { None };
    ensure!(h.get_upgrade_protocol() == up, "map-upgrade", "{:?}, expected {:?}", h.get_upgrade_protocol(), up);
    Ok(())
}

pub fn dbg(h: &[(String, Vec<u8>)]) -> Vec<String> {
    h.iter().map(|(n, v)| format!("{}: {}", n, show(v))).collect()
}

/// The textual form lists every field on its own line.
pub fn display(h: &HeaderMap, r: &RefMap) -> Res {
    let want: String = r.0.iter().map(|(n, v)| format!("{}: {}\r\n", lower(n), String::from_utf8_lossy(v))).collect::<String>() + "\r\n";
    let got = h.to_string();
    let norm: String = got.split("\r\n").map(|l| match l.find(':') { Some(i) => format!("{}{}\r\n", lower(&l[..i]), &l[i..]), None => format!("{}\r\n", l) }).collect();
    let norm = norm[..norm.len() - 2].to_string();
    if norm != want {
        return viol("map-display", format!("{:?}, expected {:?}", got, want));
    }
    Ok(())
}
