//! Driver: runs seeds in worker processes, minimises failures, writes replay files and evidence.
use crate::buf::StepBudget;
use crate::choice::{run_seed, Choices};
use crate::ctx::{Cov, Ctx, Violation};
use crate::worlds::{self, Prop};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(no message)")
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn strip_digits(s: &str) -> String {
    let mut out = String::new();
    let mut last_num = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !last_num {
                out.push('#');
            }
            last_num = true;
        } else {
            out.push(c);
            last_num = false;
        }
    }
    out.chars().take(90).collect()
}

/// Place and message of the panic just caught on this thread.
pub fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub fn panic_violation(loc: &str, msg: &str) -> Violation {
    let file = loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or_default();
    let short = file.rsplit("/repo/").next().unwrap_or("").to_string();
    let short = if let Some(i) = short.find("registry/src/") { short[i + 13..].to_string() } else { short };
    Violation { class: format!("panic {} {}", short, strip_digits(msg)), detail: format!("panicked at {}: {}", loc, msg) }
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub cx: Ctx,
}

pub fn execute(p: &Prop, ch: Choices, tracing: bool) -> Outcome {
    let mut cx = Ctx::new(ch, tracing);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let variants = p.worlds.len() as u64;
        let w = cx.ch.below(variants) as usize;
        let (name, f) = p.worlds[w];
        cx.ev(name, &[]);
        f(&mut cx)
    }));
    let violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(payload) => {
            if payload.downcast_ref::<StepBudget>().is_some() {
                Some(Violation { class: "no-progress".into(), detail: "the library made no progress within its step budget (endless loop)".into() })
            } else {
                let (loc, msg) = take_panic();
                Some(panic_violation(&loc, &msg))
            }
        }
    };
    if let Some(v) = &violation {
        let d = format!("VIOLATION {}: {}", v.class, v.detail);
        if cx.tracing {
            cx.trace.push(d);
        }
    }
    Outcome { violation, cx }
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}

/// Lines `known: property=<id> class=<class> :: <text>`; `fixed:` lines suppress nothing.
pub fn load_known(root: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                if let Some((head, text)) = rest.split_once(" :: ") {
                    if let Some((p, c)) = head.split_once(" class=") {
                        v.push(Known {
                            property: p.trim().trim_start_matches("property=").to_string(),
                            class: c.trim().to_string(),
                            text: text.trim().to_string(),
                        });
                    }
                }
            }
        }
    }
    v
}

fn is_known<'a>(known: &'a [Known], prop: &str, v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| k.property == prop && k.class == v.class)
}

/// Shrink the choice list while the same violation class persists.
pub fn minimise(p: &Prop, start: Vec<u64>, class: &str, budget: usize, still: &mut dyn FnMut(&Prop, &[u64], &str) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let t0 = Instant::now();
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left > 0 && t0.elapsed() > Duration::from_secs(60) {
            *left = 0;
        }
        if *left == 0 {
            return false;
        }
        *left -= 1;
        if let Some(rec) = still(p, &cand, class) {
            let mut rec = rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let simpler = rec.len() < best.len() || (rec.len() == best.len() && rec.iter().zip(best.iter()).find(|(a, b)| a != b).map(|(a, b)| a < b).unwrap_or(false));
            if simpler {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // drop spans
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if !try_it(c, &mut best, &mut left) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero spans
        let mut size = 16usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    try_it(c, &mut best, &mut left);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // shrink values
        let mut i = 0;
        while i < best.len() && left > 0 {
            for f in 0..3 {
                if i >= best.len() || best[i] == 0 {
                    break;
                }
                let mut c = best.clone();
                c[i] = match f {
                    0 => c[i] / 2,
                    1 => c[i] - c[i] / 4 - 1,
                    _ => c[i] - 1,
                };
                try_it(c, &mut best, &mut left);
            }
            i += 1;
        }
        if left == 0 || best == before {
            return best;
        }
    }
}

fn write_replay(root: &Path, p: &Prop, seed: u64, index: u64, v: &Violation, choices: &[u64], trace: &[String], minimised: bool) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 0xcbf29ce484222325u64;
    for b in v.class.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let path = dir.join(format!("{}-{}-{}-{:08x}.json", p.id, seed, index, h as u32));
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"seed\": {},\n \"run_index\": {},\n \"class\": {},\n \"detail\": {},\n \"minimised\": {},\n", jstr(p.id), seed, index, jstr(&v.class), jstr(&v.detail), minimised));
    s.push_str(&format!(" \"choices\": [{}],\n", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")));
    s.push_str(" \"trace\": [\n");
    for (i, t) in trace.iter().enumerate() {
        s.push_str("  ");
        s.push_str(&jstr(t));
        if i + 1 < trace.len() {
            s.push(',');
        }
        s.push('\n');
    }
    s.push_str(" ]\n}\n");
    let _ = std::fs::write(&path, s);
    path
}

fn read_replay(path: &str) -> Option<(String, String, u64, u64, Vec<u64>)> {
    let s = std::fs::read_to_string(path).ok()?;
    let field = |name: &str| -> Option<String> {
        let k = format!("\"{}\": ", name);
        let i = s.find(&k)? + k.len();
        let rest = &s[i..];
        if rest.starts_with('"') {
            let mut out = String::new();
            let mut it = rest[1..].chars();
            while let Some(c) = it.next() {
                match c {
                    '"' => return Some(out),
                    '\\' => match it.next()? {
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        'u' => {
                            let h: String = it.by_ref().take(4).collect();
                            out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                        }
                        c => out.push(c),
                    },
                    c => out.push(c),
                }
            }
            None
        } else {
            let e = rest.find(|c| c == ',' || c == '\n')?;
            Some(rest[..e].to_string())
        }
    };
    let prop = field("property")?;
    let class = field("class")?;
    let seed = field("seed")?.parse().ok()?;
    let idx = field("run_index")?.parse().ok()?;
    let i = s.find("\"choices\": [")? + 12;
    let e = s[i..].find(']')? + i;
    let list = s[i..e].split(',').filter(|x| !x.trim().is_empty()).filter_map(|x| x.trim().parse().ok()).collect();
    Some((prop, class, seed, idx, list))
}

// ---------------------------------------------------------------- worker

struct Tally {
    cov: Cov,
    runs: u64,
    ticks: u64,
    events: u64,
    draws: u64,
    sigs: HashSet<u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<String>,
    order_hash: u64,
}

fn worker(args: &[String]) -> i32 {
    // worker <prop> <seed> <start> <end> <stride> <progress-file> <root>
    let p = match worlds::find(&args[0]) {
        Some(p) => p,
        None => return 2,
    };
    let seed: u64 = args[1].parse().unwrap();
    let (start, end, stride): (u64, u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
    let progress = std::fs::OpenOptions::new().create(true).write(true).open(&args[5]).unwrap();
    let root = PathBuf::from(&args[6]);
    let known = load_known(&root);
    let mut t = Tally { cov: Cov::default(), runs: 0, ticks: 0, events: 0, draws: 0, sigs: HashSet::new(), known: BTreeMap::new(), samples: vec![], order_hash: 0 };
    let mut i = start;
    let mut bad = 0;
    let _ = progress.write_at(&i.to_le_bytes(), 0);
    crate::warm_up();
    while i < end {
        let _ = progress.write_at(&i.to_le_bytes(), 0);
        let sample = t.samples.len() < 1 && i >= stride && i < 64 * stride;
        let o = execute(&p, Choices::random(run_seed(seed, p.id, i)), sample);
        t.runs += 1;
        t.ticks += o.cx.now;
        t.events += o.cx.events;
        t.draws += o.cx.ch.draws() as u64;
        for (k, v) in &o.cx.cov.faults {
            *t.cov.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.cx.cov.probes {
            *t.cov.probes.entry(k).or_insert(0) += v;
        }
        t.cov.messages += o.cx.cov.messages;
        t.cov.deliveries += o.cx.cov.deliveries;
        t.cov.lib_calls += o.cx.cov.lib_calls;
        t.order_hash = crate::choice::mix(t.order_hash ^ o.cx.log_hash);
        if o.cx.perturbed && o.cx.progressed && t.sigs.len() < 4_000_000 {
            t.sigs.insert(o.cx.sig);
        }
        if sample && o.cx.perturbed && o.cx.progressed && o.violation.is_none() {
            let n = o.cx.trace.len();
            let mut s: Vec<String> = o.cx.trace.iter().take(30).cloned().collect();
            if n > 30 {
                s.push(format!("... {} more events", n - 30));
            }
            for l in &mut s {
                if l.len() > 300 {
                    let mut e = 300;
                    while !l.is_char_boundary(e) {
                        e -= 1;
                    }
                    l.truncate(e);
                }
            }
            t.samples.push(format!("run {}: {}", i, s.join(" | ")));
        }
        if let Some(v) = o.violation {
            if let Some(k) = is_known(&known, p.id, &v) {
                *t.known.entry(k.class.clone()).or_insert(0) += 1;
            } else {
                let class = v.class.clone();
                // said first with the whole run, in case the search for a smaller one gets stuck
                let path = write_replay(&root, &p, seed, i, &v, &o.cx.ch.rec, &[], false);
                println!("V\t{}\t{}\t{}\t{}", i, path.display(), class.replace(['\t', '\n'], " "), v.detail.replace(['\t', '\n'], " "));
                let min = minimise(&p, o.cx.ch.rec.clone(), &class, 3000, &mut |p, c, class| {
                    let _ = progress.write_at(&(i | (1 << 63)).to_le_bytes(), 0);
                    let o = execute(p, Choices::replay(c.to_vec()), false);
                    match o.violation {
                        Some(v) if v.class == class => Some(o.cx.ch.rec),
                        _ => None,
                    }
                });
                let o2 = execute(&p, Choices::replay(min.clone()), true);
                let v2 = o2.violation.unwrap_or(v);
                let path = write_replay(&root, &p, seed, i, &v2, &min, &o2.cx.trace, true);
                println!("V\t{}\t{}\t{}\t{}", i, path.display(), v2.class.replace(['\t', '\n'], " "), v2.detail.replace(['\t', '\n'], " "));
                bad += 1;
                break;
            }
        }
        i += stride;
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "R\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", t.runs, t.ticks, t.events, t.draws, t.cov.messages, t.cov.deliveries, t.cov.lib_calls, t.order_hash);
    for (k, v) in &t.cov.faults {
        let _ = writeln!(out, "F\t{}\t{}", k, v);
    }
    for (k, v) in &t.cov.probes {
        let _ = writeln!(out, "P\t{}\t{}", k, v);
    }
    for (k, v) in &t.known {
        let _ = writeln!(out, "K\t{}\t{}", k, v);
    }
    for s in &t.samples {
        let _ = writeln!(out, "S\t{}", s.replace(['\t', '\n'], " "));
    }
    let mut line = String::from("G");
    for s in &t.sigs {
        line.push('\t');
        line.push_str(&format!("{:x}", s));
    }
    let _ = writeln!(out, "{}", line);
    let _ = writeln!(out, "E");
    if bad > 0 { 1 } else { 0 }
}

// ---------------------------------------------------------------- parent

fn self_exe() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}

fn run_prop(p: &Prop, tier: &str, seed: u64, root: &Path, runs_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let runs = runs_override.unwrap_or(if tier == "thorough" { p.thorough_runs } else { p.quick_runs });
    println!("seed={} property={} tier={} runs={}", seed, p.id, tier, runs);
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16));
    let scratch = root.join("target").join(format!("scratch-{}-{}", p.id, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&scratch) {
        eprintln!("cannot create scratch: {}", e);
        return 2;
    }
    struct W {
        child: std::process::Child,
        prog: PathBuf,
        last: (u64, Instant),
        out: std::thread::JoinHandle<String>,
        end: Option<std::process::ExitStatus>,
        hung: bool,
    }
    let mut ws = vec![];
    for k in 0..workers {
        let prog = scratch.join(format!("w{}", k));
        let mut child = match Command::new(self_exe())
            .args(["worker", p.id, &seed.to_string(), &k.to_string(), &runs.to_string(), &workers.to_string()])
            .arg(&prog).arg(root)
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("spawn failed: {}", e);
                return 2;
            }
        };
        let mut so = child.stdout.take().unwrap();
        let out = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = so.read_to_string(&mut s);
            s
        });
        ws.push(W { child, prog, last: (u64::MAX, Instant::now()), out, end: None, hung: false });
    }
    let read_prog = |f: &Path| -> u64 {
        std::fs::read(f).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(u64::MAX)
    };
    loop {
        let mut alive = false;
        for w in &mut ws {
            if w.end.is_some() {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(st)) => w.end = Some(st),
                Ok(None) => {
                    alive = true;
                    let cur = read_prog(&w.prog);
                    if cur != w.last.0 || cur & (1 << 63) != 0 && cur != u64::MAX && w.last.1.elapsed() < Duration::from_secs(240) {
                        if cur != w.last.0 {
                            w.last = (cur, Instant::now());
                        }
                    } else if w.last.1.elapsed() > Duration::from_secs(60) {
                        w.hung = true;
                        let _ = w.child.kill();
                    }
                }
                Err(_) => {}
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut sums = [0u64; 7];
    let mut viols: Vec<(u64, String, String, String)> = vec![];
    let mut deaths: Vec<(u64, String)> = vec![];
    let mut broken = false;
    for w in ws {
        let text = w.out.join().unwrap_or_default();
        let st = w.end.unwrap();
        let mut ended = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "R" => for j in 0..7 {
                    sums[j] += f[j + 1].parse::<u64>().unwrap_or(0);
                },
                "F" => *cov.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "P" => *probes.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "K" => *known.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "S" => samples.push(f[1].to_string()),
                "G" => for h in &f[1..] {
                    if let Ok(v) = u64::from_str_radix(h, 16) {
                        sigs.insert(v);
                    }
                },
                "V" => {
                    let at: u64 = f[1].parse().unwrap_or(0);
                    viols.retain(|v: &(u64, String, String, String)| v.0 != at);
                    viols.push((f[1].parse().unwrap_or(0), f[2].into(), f[3].into(), f[4].into()))
                }
                "E" => ended = true,
                _ => {}
            }
        }
        if !ended {
            let idx = read_prog(&w.prog) & !(1 << 63);
            let why = if w.hung {
                "hang".to_string()
            } else if let Some(s) = st.signal() {
                format!("killed by signal {}", s)
            } else {
                format!("ended with {:?}", st.code())
            };
            deaths.push((idx, why));
        }
    }
    // A worker that died: confirm the culprit in an isolated process and report it.
    for (idx, why) in deaths {
        if viols.iter().any(|v| v.0 <= idx) {
            continue;
        }
        if idx >= runs {
            eprintln!("worker {}", why);
            broken = true;
            continue;
        }
        let spill = scratch.join("spill");
        let class = run_isolated(p, seed, idx, None, &spill, Duration::from_secs(30));
        match class {
            Some(c) => {
                let list: Vec<u64> = std::fs::File::open(&spill).map(|f| std::io::BufReader::new(f).lines().filter_map(|l| l.ok().and_then(|x| x.parse().ok())).collect()).unwrap_or_default();
                let hang = c == "hang";
                let sp2 = scratch.join("cand");
                let min = minimise(p, list, &c, if hang { 12 } else { 200 }, &mut |p, cand, class| {
                    let f = scratch.join("list");
                    let _ = std::fs::write(&f, cand.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n"));
                    let r = run_isolated(p, seed, idx, Some(&f), &sp2, Duration::from_secs(if hang { 6 } else { 20 }));
                    if r.as_deref() == Some(class) { Some(cand.to_vec()) } else { None }
                });
                let v = Violation { class: c.clone(), detail: format!("the process running the library {} (run {}, isolated rerun: {})", why, idx, c) };
                let path = write_replay(root, p, seed, idx, &v, &min, &[], true);
                viols.push((idx, path.display().to_string(), c, v.detail));
            }
            None => {
                eprintln!("worker {} at run {} but the isolated rerun ended normally", why, idx);
                broken = true;
            }
        }
    }
    viols.sort();
    // Determinism probe: a sample of runs again in other processes must give the same event logs.
    let mut det = (0u64, true);
    if viols.is_empty() && !broken {
        let n = runs.min(200);
        let mut hs = vec![];
        for round in 0..2 {
            let o = Command::new(self_exe()).args(["hash", p.id, &seed.to_string(), &n.to_string(), &round.to_string()]).stdin(Stdio::null()).stderr(Stdio::null()).output();
            hs.push(o.map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or_default());
        }
        det = (n, hs[0] == hs[1] && !hs[0].is_empty());
        if !det.1 {
            // What was explored is judged all the same; the evidence file says that a rerun may differ.
            println!("NOTE: runs repeated in another process gave different logs: {:?}", hs);
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let m = |b: &BTreeMap<String, u64>| -> String {
        format!("{{{}}}", b.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "))
    };
    let mut e = String::new();
    e.push_str("{\n");
    e.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(p.id), jstr(tier), seed));
    e.push_str(" \"coverage\": {\n");
    e.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", sums[0], sigs.len()));
    e.push_str(&format!("  \"rule\": {},\n", jstr(&format!("One evaluation is one simulated run: a pure function of the choice list drawn from a PRNG seeded with (VERIF_SEED, property, run index). Non-trivial: at least one fault or perturbation fired and at least one message or frame was carried to a checked outcome. Distinct: distinct hash of the run's event sequence (event kinds, sizes bucketed by magnitude). Worlds: {}", p.rule))));
    e.push_str(&format!("  \"samples\": [{}],\n", samples.iter().take(3).map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"simulated_runs\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_ticks\": {},\n  \"events\": {},\n  \"choices_drawn\": {},\n  \"checked_messages\": {},\n  \"deliveries\": {},\n  \"library_calls\": {},\n", sums[0], if wall > 0.0 { (sums[0] as f64 / wall * 3600.0) as u64 } else { 0 }, sums[1], sums[2], sums[3], sums[4], sums[5], sums[6]));
    e.push_str(&format!("  \"faults_injected\": {},\n  \"probes_hit\": {},\n", m(&cov), m(&probes)));
    e.push_str(&format!("  \"determinism_recheck\": {{\"runs_repeated_in_two_fresh_processes_in_opposite_order\": {}, \"identical_logs\": {}}},\n", det.0, det.1));
    e.push_str(&format!("  \"known_findings_seen\": {},\n", m(&known)));
    e.push_str(&format!("  \"real_code\": {},\n  \"stubs\": {}\n }},\n", jstr(p.real), jstr(p.stub)));
    e.push_str(" \"assumptions\": [\"sampled, not exhaustive: a clean batch is evidence, not proof\", \"the harness' reference readers and writers (sim/src/model) are trusted\"],\n");
    e.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, viols.len()));
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(er) = std::fs::write(ev.join(format!("{}.json", p.id)), e) {
        eprintln!("evidence: {}", er);
        return 2;
    }
    println!("runs={} distinct={} messages={} wall={:.1}s faults={}", sums[0], sigs.len(), sums[4], wall, m(&cov));
    println!("probes={}", m(&probes));
    for k in load_known(root).iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", p.id, k.text, known.get(&k.class).copied().unwrap_or(0));
    }
    if let Some(v) = viols.first() {
        println!("class: {}", v.2);
        println!("detail: {}", v.3);
        println!("VIOLATION property={} replay={}", p.id, v.1);
        return 1;
    }
    if broken {
        return 2;
    }
    0
}

/// Runs one index (or a choice list) in its own process; returns the class of an abnormal end.
fn run_isolated(p: &Prop, seed: u64, idx: u64, list: Option<&Path>, spill: &Path, limit: Duration) -> Option<String> {
    let _ = std::fs::remove_file(spill);
    let mut c = Command::new(self_exe());
    c.args(["one", p.id, &seed.to_string(), &idx.to_string()]).arg(spill);
    if let Some(l) = list {
        c.arg(l);
    }
    let mut child = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                if let Some(s) = st.signal() {
                    return Some(format!("process died (signal {})", s));
                }
                return match st.code() {
                    Some(0) | Some(1) => None,
                    c => Some(format!("process died (exit {:?})", c)),
                };
            }
            _ => {
                if t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Some("hang".into());
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

pub fn main(args: &[String]) -> i32 {
    install_hook();
    let root = PathBuf::from(std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let p = match worlds::find(&args[1]) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {}", args[1]);
                    return 2;
                }
            };
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if args.iter().any(|a| a == "thorough") { "thorough".to_string() } else { tier };
            let over = args.iter().position(|a| a == "--runs").and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok());
            run_prop(&p, &tier, seed_env(), &root, over)
        }
        Some("worker") => worker(&args[1..]),
        Some("one") => {
            let p = worlds::find(&args[1]).unwrap();
            let seed: u64 = args[2].parse().unwrap();
            let idx: u64 = args[3].parse().unwrap();
            let mut ch = match args.get(5) {
                Some(f) => Choices::replay(std::fs::read_to_string(f).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()),
                None => Choices::random(run_seed(seed, p.id, idx)),
            };
            ch.spill = std::fs::File::create(&args[4]).ok();
            crate::warm_up();
            let o = execute(&p, ch, false);
            if o.violation.is_some() { 1 } else { 0 }
        }
        Some("hash") => {
            let p = worlds::find(&args[1]).unwrap();
            let seed: u64 = args[2].parse().unwrap();
            let n: u64 = args[3].parse().unwrap();
            let rev = args.get(4).map(|s| s == "1").unwrap_or(false);
            let mut acc = 0u64;
            crate::warm_up();
            for j in 0..n {
                let i = if rev { n - 1 - j } else { j };
                let o = execute(&p, Choices::random(run_seed(seed, p.id, i)), rev);
                acc = acc.wrapping_add(crate::choice::mix(o.cx.log_hash ^ crate::choice::mix(i)));
            }
            println!("{:016x}", acc);
            0
        }
        Some("replay") => {
            let (prop, class, seed, idx, list) = match read_replay(&args[1]) {
                Some(x) => x,
                None => {
                    eprintln!("cannot read replay file");
                    return 2;
                }
            };
            let p = match worlds::find(&prop) {
                Some(p) => p,
                None => return 2,
            };
            if class.starts_with("process died") || class == "hang" {
                let dir = std::env::temp_dir();
                let f = dir.join(format!("sim-replay-{}", std::process::id()));
                let sp = dir.join(format!("sim-replay-spill-{}", std::process::id()));
                let _ = std::fs::write(&f, list.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n"));
                let r = run_isolated(&p, seed, idx, Some(&f), &sp, Duration::from_secs(30));
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::remove_file(&sp);
                return match r {
                    Some(c) => {
                        println!("class: {}", c);
                        println!("VIOLATION property={} replay={}", prop, args[1]);
                        1
                    }
                    None => {
                        println!("not reproduced");
                        0
                    }
                };
            }
            crate::warm_up();
            let o = execute(&p, Choices::replay(list), true);
            for t in &o.cx.trace {
                println!("{}", t);
            }
            match o.violation {
                Some(v) => {
                    println!("class: {}{}", v.class, if v.class == class { "" } else { " (differs from the recorded class)" });
                    println!("VIOLATION property={} replay={}", prop, args[1]);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
        Some("trace") => {
            let p = worlds::find(&args[1]).unwrap();
            let i: u64 = args[2].parse().unwrap();
            crate::warm_up();
            let o = execute(&p, Choices::random(run_seed(seed_env(), p.id, i)), true);
            for t in &o.cx.trace {
                println!("{}", t);
            }
            0
        }
        Some("list") => {
            for p in worlds::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: run <id> | replay <file> | trace <id> <index> | list");
            2
        }
    }
}
