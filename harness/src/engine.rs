//! Choice-tape engine: every random decision of a case is a bounded integer
//! drawn from a tape.  Generation records the tape, replay reads it, shrinking
//! edits it.  0 is always the simplest choice.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Source of choices of one case.
pub struct Src {
    rng: Option<Rng>,
    /// choices decoded from bytes (coverage-guided fuzzing), and how many were read
    bytes: Option<(Vec<u8>, usize)>,
    pub tape: Vec<u64>,
    pos: usize,
    /// asks the curve generators for coordinates and radii in the hundreds
    pub large: bool,
    /// every choice is also written here (crash triage)
    sink: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), bytes: None, tape: Vec::new(), pos: 0, large: false, sink: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: None, bytes: None, tape, pos: 0, large: false, sink: None }
    }
    /// Each choice takes as many bytes as its range needs; choices past the end are 0.
    pub fn bytes(data: &[u8]) -> Self {
        Src { rng: None, bytes: Some((data.to_vec(), 0)), tape: Vec::new(), pos: 0, large: false, sink: None }
    }
    /// Uniform in 0..=n.
    pub fn upto(&mut self, n: u64) -> u64 {
        if let Some((data, at)) = &mut self.bytes {
            let need = if n < 1 << 8 { 1 } else if n < 1 << 16 { 2 } else if n < 1 << 32 { 4 } else { 8 };
            let mut v = 0u64;
            for k in 0..need {
                v |= (data.get(*at + k).copied().unwrap_or(0) as u64) << (8 * k);
            }
            *at += need;
            let v = if n == u64::MAX { v } else { v % (n + 1) };
            self.tape.push(v);
            if let Some(f) = &mut self.sink {
                use std::io::Write;
                let _ = f.write_all(format!("{v},").as_bytes());
            }
            self.pos += 1;
            return v;
        }
        let v = match &mut self.rng {
            Some(rng) => {
                let v = if n == u64::MAX { rng.next() } else { rng.next() % (n + 1) };
                self.tape.push(v);
                if let Some(f) = &mut self.sink {
                    use std::io::Write;
                    let _ = f.write_all(format!("{v},").as_bytes());
                }
                v
            }
            None => {
                if self.pos < self.tape.len() {
                    if self.tape[self.pos] > n {
                        self.tape[self.pos] = n;
                    }
                    self.tape[self.pos]
                } else {
                    self.tape.push(0);
                    0
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// lo..=hi, lo simplest
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.upto((hi - lo) as u64) as i64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { self.upto(n as u64 - 1) as usize }
    }
    /// -r..=r, 0 simplest
    pub fn zig(&mut self, r: i64) -> i64 {
        let v = self.upto(2 * r as u64) as i64;
        if v % 2 == 0 { v / 2 } else { -(v + 1) / 2 }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())].clone()
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.upto(total as u64 - 1) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
    /// [0, 1), 40 bits
    pub fn f01(&mut self) -> f64 {
        self.upto((1 << 40) - 1) as f64 / (1u64 << 40) as f64
    }
    /// permutation of 0..n (identity simplest)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.idx(n - i);
            p.swap(i, j);
        }
        p
    }
}

pub enum Stop {
    Fail(String),
    Discard(&'static str),
}
pub type R = Result<(), Stop>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(msg.into()))
}
pub fn discard<T>(why: &'static str) -> Result<T, Stop> {
    Err(Stop::Discard(why))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return $crate::engine::fail(format!($($t)*)); } };
}

/// One running case: the choices plus what is recorded about it.
pub struct Ctx {
    pub src: Src,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    describe: bool,
    pub desc: String,
}

impl Ctx {
    fn new(src: Src, describe: bool) -> Self {
        Ctx { src, labels: Vec::new(), nontrivial: false, describe, desc: String::new() }
    }
    /// For drivers outside this module (fuzzers).
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Ctx::new(Src::replay(tape), false)
    }
    pub fn from_bytes(data: &[u8]) -> Self {
        Ctx::new(Src::bytes(data), false)
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let t = f();
            if std::env::var_os("RCGAL_TRACE").is_some() {
                eprintln!("{t}");
            }
            if self.desc.len() + t.len() < 6000 {
                if !self.desc.is_empty() {
                    self.desc.push_str("; ");
                }
                self.desc.push_str(&t);
            }
        }
    }
}

pub type CaseFn = fn(&mut Ctx) -> R;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

fn panic_in_harness(loc: &str) -> bool {
    !loc.starts_with('/') || loc.starts_with(env!("CARGO_MANIFEST_DIR"))
}

/// Runs library code that is allowed to panic (refuse its input).
pub fn refused<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            Err(format!("{msg} at {loc}"))
        }
    }
}

pub enum Verdict {
    Pass,
    Discard(&'static str),
    Fail(String),
    HarnessError(String),
}

pub fn run_case(f: CaseFn, ctx: &mut Ctx) -> Verdict {
    crate::fuel::reset(u64::MAX);
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(Ok(())) => Verdict::Pass,
        Ok(Err(Stop::Discard(w))) => Verdict::Discard(w),
        Ok(Err(Stop::Fail(m))) => Verdict::Fail(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if msg.contains(crate::fuel::EXHAUSTED) {
                Verdict::Fail(format!("does not finish: {msg}"))
            } else if panic_in_harness(&loc) {
                Verdict::HarnessError(format!("harness panic: {msg} at {loc}"))
            } else {
                Verdict::Fail(format!("panic: {msg} at {loc}"))
            }
        }
    }
}

fn seed_of(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(mix(seed ^ 0x51ed_270b) ^ hash_str(prop)) ^ hash_str(sub)) ^ mix(i.wrapping_mul(0xD6E8FEB86659FD93))
}

fn tape_hash(sub: &str, t: &[u64]) -> u64 {
    let mut h = hash_str(sub);
    for v in t {
        h = mix(h ^ v.wrapping_add(0x9E3779B97F4A7C15)).wrapping_mul(0x100000001b3);
    }
    h
}

/// Shrinks a failing tape; any failure counts.
pub fn shrink(f: CaseFn, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut evals = 0u32;
    let mut attempt = |t: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if evals > 6000 || start.elapsed() > Duration::from_secs(25) {
            return false;
        }
        evals += 1;
        let mut ctx = Ctx::new(Src::replay(t), false);
        if let Verdict::Fail(m) = run_case(f, &mut ctx) {
            let used = ctx.src.used();
            let mut t = ctx.src.tape;
            t.truncate(used);
            while t.last() == Some(&0) {
                t.pop();
            }
            let better = (t.len(), &t) < (best.len(), &*best);
            if better {
                *best = t;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let mut improved = false;
        // delete blocks
        for size in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if attempt(t, &mut best, &mut best_msg) {
                    improved = true;
                } else {
                    // delete the block and decrement the choice before it (a count)
                    if i > 0 && best[i - 1] > 0 && i + size <= best.len() {
                        let mut t = best.clone();
                        t.drain(i..i + size);
                        t[i - 1] -= 1;
                        if attempt(t, &mut best, &mut best_msg) {
                            improved = true;
                            continue;
                        }
                    }
                    i += 1;
                }
            }
        }
        // zero blocks and lower single values
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    for v in &mut t[i..i + size] {
                        *v = 0;
                    }
                    improved |= attempt(t, &mut best, &mut best_msg);
                }
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut t = best.clone();
            if t[i] > 0 {
                t[i] = 0;
                if attempt(t, &mut best, &mut best_msg) {
                    improved = true;
                } else {
                    // binary descent
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = best.clone();
                        if i >= t.len() {
                            break;
                        }
                        t[i] = mid;
                        if attempt(t, &mut best, &mut best_msg) {
                            improved = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut t = best.clone();
                        t[i] -= 1;
                        improved |= attempt(t, &mut best, &mut best_msg);
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (best, best_msg);
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct SubStats {
    evals: u64,
    discards: BTreeMap<&'static str, u64>,
    labels: BTreeMap<&'static str, u64>,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
}

fn describe(f: CaseFn, tape: &[u64]) -> String {
    let mut ctx = Ctx::new(Src::replay(tape.to_vec()), true);
    let _ = run_case(f, &mut ctx);
    let mut d = ctx.desc;
    if d.len() > 1500 {
        d.truncate(1500);
        d.push('…');
    }
    d
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// Result file lines read by tools/check.py:
///   EVIDENCE <json>            coverage object
///   FAIL <json>                a failing case (property, sub, tape, message, description)
///   ERROR <text>               harness error
///   HANG <sub> <index>         a case ran longer than --hang-limit seconds
/// Exit: 0 pass, 1 failing case written, 2 harness error, 3 hang.
pub fn main_for(prop: Prop) {
    install_panic_hook();
    let result = arg("--result").unwrap_or_else(|| "/dev/stdout".into());
    let emit = |line: &str| {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&result).expect("result file");
        writeln!(f, "{line}").expect("write result");
    };
    if let Some(tape) = arg("--tape") {
        // replay one tape: --sub NAME --tape a,b,c
        let sub = arg("--sub").unwrap_or_default();
        let s = match prop.subs.iter().find(|s| s.name == sub) {
            Some(s) => s,
            None => {
                emit(&format!("ERROR no such sub-check {sub}"));
                std::process::exit(2);
            }
        };
        let tape: Vec<u64> = tape.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("tape")).collect();
        let mut ctx = Ctx::new(Src::replay(tape.clone()), true);
        match run_case(s.f, &mut ctx) {
            Verdict::Fail(m) => {
                emit(&fail_json(&prop, s.name, &tape, &m, &ctx.desc));
                std::process::exit(1);
            }
            Verdict::HarnessError(m) => {
                emit(&format!("ERROR {m}"));
                std::process::exit(2);
            }
            _ => std::process::exit(0),
        }
    }
    if let Some(path) = arg("--bytes") {
        // re-run a fuzzer's input: the first byte selects the sub-check
        let data = std::fs::read(path).expect("bytes file");
        let s = &prop.subs[data.first().copied().unwrap_or(0) as usize % prop.subs.len()];
        let mut ctx = Ctx::new(Src::bytes(data.get(1..).unwrap_or(&[])), true);
        if let Some(p) = arg("--dump-tape") {
            ctx.src.sink = std::fs::File::create(&p).ok();
            let _ = std::fs::write(format!("{p}.sub"), s.name);
        }
        match run_case(s.f, &mut ctx) {
            Verdict::Fail(m) => {
                let (tape, msg) = shrink(s.f, ctx.src.tape, m);
                let d = describe(s.f, &tape);
                emit(&fail_json(&prop, s.name, &tape, &msg, &d));
                std::process::exit(1);
            }
            Verdict::HarnessError(m) => {
                emit(&format!("ERROR {m}"));
                std::process::exit(2);
            }
            _ => std::process::exit(0),
        }
    }
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg("--tier").unwrap_or_else(|| "quick".into());
    let scale: f64 = arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = arg("--sub");
    let threads: usize = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    if let Some(i) = arg("--one") {
        // generate and run exactly one case (crash triage)
        let i: u64 = i.parse().expect("index");
        let s = prop.subs.iter().find(|s| Some(s.name) == only.as_deref()).expect("sub");
        let mut ctx = Ctx::new(Src::random(seed_of(seed, prop.id, s.name, i)), true);
        if let Some(p) = arg("--dump-tape") {
            ctx.src.sink = std::fs::File::create(p).ok();
        }
        let v = run_case(s.f, &mut ctx);
        if let Verdict::Fail(m) = v {
            emit(&fail_json(&prop, s.name, &ctx.src.tape, &m, &ctx.desc));
            std::process::exit(1);
        }
        std::process::exit(0);
    }
    let journal = arg("--journal");

    let t0 = Instant::now();
    let mut sub_json = Vec::new();
    let mut total_evals = 0u64;
    let mut total_nontrivial = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut labels_all: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure: Option<String> = None;
    let mut violations = 0;

    // hang watchdog
    let heartbeat: &'static Vec<AtomicU64> = Box::leak(Box::new((0..threads).map(|_| AtomicU64::new(u64::MAX)).collect()));
    let base: &'static Instant = Box::leak(Box::new(Instant::now()));
    let running: &'static Vec<AtomicU64> = Box::leak(Box::new((0..threads).map(|_| AtomicU64::new(0)).collect()));
    let running_sub: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
    let names: Vec<&'static str> = prop.subs.iter().map(|s| s.name).collect();
    let hang_limit: u64 = arg("--hang-limit").and_then(|s| s.parse().ok()).unwrap_or(60);
    {
        let result = result.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = base.elapsed().as_secs();
            for (th, h) in heartbeat.iter().enumerate() {
                let s = h.load(Ordering::Relaxed);
                if s != u64::MAX && now > s + hang_limit {
                    use std::io::Write;
                    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&result) {
                        let sub = names[running_sub.load(Ordering::Relaxed) as usize];
                        let _ = writeln!(f, "HANG {sub} {}", running[th].load(Ordering::Relaxed));
                    }
                    std::process::exit(3);
                }
            }
        });
    }

    for (sub_no, sub) in prop.subs.iter().enumerate() {
        running_sub.store(sub_no as u64, Ordering::Relaxed);
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        let n = if tier == "thorough" { sub.thorough } else { sub.quick };
        let n = ((n as f64 * scale) as u64).max(1);
        let next = AtomicU64::new(0);
        let min_fail = AtomicU64::new(u64::MAX);
        let stop_err = AtomicBool::new(false);
        let err_msg: Mutex<Option<String>> = Mutex::new(None);
        let fails: Mutex<BTreeMap<u64, (Vec<u64>, String)>> = Mutex::new(BTreeMap::new());
        let stats: Mutex<SubStats> = Mutex::new(SubStats {
            evals: 0,
            discards: BTreeMap::new(),
            labels: BTreeMap::new(),
            nontrivial: HashSet::new(),
            samples: Vec::new(),
        });
        // The first non-trivial cases by index are the samples: deterministic.
        let sample_cands: Mutex<BTreeMap<u64, Vec<u64>>> = Mutex::new(BTreeMap::new());
        const CHUNK: u64 = 32;
        std::thread::scope(|scope| {
            for th in 0..threads {
                let (next, min_fail, stop_err, err_msg, fails, stats, sample_cands, prop, sub, journal) =
                    (&next, &min_fail, &stop_err, &err_msg, &fails, &stats, &sample_cands, &prop, sub, &journal);
                let body = move || {
                    let mut jf = journal.as_ref().map(|j| {
                        std::fs::File::create(format!("{j}.{th}")).expect("journal")
                    });
                    let mut evals = 0u64;
                    let mut discards: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut nontrivial: HashSet<u64> = HashSet::new();
                    let mut my_samples = 0;
                    'outer: loop {
                        let lo = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if lo >= n {
                            break;
                        }
                        for i in lo..(lo + CHUNK).min(n) {
                            if i > min_fail.load(Ordering::Relaxed) || stop_err.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if let Some(f) = &mut jf {
                                use std::io::{Seek, Write};
                                let _ = f.seek(std::io::SeekFrom::Start(0));
                                let _ = f.write_all(format!("{} {:020}\n", sub.name, i).as_bytes());
                            }
                            running[th].store(i, Ordering::Relaxed);
                            heartbeat[th].store(base.elapsed().as_secs(), Ordering::Relaxed);
                            let mut ctx = Ctx::new(Src::random(seed_of(seed, prop.id, sub.name, i)), false);
                            let v = run_case(sub.f, &mut ctx);
                            heartbeat[th].store(u64::MAX, Ordering::Relaxed);
                            evals += 1;
                            match v {
                                Verdict::Pass => {
                                    for l in &ctx.labels {
                                        *labels.entry(l).or_insert(0) += 1;
                                    }
                                    if ctx.nontrivial {
                                        nontrivial.insert(tape_hash(sub.name, &ctx.src.tape));
                                        if my_samples < 3 {
                                            my_samples += 1;
                                            sample_cands.lock().unwrap().insert(i, ctx.src.tape.clone());
                                        }
                                    }
                                }
                                Verdict::Discard(w) => *discards.entry(w).or_insert(0) += 1,
                                Verdict::Fail(m) => {
                                    min_fail.fetch_min(i, Ordering::Relaxed);
                                    fails.lock().unwrap().insert(i, (ctx.src.tape, m));
                                    break 'outer;
                                }
                                Verdict::HarnessError(m) => {
                                    *err_msg.lock().unwrap() = Some(format!("{m} [{} case {i}]", sub.name));
                                    stop_err.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    s.evals += evals;
                    for (k, v) in discards {
                        *s.discards.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in labels {
                        *s.labels.entry(k).or_insert(0) += v;
                    }
                    s.nontrivial.extend(nontrivial);
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, body).expect("thread");
            }
        });
        if let Some(m) = err_msg.into_inner().unwrap() {
            emit(&format!("ERROR {m}"));
            std::process::exit(2);
        }
        let mut s = stats.into_inner().unwrap();
        for (_, t) in sample_cands.into_inner().unwrap().iter().take(2) {
            s.samples.push(describe(sub.f, t));
        }
        total_evals += s.evals;
        total_nontrivial += s.nontrivial.len() as u64;
        for x in s.samples.iter().take(2) {
            samples.push(format!("{}: {}", sub.name, x));
        }
        for (k, v) in &s.labels {
            *labels_all.entry(format!("{}/{}", sub.name, k)).or_insert(0) += v;
        }
        let disc: Vec<String> = s.discards.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let labs: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        sub_json.push(format!(
            "{}:{{\"evaluations\":{},\"distinct_nontrivial\":{},\"discarded\":{{{}}},\"classes\":{{{}}}}}",
            jstr(sub.name),
            s.evals,
            s.nontrivial.len(),
            disc.join(","),
            labs.join(",")
        ));
        let f = fails.into_inner().unwrap();
        if let Some((_, (tape, msg))) = f.into_iter().next() {
            violations += 1;
            let no_shrink = std::env::args().any(|a| a == "--no-shrink");
            let (tape, msg) = if no_shrink { (tape, msg) } else { std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || shrink(sub.f, tape, msg))
                    .expect("thread")
                    .join()
                    .expect("shrink")
            })};
            let d = describe(sub.f, &tape);
            failure = Some(fail_json(&prop, sub.name, &tape, &msg, &d));
            break;
        }
    }
    let sj: Vec<String> = samples.iter().take(12).map(|s| jstr(s)).collect();
    emit(&format!(
        "EVIDENCE {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"subchecks\":{{{}}},\"search_s\":{:.3},\"violations\":{}}}",
        total_evals,
        total_nontrivial,
        jstr(prop.rule),
        sj.join(","),
        sub_json.join(","),
        t0.elapsed().as_secs_f64(),
        violations
    ));
    if let Some(f) = failure {
        emit(&f);
        std::process::exit(1);
    }
    std::process::exit(0);
}

fn fail_json(prop: &Prop, sub: &str, tape: &[u64], msg: &str, desc: &str) -> String {
    let t: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
    format!(
        "FAIL {{\"property\":{},\"sub\":{},\"tape\":[{}],\"message\":{},\"case\":{}}}",
        jstr(prop.id),
        jstr(sub),
        t.join(","),
        jstr(msg),
        jstr(desc)
    )
}
