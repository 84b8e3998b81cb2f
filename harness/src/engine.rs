//! Choice-tape property-based testing engine.
//!
//! Every random decision of a case is a bounded draw that is recorded on a tape;
//! running a case on a given tape reproduces it exactly, and shrinking edits the
//! tape (deleting, zeroing and minimising draws). Draw value 0 is always the
//! simplest choice.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}
impl From<String> for Failure {
    fn from(msg: String) -> Self {
        Failure { sig: String::new(), msg }
    }
}
impl From<&str> for Failure {
    fn from(msg: &str) -> Self {
        Failure { sig: String::new(), msg: msg.into() }
    }
}
pub type R<T = ()> = Result<T, Failure>;

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::engine::Failure::from(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Failure::from(format!($($a)*))) } } }
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($r:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::engine::Failure::from(format!("{}: got {} expected {}", format!($($r)*), $crate::engine::dbg(a), $crate::engine::dbg(b))));
        }
    }};
}
/// `?`-style unwrapping of a library result that must be `Ok`.
#[macro_export]
macro_rules! must {
    ($e:expr, $($r:tt)*) => { match $e { Ok(v) => v, Err(e) => return Err($crate::engine::Failure::from(format!("{}: unexpected error {:?}", format!($($r)*), e))) } };
}
#[macro_export]
macro_rules! must_some {
    ($e:expr, $($r:tt)*) => { match $e { Some(v) => v, None => return Err($crate::engine::Failure::from(format!("{}: unexpected None", format!($($r)*)))) } };
}

pub fn dbg<T: std::fmt::Debug + ?Sized>(t: &T) -> String {
    let mut s = format!("{:?}", t);
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

pub struct Gen {
    replay: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    st: u64,
    labels: Vec<&'static str>,
    nontrivial: bool,
    want_sample: bool,
    sample: Option<String>,
    /// Files generated by a check, when only those are wanted.
    capture: Option<Vec<Vec<u8>>>,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { replay: None, pos: 0, tape: Vec::new(), st: mix(seed ^ 0x1234_5678_9abc_def1), labels: vec![], nontrivial: false, want_sample: false, sample: None, capture: None }
    }
    pub fn replay(tape: Vec<u64>) -> Gen {
        Gen { replay: Some(tape), pos: 0, tape: Vec::new(), st: 0, labels: vec![], nontrivial: false, want_sample: true, sample: None, capture: None }
    }
    fn next(&mut self) -> u64 {
        self.st = self.st.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.st)
    }
    /// Uniform draw in `0..=max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(max)
            }
            None => {
                let r = self.next();
                if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.upto((b - a) as u64) as usize
    }
    pub fn range64(&mut self, a: u64, b: u64) -> u64 {
        a + self.upto(b - a)
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// True with probability `num/den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn pickc<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len())]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.upto(total - 1);
        for (i, &x) in w.iter().enumerate() {
            if r < x {
                return i;
            }
            r -= x;
        }
        0
    }
    /// Length with mostly small values up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.upto(9) {
            0..=3 => self.range(0, max.min(3)),
            4..=7 => self.range(0, max.min(8)),
            _ => self.range(0, max),
        }
    }
    pub fn len1(&mut self, max: usize) -> usize {
        1 + self.len(max - 1)
    }
    pub fn bits(&mut self, n: u32) -> u64 {
        if n == 0 { return 0 }
        self.upto(if n == 64 { u64::MAX } else { (1 << n) - 1 })
    }
    /// `n`-bit value favouring small values and boundaries.
    pub fn uint(&mut self, n: u32) -> u64 {
        let mask = if n == 64 { u64::MAX } else { (1 << n) - 1 };
        match self.upto(7) {
            0 | 1 => self.upto(16.min(mask)),
            2 => {
                let k = self.upto(n as u64) as u32;
                self.bits(k)
            }
            3 => {
                // around a power of two
                let k = self.upto(n as u64) as u32;
                let d = self.upto(2);
                let p = if k == 64 { 0 } else { 1u64 << k };
                p.wrapping_add(d).wrapping_sub(1) & mask
            }
            4 => mask - self.upto(3.min(mask)),
            _ => self.bits(n),
        }
    }
    pub fn u8(&mut self) -> u8 { self.uint(8) as u8 }
    pub fn u16(&mut self) -> u16 { self.uint(16) as u16 }
    pub fn u32(&mut self) -> u32 { self.uint(32) as u32 }
    pub fn u64(&mut self) -> u64 { self.uint(64) }
    pub fn i64(&mut self) -> i64 { self.uint(64) as i64 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let k = (n - v.len()).min(7);
            let x = self.bits(8 * k as u32);
            v.extend_from_slice(&x.to_le_bytes()[..k]);
        }
        v
    }
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        self.bytes(n)
    }
    /// Non-empty name without NUL bytes: mostly identifier-like, sometimes arbitrary non-NUL bytes.
    pub fn name(&mut self, max: usize) -> Vec<u8> {
        let n = self.len1(max);
        let wild = self.chance(1, 12);
        (0..n)
            .map(|_| {
                if wild {
                    1 + self.upto(254) as u8
                } else {
                    b"abcdeXYZ_.$0123"[self.below(15)]
                }
            })
            .collect()
    }
    /// ASCII identifier-like name.
    pub fn ident(&mut self, max: usize) -> String {
        let n = self.len1(max);
        (0..n).map(|_| b"abcdeXYZ_.$0123"[self.below(15)] as char).collect()
    }
    /// The files that a check has generated. Stops the check if only those are wanted.
    pub fn files(&mut self, f: &[&[u8]]) -> R {
        if let Some(c) = &mut self.capture {
            *c = f.iter().map(|x| x.to_vec()).collect();
            fail!("captured");
        }
        Ok(())
    }
    pub fn file(&mut self, f: &[u8]) -> R {
        self.files(&[f])
    }
    /// Only the files generated by a check.
    pub fn capture(&mut self, f: impl FnOnce(&mut Gen) -> R) -> Vec<Vec<u8>> {
        self.capture = Some(vec![]);
        let _ = f(self);
        self.capture.take().unwrap_or_default()
    }
    pub fn label(&mut self, l: &'static str) {
        if self.capture.is_none() {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c && self.capture.is_none() {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial |= self.capture.is_none();
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c && self.capture.is_none();
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.capture.is_none() {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Gen) -> R,
}
pub const fn sub(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Gen) -> R) -> Sub {
    Sub { name, quick, thorough, f }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Out {
    res: R,
    tape: Vec<u64>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    sample: Option<String>,
}

fn run_case(f: fn(&mut Gen) -> R, mut g: Gen) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut g)));
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            Err(Failure { sig: "panic".into(), msg: format!("panic: {m}") })
        }
    };
    Out { res, tape: g.tape, labels: g.labels, nontrivial: g.nontrivial, sample: g.sample }
}

fn case_seed(seed: u64, prop: &str, subname: &str, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ mix(seed.wrapping_add(77));
    for b in prop.bytes().chain([0]).chain(subname.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h ^ mix(idx.wrapping_add(1)))
}

fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for &x in t {
        h = mix(h ^ x).wrapping_add(0x632be59bd9b4e019);
    }
    h
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(f: fn(&mut Gen) -> R, tape: Vec<u64>, fail: Failure) -> (Vec<u64>, Failure, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut bf = fail;
    let mut execs = 0u64;
    // Accept only failures of the same signature, so that a known or different failure is not substituted.
    let mut attempt = |best: &mut Vec<u64>, bf: &mut Failure, cand: Vec<u64>| -> bool {
        execs += 1;
        let o = run_case(f, Gen::replay(cand));
        match o.res {
            Err(e) if e.sig == bf.sig => {
                // normalise to the tape actually consumed
                let t = o.tape;
                if t.len() < best.len() || (t.len() == best.len() && t < *best) {
                    *best = t;
                    *bf = e;
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    };
    let limit = Duration::from_secs(20);
    let max = 6000;
    let mut n = 0;
    let mut progress = true;
    while progress && n < max && start.elapsed() < limit {
        progress = false;
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && n < max && start.elapsed() < limit {
                let mut c = best.clone();
                let e = (i + k).min(c.len());
                c.drain(i..e);
                n += 1;
                if attempt(&mut best, &mut bf, c) {
                    progress = true;
                } else {
                    i += k;
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && n < max && start.elapsed() < limit {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    n += 1;
                    if attempt(&mut best, &mut bf, c) {
                        progress = true;
                    }
                }
                i += k;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() && n < max && start.elapsed() < limit {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] && n < max {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                n += 1;
                if attempt(&mut best, &mut bf, c) {
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    (best, bf, execs)
}

fn verif_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// Signatures of recorded (unrepaired) findings for this property.
fn known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_root().join("known-findings.txt")) {
        for l in s.lines() {
            // known: property=C01 sig=<sig> <what>
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} sig=")) {
                let (sig, what) = r.split_once(' ').unwrap_or((r, ""));
                v.push((sig.to_string(), what.to_string()));
            }
        }
    }
    v
}

struct Slots {
    file: std::fs::File,
}

pub fn run(prop: &'static str, rule: &'static str, assumptions: &[&str], subs: &[Sub]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(prop, subs, &args[2]),
        Some("--one") => {
            let s = subs.iter().find(|s| s.name == args[2]).expect("sub");
            let idx: u64 = args[3].parse().unwrap();
            let f = s.f;
            let cs = case_seed(seed, prop, s.name, idx);
            std::thread::spawn(|| {
                for _ in 0..60 {
                    std::thread::sleep(Duration::from_secs(1));
                    if resident() > 8 << 30 {
                        break;
                    }
                }
                std::process::exit(ENDLESS)
            });
            let o = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run_case(f, Gen::random(cs))).unwrap().join().unwrap();
            std::process::exit(if o.res.is_ok() { 0 } else { 1 })
        }
        Some("--worker") => worker(prop, rule, assumptions, subs, seed, &args[2], &args[3]),
        t => {
            let tier = match t {
                Some("thorough") => "thorough",
                Some("quick") => "quick",
                _ => {
                    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }
                }
            };
            parent(prop, subs, seed, tier)
        }
    }
}

fn parent(prop: &'static str, subs: &[Sub], seed: u64, tier: &str) -> ! {
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("vh-slots-{prop}-{}", std::process::id()));
    let st = std::process::Command::new(&exe).arg("--worker").arg(tier).arg(&slots).status().unwrap();
    let code = st.code();
    let mut exit = 3;
    if let (Some(c), true) = (code, code != Some(ENDLESS)) {
        exit = c;
    } else {
        println!("worker ended with {st}");
        if code.is_some() || matches!(st.signal(), Some(4 | 6 | 7 | 9 | 11)) {
            let data = std::fs::read(&slots).unwrap_or_default();
            for ch in data.chunks_exact(16) {
                let si = u64::from_le_bytes(ch[..8].try_into().unwrap());
                let idx = u64::from_le_bytes(ch[8..].try_into().unwrap());
                if si == 0 || si as usize > subs.len() {
                    continue;
                }
                let s = &subs[si as usize - 1];
                let st1 = std::process::Command::new(&exe).arg("--one").arg(s.name).arg(idx.to_string()).stderr(std::process::Stdio::null()).status().unwrap();
                let endless = st1.code() == Some(ENDLESS);
                if endless || matches!(st1.signal(), Some(4 | 6 | 7 | 11)) {
                    let msg = if endless { "case runs without end or uses memory without end".to_string() } else { format!("case crashes the process with signal {}", st1.signal().unwrap()) };
                    let path = write_replay(prop, s.name, seed, Some(idx), &[], &msg, "");
                    evidence_crash(prop, tier, seed, s.name, idx, &msg);
                    println!("{msg}");
                    println!("VIOLATION property={prop} replay={path}");
                    exit = 1;
                    break;
                }
            }
            if exit != 1 {
                println!("ERROR: crash did not reproduce in isolation");
            }
        }
    }
    let _ = std::fs::remove_file(&slots);
    std::process::exit(exit)
}

/// Exit code of a process with a case that does not end.
const ENDLESS: i32 = 77;

/// Resident memory of this process.
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn evidence_crash(prop: &str, tier: &str, seed: u64, sub: &str, idx: u64, msg: &str) {
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":0,\"rule\":\"run ended by a crash\",\"samples\":[{}]}},\"wall_s\":0.0,\"violations\":1}}\n",
        jstr(prop), jstr(tier), idx + 1, jstr(&format!("{sub} #{idx}: {msg}"))
    );
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), s);
}

fn write_replay(prop: &str, sub: &str, seed: u64, idx: Option<u64>, tape: &[u64], msg: &str, sample: &str) -> String {
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash_tape(tape) ^ idx.unwrap_or(0) ^ case_seed(seed, prop, sub, 0);
    let path = dir.join(format!("{prop}-{sub}-{h:016x}.json"));
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "{{\"property\":{},\n\"sub\":{},\n\"seed\":{seed},\n\"index\":{},\n\"tape\":[{}],\n\"message\":{},\n\"case\":{}}}\n",
        jstr(prop), jstr(sub), idx.map(|i| i.to_string()).unwrap_or("null".into()), t.join(","), jstr(msg), jstr(sample)
    );
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

fn replay(prop: &'static str, subs: &[Sub], path: &str) -> ! {
    let s = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> &str {
        let p = s.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
        let e = s[p..].find('\n').map(|e| p + e).unwrap_or(s.len());
        s[p..e].trim_end_matches(',')
    };
    let subname = field("sub").trim_matches('"');
    let sub = subs.iter().find(|x| x.name == subname).expect("sub");
    let g = if field("index") == "null" {
        let t = field("tape").trim_matches(|c| c == '[' || c == ']');
        let tape: Vec<u64> = t.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
        Gen::replay(tape)
    } else {
        let mut g = Gen::random(case_seed(field("seed").parse().unwrap(), prop, sub.name, field("index").parse().unwrap()));
        g.want_sample = true;
        g
    };
    let f = sub.f;
    let o = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run_case(f, g)).unwrap().join().unwrap();
    if let Some(s) = &o.sample {
        println!("case: {s}");
    }
    match o.res {
        Ok(()) => {
            println!("replay passes");
            std::process::exit(0)
        }
        Err(e) => {
            println!("{}", e.msg);
            println!("VIOLATION property={prop} replay={path}");
            std::process::exit(1)
        }
    }
}

fn worker(prop: &'static str, rule: &str, assumptions: &[&str], subs: &[Sub], seed: u64, tier: &str, slots: &str) -> ! {
    let t0 = Instant::now();
    let nthreads: usize = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let only = std::env::var("VH_SUB").ok();
    let mult: f64 = std::env::var("VH_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let slots = Slots { file: std::fs::File::create(slots).unwrap() };
    let known = known(prop);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut distinct = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut violations = 0;
    let mut vlines = vec![];
    let mut persub: Vec<String> = vec![];

    let starts: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let starts: &'static [AtomicU64] = Box::leak(starts.into_boxed_slice());
    let shrinking: &'static (AtomicU64, Mutex<String>) = Box::leak(Box::new((AtomicU64::new(0), Mutex::new(String::new()))));
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = t0.elapsed().as_secs() + 1;
            for s in starts {
                let v = s.load(Relaxed);
                if v != 0 && now.saturating_sub(v) > 100 {
                    std::process::exit(ENDLESS);
                }
            }
            if resident() > 20 << 30 {
                std::process::exit(ENDLESS);
            }
            let v = shrinking.0.load(Relaxed);
            if v != 0 && now.saturating_sub(v) > 180 {
                println!("{}", shrinking.1.lock().unwrap());
                std::process::exit(1);
            }
        }
    });

    for (si, s) in subs.iter().enumerate() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = ((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * mult) as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        type Acc = (u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<(u64, String)>, BTreeMap<String, u64>, u64);
        let acc: Mutex<Acc> = Mutex::new(Default::default());
        let failed: Mutex<Option<(u64, Vec<u64>, Failure)>> = Mutex::new(None);
        let ts = Instant::now();
        std::thread::scope(|sc| {
            for ti in 0..nthreads {
                let (next, stop, acc, failed, known, slots) = (&next, &stop, &acc, &failed, &known, &slots);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let mut my: Acc = Default::default();
                        loop {
                            let idx = next.fetch_add(1, Relaxed);
                            if idx >= n || stop.load(Relaxed) {
                                break;
                            }
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = slots.file.write_at(&b, ti as u64 * 16);
                            starts[ti].store(t0.elapsed().as_secs() + 1, Relaxed);
                            let mut g = Gen::random(case_seed(seed, prop, s.name, idx));
                            g.want_sample = idx < 40;
                            let o = run_case(s.f, g);
                            my.0 += 1;
                            for l in o.labels {
                                *my.2.entry(l).or_default() += 1;
                            }
                            if o.nontrivial {
                                my.5 += 1;
                                my.1.insert(hash_tape(&o.tape));
                                if let Some(x) = o.sample {
                                    my.3.push((idx, x));
                                }
                            }
                            if let Err(e) = o.res {
                                if !e.sig.is_empty() && known.iter().any(|k| k.0 == e.sig) {
                                    *my.4.entry(e.sig).or_default() += 1;
                                } else {
                                    let mut f = failed.lock().unwrap();
                                    if f.as_ref().is_none_or(|x| idx < x.0) {
                                        *f = Some((idx, o.tape, e));
                                    }
                                    stop.store(true, Relaxed);
                                    break;
                                }
                            }
                        }
                        starts[ti].store(0, Relaxed);
                        let mut a = acc.lock().unwrap();
                        a.0 += my.0;
                        a.1.extend(my.1);
                        for (k, v) in my.2 {
                            *a.2.entry(k).or_default() += v;
                        }
                        a.3.extend(my.3);
                        for (k, v) in my.4 {
                            *a.4.entry(k).or_default() += v;
                        }
                        a.5 += my.5;
                    })
                    .unwrap();
            }
        });
        let mut a = acc.into_inner().unwrap();
        evals += a.0;
        let nd = a.1.len();
        distinct.extend(a.1.iter().map(|h| h ^ mix(si as u64 + 1)));
        for (k, v) in &a.2 {
            *labels.entry(format!("{}/{}", s.name, k)).or_default() += v;
        }
        for (k, v) in a.4 {
            *known_hit.entry(k).or_default() += v;
        }
        a.3.sort();
        for (i, x) in a.3.into_iter().take(2) {
            samples.push(format!("{} #{}: {}", s.name, i, x));
        }
        persub.push(format!("{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}}}", jstr(s.name), a.0, a.5, nd));
        eprintln!("[{prop}] {}: {} cases, {} distinct nontrivial, {:.1}s", s.name, a.0, nd, ts.elapsed().as_secs_f64());
        if std::env::var("VH_LABELS").is_ok() {
            for (k, v) in &a.2 {
                eprintln!("    {k}: {v}");
            }
        }
        if let Some((idx, tape, fail)) = failed.into_inner().unwrap() {
            violations += 1;
            println!("[{prop}/{}] case #{idx}: {}", s.name, fail.msg);
            let f = s.f;
            // Should shrinking run into a case without end, the case found is reported as it is.
            let path = write_replay(prop, s.name, seed, None, &tape, &fail.msg, "");
            *shrinking.1.lock().unwrap() = format!("VIOLATION property={prop} replay={path}");
            shrinking.0.store(t0.elapsed().as_secs() + 1, Relaxed);
            let (t, fl, ex) = std::thread::Builder::new().stack_size(8 << 20).spawn(move || shrink(f, tape, fail)).unwrap().join().unwrap();
            let o = run_case(s.f, Gen::replay(t.clone()));
            println!("[{prop}/{}] shrunk to {} draws after {} executions: {}", s.name, t.len(), ex, fl.msg);
            let sm = o.sample.unwrap_or_default();
            if !sm.is_empty() {
                println!("  case: {sm}");
            }
            shrinking.0.store(0, Relaxed);
            let _ = std::fs::remove_file(&path);
            let path = write_replay(prop, s.name, seed, None, &t, &fl.msg, &sm);
            vlines.push(format!("VIOLATION property={prop} replay={path}"));
            break;
        }
    }
    for (sig, n) in &known_hit {
        let what = known.iter().find(|k| &k.0 == sig).map(|k| k.1.as_str()).unwrap_or("");
        println!("KNOWN-FINDING: property={prop} {sig} {what} ({n} cases)");
    }
    let wall = t0.elapsed().as_secs_f64();
    let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let sam: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let asm: Vec<String> = assumptions.iter().map(|s| jstr(s)).collect();
    let ev = format!(
        "{{\"property\": {},\n\"tier\": {},\n\"seed\": {seed},\n\"level\": \"exploration\",\n\"coverage\": {{\"evaluations\": {evals},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\"sub_checks\": {{{}}},\n\"labels\": {{{}}}}},\n\"assumptions\": [{}],\n\"wall_s\": {wall:.2},\n\"violations\": {violations}}}\n",
        jstr(prop), jstr(tier), distinct.len(), jstr(rule), sam.join(",\n"), persub.join(",\n"), lab.join(", "), asm.join(", ")
    );
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), ev);
    for l in &vlines {
        println!("{l}");
    }
    println!("[{prop}] {evals} cases, {} distinct nontrivial, {violations} violations, {wall:.1}s", distinct.len());
    std::process::exit(if violations > 0 { 1 } else { 0 })
}
