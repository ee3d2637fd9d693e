//! A small property-based testing engine.
//!
//! A test case is a sequence of bounded integer choices.  Choices come from a
//! PRNG (seeded from VERIF_SEED, the property, the arm and the case number) or
//! from a recorded sequence (replay / shrinking).  Failures are shrunk on the
//! choice sequence.  The process is split into a supervising parent and a
//! working child so that memory faults and aborts are attributed to a case.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($a)*) }); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail { sig: ($sig).to_string(),
            msg: format!("{}: got {} expected {}", $sig, $crate::trunc(&format!("{:?}", a), 1500), $crate::trunc(&format!("{:?}", b), 1500)) }); }
    }};
    ($a:expr, $b:expr, $sig:expr, $($x:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail { sig: ($sig).to_string(),
            msg: format!("{}: {}: got {} expected {}", $sig, format!($($x)*), $crate::trunc(&format!("{:?}", a), 1500), $crate::trunc(&format!("{:?}", b), 1500)) }); }
    }};
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let t: String = s.chars().take(n).collect();
    format!("{}…({} chars)", t, s.chars().count())
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

fn hash_choices(v: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in v {
        h = (h ^ b).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}

enum Mode {
    Gen(Rng),
    Replay(Vec<u64>),
}

/// The source of every random decision of one case.
pub struct Src {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    pub logging: bool,
    pub log: Vec<String>,
    nontrivial: bool,
    labels: Vec<&'static str>,
    pub thorough: bool,
}

impl Src {
    pub fn gen(seed: u64) -> Src {
        Src {
            mode: Mode::Gen(Rng::new(seed)),
            pos: 0,
            rec: Vec::new(),
            logging: false,
            log: Vec::new(),
            nontrivial: false,
            labels: Vec::new(),
            thorough: false,
        }
    }
    pub fn replay(c: Vec<u64>) -> Src {
        let mut s = Src::gen(0);
        s.mode = Mode::Replay(c);
        s
    }
    /// 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Gen(r) => ((u128::from(r.next()) * u128::from(n)) >> 64) as u64,
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // shrinks to false
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn u64(&mut self) -> u64 {
        let b = self.below(65);
        if b == 0 {
            0
        } else if b == 64 {
            self.below(u64::max_value())
        } else {
            self.below(1u64 << b)
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut v = self.below(u64::from(tot)) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
    /// mostly small, sometimes up to max (inclusive)
    pub fn skew(&mut self, max: usize) -> usize {
        let k = self.below(4);
        let m = match k {
            0 => max.min(3),
            1 => max.min(12),
            2 => max.min(max / 8 + 1),
            _ => max,
        };
        self.range(0, m)
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = f();
            self.log.push(trunc(&s, 2000));
        }
    }
    pub fn in_replay(&self) -> bool {
        match self.mode {
            Mode::Replay(_) => true,
            _ => false,
        }
    }
    /// A PRNG seed drawn once, for bulk data where individual shrinking is not useful.
    pub fn bulk_rng(&mut self) -> Rng {
        let s = self.below(1 << 32);
        Rng::new(s)
    }
}

pub struct Arm {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src) -> R,
}

pub struct Known {
    /// key that must be listed in known_findings.json
    pub key: &'static str,
    pub what: &'static str,
    /// Err if the defect is present
    pub f: fn() -> R,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub arms: Vec<Arm>,
    pub known: Vec<Known>,
    pub threads: usize,
    pub deadline_s: u64,
    pub hang_is_violation: bool,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Check {
        Check {
            id,
            rule,
            arms: Vec::new(),
            known: Vec::new(),
            threads: 8,
            deadline_s: 60,
            hang_is_violation: true,
            level: "exploration",
            assumptions: Vec::new(),
        }
    }
    pub fn arm(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: fn(&mut Src) -> R,
    ) -> Check {
        self.arms.push(Arm {
            name,
            quick,
            thorough,
            f,
        });
        self
    }
    pub fn known(mut self, key: &'static str, what: &'static str, f: fn() -> R) -> Check {
        self.known.push(Known { key, what, f });
        self
    }
    pub fn threads(mut self, n: usize) -> Check {
        self.threads = n;
        self
    }
    pub fn deadline(mut self, s: u64) -> Check {
        self.deadline_s = s;
        self
    }
    pub fn hang_error(mut self) -> Check {
        self.hang_is_violation = false;
        self
    }
    pub fn level(mut self, l: &'static str) -> Check {
        self.level = l;
        self
    }
    pub fn assume(mut self, a: &'static str) -> Check {
        self.assumptions.push(a);
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static IS_WORKER: RefCell<bool> = RefCell::new(false);
}
static WANT_FRAME: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static FOREIGN: Mutex<Vec<(std::thread::ThreadId, String)>> = Mutex::new(Vec::new());

/// Panics that happened on threads not owned by the engine since the last call.
pub fn take_foreign_panics() -> Vec<(std::thread::ThreadId, String)> {
    std::mem::replace(
        &mut *FOREIGN.lock().unwrap_or_else(|e| e.into_inner()),
        Vec::new(),
    )
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let mut loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if WANT_FRAME.load(std::sync::atomic::Ordering::Relaxed) && !loc.contains("/repo/") {
            // the panic was raised in a library: name the caller in the code under test
            let bt = format!("{}", std::backtrace::Backtrace::force_capture());
            if let Some(l) = bt
                .lines()
                .map(str::trim)
                .find(|l| l.starts_with("at /repo/"))
            {
                loc = l[3..].rsplitn(2, ':').nth(1).unwrap_or(&l[3..]).to_string();
            }
        }
        if std::env::var("PBT_BT").is_ok() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        let worker = IS_WORKER.try_with(|w| *w.borrow()).unwrap_or(false);
        if !worker {
            FOREIGN
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push((std::thread::current().id(), format!("{} at {}", msg, loc)));
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Take the description of the last panic caught on this thread.
pub fn last_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default()
}

fn digits_out(s: &str) -> String {
    let mut o = String::new();
    let mut d = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !d {
                o.push('#');
            }
            d = true;
        } else {
            d = false;
            o.push(c);
        }
    }
    o
}

pub fn panic_fail(m: &str, loc: &str) -> Fail {
    let file = loc.rsplitn(2, ':').nth(1).unwrap_or(loc);
    let file = match file.find("/rust/") {
        Some(i) => &file[i + 1..],
        None => file,
    };
    Fail {
        sig: format!("panic:{}:{}", file, trunc(&digits_out(m), 80)),
        msg: format!("panic at {}: {}", loc, trunc(m, 800)),
    }
}

fn run_case(f: fn(&mut Src) -> R, src: &mut Src) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(src))) {
        Ok(r) => r,
        Err(_) => {
            let (m, l) = last_panic();
            Err(panic_fail(&m, &l))
        }
    }
}

fn shrink(f: fn(&mut Src) -> R, start: Vec<u64>, orig: &Fail, thorough: bool) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(25);
    let mut best = start;
    let mut bf = orig.clone();
    let mut execs = 0;
    let is_known = orig.sig.starts_with("known:");
    let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail| -> bool {
        if execs > 20000 || t0.elapsed() > budget {
            return false;
        }
        execs += 1;
        let mut s = Src::replay(c);
        s.thorough = thorough;
        if let Err(e) = run_case(f, &mut s) {
            if e.sig.starts_with("known:") != is_known {
                return false;
            }
            // strictly simpler: shorter or lexicographically smaller
            if s.rec.len() < best.len() || (s.rec.len() == best.len() && s.rec < *best) {
                *best = s.rec;
                *bf = e;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if lo >= best.len() {
                    i = best.len();
                    if i == 0 {
                        break;
                    }
                    continue;
                }
                let mut c = best[..lo].to_vec();
                c.extend_from_slice(&best[i.min(best.len())..]);
                if attempt(c, &mut best, &mut bf) {
                    i = i.min(best.len());
                } else {
                    i = lo;
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero / minimise values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut bf) {
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    let mut n = 0;
                    while lo + 1 < hi && n < 40 {
                        n += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt(c, &mut best, &mut bf) {
                            hi = best.get(i).copied().unwrap_or(0).min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                    // decrement by one, and decrement a value while deleting the next (list lengths)
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        if !attempt(c.clone(), &mut best, &mut bf) {
                            for d in 1..6 {
                                if i + 1 + d <= c.len() {
                                    let mut c2 = c.clone();
                                    c2.drain(i + 1..i + 1 + d);
                                    if attempt(c2, &mut best, &mut bf) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
            if t0.elapsed() > budget {
                break;
            }
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    (best, bf)
}

fn rendered(f: fn(&mut Src) -> R, choices: &[u64], thorough: bool) -> (Vec<String>, Option<Fail>) {
    let mut s = Src::replay(choices.to_vec());
    s.logging = true;
    s.thorough = thorough;
    WANT_FRAME.store(true, std::sync::atomic::Ordering::Relaxed);
    let r = run_case(f, &mut s);
    WANT_FRAME.store(false, std::sync::atomic::Ordering::Relaxed);
    (s.log, r.err())
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

struct Known2 {
    keys: HashSet<String>,
}

fn load_known(id: &str) -> Known2 {
    let mut keys = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.json")) {
        if let Ok(v) = serde_json::from_str::<Value>(&t) {
            if let Some(a) = v["known"].as_array() {
                for e in a {
                    if e["property"] == json!(id) {
                        if let Some(k) = e["key"].as_str() {
                            keys.insert(k.to_string());
                        }
                    }
                }
            }
        }
    }
    Known2 { keys }
}

struct State {
    path: String,
}
impl State {
    fn set(&self, w: usize, arm: u64, case: u64) {
        use std::os::unix::fs::FileExt;
        if self.path.is_empty() {
            return;
        }
        thread_local!(static F: RefCell<Option<std::fs::File>> = RefCell::new(None));
        F.with(|f| {
            let mut f = f.borrow_mut();
            if f.is_none() {
                *f = std::fs::OpenOptions::new()
                    .write(true)
                    .open(&self.path)
                    .ok();
            }
            if let Some(f) = &*f {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&arm.to_le_bytes());
                b[8..].copy_from_slice(&case.to_le_bytes());
                let _ = f.write_at(&b, (w * 16) as u64);
            }
        });
    }
}

fn case_seed(seed: u64, id: &str, arm: &str, case: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(id).rotate_left(17) ^ hash_str(arm).rotate_left(31));
    let a = r.next();
    a ^ case.wrapping_mul(0x2545_F491_4F6C_DD1D)
}

struct Env {
    seed: u64,
    tier: String,
    thorough: bool,
}
fn env() -> Env {
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    Env {
        seed,
        tier: if thorough {
            "thorough".into()
        } else {
            "quick".into()
        },
        thorough,
    }
}

fn write_replay(
    id: &str,
    arm: &str,
    e: &Env,
    case: u64,
    choices: &[u64],
    f: &Fail,
    log: &[String],
) -> String {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.replay.json", id));
    let v = json!({"property": id, "arm": arm, "seed": e.seed, "tier": e.tier, "case": case,
        "choices": choices, "sig": f.sig, "message": f.msg, "steps": log,
        "how": format!("./run.sh {} --replay {}", id, p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p.display().to_string()
}

fn write_evidence(c: &Check, e: &Env, cov: Value, wall: f64, violations: u64) {
    let v = json!({"property": c.id, "tier": e.tier, "seed": e.seed, "level": c.level,
        "coverage": cov, "wall_s": wall, "violations": violations, "assumptions": c.assumptions});
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", c.id)),
        serde_json::to_string_pretty(&v).unwrap(),
    );
}

/// author's aid: all failures of N cases per arm, grouped by signature
fn survey(c: &Check, n: u64) {
    use std::collections::BTreeMap;
    let e = env();
    for arm in &c.arms {
        if let Ok(a) = std::env::var("PBT_ARM") {
            if a != arm.name {
                continue;
            }
        }
        type Found = BTreeMap<String, (u64, u64, Vec<u64>, Fail)>;
        let found: std::sync::Arc<Mutex<Found>> = Default::default();
        let busy: std::sync::Arc<Mutex<Vec<Option<(u64, Instant)>>>> =
            std::sync::Arc::new(Mutex::new(vec![Some((0, Instant::now())); 8]));
        let next = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
        WANT_FRAME.store(true, std::sync::atomic::Ordering::Relaxed);
        let (seed, id, name, f) = (e.seed, c.id, arm.name, arm.f);
        for th in 0..8 {
            let (found, busy, next) = (found.clone(), busy.clone(), next.clone());
            let _ = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    IS_WORKER.with(|w| *w.borrow_mut() = true);
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        busy.lock().unwrap()[th] = Some((i, Instant::now()));
                        let mut s = Src::gen(case_seed(seed, id, name, i));
                        if let Err(f) = run_case(f, &mut s) {
                            let mut m = found.lock().unwrap();
                            let k = if f.sig.starts_with("panic") {
                                format!(
                                    "{} {}",
                                    f.msg.split(": ").next().unwrap(),
                                    f.sig.split(';').next().unwrap()
                                )
                            } else {
                                f.sig.clone()
                            };
                            let en = m.entry(k).or_insert((0, i, s.rec.clone(), f.clone()));
                            en.0 += 1;
                            if s.rec.len() < en.2.len() {
                                *en = (en.0, i, s.rec.clone(), f);
                            }
                        }
                    }
                    busy.lock().unwrap()[th] = None;
                });
        }
        loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let b = busy.lock().unwrap();
            if b.iter()
                .all(|x| x.map(|x| x.1.elapsed().as_secs() > 20).unwrap_or(true))
            {
                for x in b.iter().flatten() {
                    println!("=== {} STUCK case {}", arm.name, x.0);
                }
                break;
            }
        }
        let found: Found = found.lock().unwrap().clone();
        for (k, (count, case, rec, f)) in found {
            println!("=== {} x{} (case {}) {}", arm.name, count, case, k);
            // shrink keeping the signature
            let mut best = rec;
            let t0 = Instant::now();
            WANT_FRAME.store(false, std::sync::atomic::Ordering::Relaxed);
            let mut k2 = best.len() / 2;
            let fits = |v: &Vec<u64>| {
                let mut s = Src::replay(v.clone());
                match run_case(arm.f, &mut s) {
                    Err(g)
                        if g.sig == f.sig
                            || f.sig.starts_with("panic")
                                && g.sig.starts_with("panic")
                                && g.msg.rsplit(':').next() == f.msg.rsplit(':').next() =>
                    {
                        Some(s.rec)
                    }
                    _ => None,
                }
            };
            loop {
                let before = best.len();
                while k2 >= 1 {
                    let mut i = best.len();
                    while i > 0 && t0.elapsed().as_secs() < 8 {
                        let lo = i.saturating_sub(k2);
                        let mut v = best[..lo.min(best.len())].to_vec();
                        v.extend_from_slice(&best[i.min(best.len())..]);
                        if let Some(r) = fits(&v) {
                            if r.len() < best.len() {
                                best = r;
                            }
                        }
                        i = lo;
                    }
                    k2 /= 2;
                }
                for i in 0..best.len() {
                    if t0.elapsed().as_secs() < 10 && i < best.len() && best[i] > 0 {
                        let mut v = best.clone();
                        v[i] = 0;
                        if let Some(r) = fits(&v) {
                            if r.len() <= best.len() {
                                best = r;
                            }
                        }
                    }
                }
                if best.len() == before || t0.elapsed().as_secs() > 10 {
                    break;
                }
                k2 = 4;
            }
            let (log, g) = rendered(arm.f, &best, false);
            for l in log.iter() {
                println!("  | {}", trunc(l, 300));
            }
            println!("  -> {}", trunc(&g.map(|g| g.msg).unwrap_or_default(), 500));
        }
    }
}

/// Entry point of every harness binary.
pub fn main(checks: Vec<Check>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        for c in &checks {
            println!("{}", c.id);
        }
        std::process::exit(2);
    }
    let id = args[0].clone();
    let c = match checks.into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no such check {}", id);
            std::process::exit(2)
        }
    };
    install_hook();
    if let Some(n) = std::env::var("PBT_SURVEY")
        .ok()
        .and_then(|s| s.parse().ok())
    {
        IS_WORKER.with(|w| *w.borrow_mut() = true);
        survey(&c, n);
        std::process::exit(2);
    }
    if args.get(1).map(String::as_str) == Some("--replay") {
        std::process::exit(replay(&c, &args[2]));
    }
    if args.get(1).map(String::as_str) == Some("--one") {
        let e = env();
        let arm: usize = args[2].parse().unwrap();
        let case: u64 = args[3].parse().unwrap();
        let a = &c.arms[arm];
        IS_WORKER.with(|w| *w.borrow_mut() = true);
        let mut s = Src::gen(case_seed(e.seed, c.id, a.name, case));
        s.thorough = e.thorough;
        let f = a.f;
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                IS_WORKER.with(|w| *w.borrow_mut() = true);
                let r = run_case(f, &mut s);
                if let Err(f) = r {
                    println!("{} {}", f.sig, f.msg);
                }
            });
        let _ = h.unwrap().join();
        std::process::exit(0);
    }
    if std::env::var("PBT_CHILD").is_ok() || std::env::var("PBT_NOFORK").is_ok() {
        std::process::exit(child(&c));
    }
    std::process::exit(parent(&c));
}

fn replay(c: &Check, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("json");
    let arm = v["arm"].as_str().unwrap_or("").to_string();
    let thorough = v["tier"] == json!("thorough");
    let a = match c.arms.iter().find(|a| a.name == arm) {
        Some(a) => a,
        None => {
            for k in &c.known {
                if k.key == arm {
                    println!("{:?}", (k.f)());
                }
            }
            return 0;
        }
    };
    let f = a.f;
    let choices: Option<Vec<u64>> = v["choices"]
        .as_array()
        .map(|x| x.iter().map(|y| y.as_u64().unwrap_or(0)).collect());
    let mut s = match choices {
        Some(ch) if !ch.is_empty() => Src::replay(ch),
        _ => Src::gen(case_seed(
            v["seed"].as_u64().unwrap_or(1),
            c.id,
            a.name,
            v["case"].as_u64().unwrap_or(0),
        )),
    };
    s.logging = true;
    s.thorough = thorough;
    let file = file.to_string();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            IS_WORKER.with(|w| *w.borrow_mut() = true);
            let r = run_case(f, &mut s);
            for l in &s.log {
                println!("  {}", l);
            }
            r
        })
        .unwrap();
    match h.join().unwrap() {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(f) => {
            println!("{}: {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", c.id, file);
            1
        }
    }
}

fn parent(c: &Check) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let e = env();
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    // stale results must not survive
    let _ = std::fs::remove_file(dir.join(format!("{}.json", c.id)));
    let _ = std::fs::remove_file(dir.join(format!("{}.replay.json", c.id)));
    let state = std::env::temp_dir().join(format!("pbt-{}-{}.state", c.id, std::process::id()));
    std::fs::write(&state, vec![0xffu8; 64 * 16]).expect("state file");
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe)
        .arg(c.id)
        .env("PBT_CHILD", "1")
        .env("PBT_STATE", &state)
        .status();
    let bytes = std::fs::read(&state).unwrap_or_default();
    let _ = std::fs::remove_file(&state);
    let st = match st {
        Ok(s) => s,
        Err(x) => {
            eprintln!("cannot start worker: {}", x);
            return 2;
        }
    };
    if let Some(code) = st.code() {
        return code;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("worker process died with signal {}", sig);
    if ![4, 5, 6, 7, 8, 11].contains(&sig) {
        return 2;
    }
    for w in 0..64 {
        let b = &bytes[w * 16..w * 16 + 16];
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[..8]);
        let arm = u64::from_le_bytes(x);
        x.copy_from_slice(&b[8..]);
        let case = u64::from_le_bytes(x);
        if arm as usize >= c.arms.len() {
            continue;
        }
        let st = std::process::Command::new(&exe)
            .args(&[c.id, "--one", &arm.to_string(), &case.to_string()])
            .status();
        if let Ok(st) = st {
            if let Some(s2) = st.signal() {
                if [4, 5, 6, 7, 8, 11].contains(&s2) {
                    let f = Fail {
                        sig: format!("signal:{}", s2),
                        msg: format!(
                            "the process was killed by signal {} in case {} of {}",
                            s2, case, c.arms[arm as usize].name
                        ),
                    };
                    println!("{}: {}", f.sig, f.msg);
                    let p = write_replay(c.id, c.arms[arm as usize].name, &e, case, &[], &f, &[]);
                    write_evidence(
                        c,
                        &e,
                        json!({"evaluations": case, "distinct_nontrivial": 0, "rule": c.rule, "samples": [f.msg]}),
                        t0.elapsed().as_secs_f64(),
                        1,
                    );
                    println!("VIOLATION property={} replay={}", c.id, p);
                    return 1;
                }
            }
        }
    }
    eprintln!("the crash could not be attributed to a case");
    2
}

fn child(c: &Check) -> i32 {
    let t0 = Instant::now();
    let e = env();
    let known = load_known(c.id);
    let state = Arc::new(State {
        path: std::env::var("PBT_STATE").unwrap_or_default(),
    });
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_arm: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(String, String)> = None;

    // listed findings and regression histories
    for k in &c.known {
        IS_WORKER.with(|w| *w.borrow_mut() = true);
        let r = match catch_unwind(AssertUnwindSafe(|| (k.f)())) {
            Ok(r) => r,
            Err(_) => {
                let (m, l) = last_panic();
                Err(panic_fail(&m, &l))
            }
        };
        IS_WORKER.with(|w| *w.borrow_mut() = false);
        evals += 1;
        if let Err(f) = r {
            if known.keys.contains(k.key) {
                println!("KNOWN-FINDING: property={} {}: {}", c.id, k.key, k.what);
                *known_hits.entry(k.key.to_string()).or_insert(0) += 1;
            } else {
                println!("{}: {} ({})", k.key, f.msg, f.sig);
                let p = write_replay(c.id, k.key, &e, 0, &[], &f, &[k.what.to_string()]);
                violation = Some((k.key.to_string(), p));
                break;
            }
        }
    }

    let scale: f64 = std::env::var("PBT_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("PBT_ARM").ok();
    let nthreads = std::env::var("PBT_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(c.threads)
        .min(60)
        .max(1);
    for (ai, a) in c.arms.iter().enumerate() {
        if violation.is_some() {
            break;
        }
        if let Some(o) = &only {
            if o != a.name {
                continue;
            }
        }
        let base = if e.thorough { a.thorough } else { a.quick };
        let n = if base == 0 {
            0
        } else {
            ((base as f64 * scale) as u64).max(1)
        };
        let next = Arc::new(AtomicU64::new(0));
        let stop_at = Arc::new(AtomicU64::new(u64::max_value()));
        // (case, choices, fail)
        let fails: Arc<Mutex<Vec<(u64, Vec<u64>, Fail)>>> = Arc::new(Mutex::new(Vec::new()));
        let started: Arc<Vec<Mutex<Option<(u64, Instant)>>>> =
            Arc::new((0..nthreads).map(|_| Mutex::new(None)).collect());
        let done = Arc::new(AtomicBool::new(false));
        let knownset: Arc<HashSet<String>> = Arc::new(known.keys.clone());
        let kh: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
        let mut hs = Vec::new();
        for w in 0..nthreads {
            let (next, stop_at, fails, started, state, knownset, kh) = (
                next.clone(),
                stop_at.clone(),
                fails.clone(),
                started.clone(),
                state.clone(),
                knownset.clone(),
                kh.clone(),
            );
            let f = a.f;
            let (id, name, seed, thorough) = (c.id, a.name, e.seed, e.thorough);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        IS_WORKER.with(|w| *w.borrow_mut() = true);
                        let mut nt: Vec<(u64, u64)> = Vec::new();
                        let mut lab: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut cnt = 0u64;
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > stop_at.load(Ordering::SeqCst) {
                                break;
                            }
                            state.set(w, ai as u64, i);
                            *started[w].lock().unwrap() = Some((i, Instant::now()));
                            let mut s = Src::gen(case_seed(seed, id, name, i));
                            s.thorough = thorough;
                            let r = run_case(f, &mut s);
                            *started[w].lock().unwrap() = None;
                            cnt += 1;
                            for l in &s.labels {
                                *lab.entry(l).or_insert(0) += 1;
                            }
                            match r {
                                Ok(()) => {
                                    if s.nontrivial {
                                        nt.push((i, hash_choices(&s.rec)));
                                    }
                                }
                                Err(fl) => {
                                    if fl.sig.starts_with("known:")
                                        && knownset.contains(&fl.sig[6..])
                                    {
                                        *kh.lock()
                                            .unwrap()
                                            .entry(fl.sig[6..].to_string())
                                            .or_insert(0) += 1;
                                    } else {
                                        stop_at.fetch_min(i, Ordering::SeqCst);
                                        fails.lock().unwrap().push((i, s.rec.clone(), fl));
                                    }
                                }
                            }
                        }
                        state.set(w, u64::max_value(), 0);
                        (nt, lab, cnt)
                    })
                    .unwrap(),
            );
        }
        // watchdog
        let wd = {
            let (started, done) = (started.clone(), done.clone());
            let (id, name, limit, hv) = (c.id, a.name, c.deadline_s, c.hang_is_violation);
            let e2 = env();
            std::thread::spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    for s in started.iter() {
                        let st = *s.lock().unwrap();
                        if let Some((case, t)) = st {
                            if t.elapsed() > Duration::from_secs(limit) {
                                let f = Fail {
                                    sig: "hang".into(),
                                    msg: format!(
                                        "case {} of {} did not finish in {} s",
                                        case, name, limit
                                    ),
                                };
                                println!("{}: {}", f.sig, f.msg);
                                if hv {
                                    let p = write_replay(id, name, &e2, case, &[], &f, &[]);
                                    println!("VIOLATION property={} replay={}", id, p);
                                    let dir = verif_dir().join("evidence");
                                    let v = json!({"property": id, "tier": e2.tier, "seed": e2.seed, "level": "exploration",
                                        "coverage": {"evaluations": case, "distinct_nontrivial": 0, "rule": "stopped by a hang", "samples": [f.msg]},
                                        "wall_s": limit as f64, "violations": 1});
                                    let _ = std::fs::write(
                                        dir.join(format!("{}.json", id)),
                                        v.to_string(),
                                    );
                                    std::process::exit(1);
                                }
                                std::process::exit(2);
                            }
                        }
                    }
                }
            })
        };
        let mut sample_cases: Vec<u64> = Vec::new();
        let mut arm_nt = 0u64;
        for h in hs {
            let (nt, lab, cnt) = h.join().expect("worker");
            evals += cnt;
            *per_arm.entry(a.name.to_string()).or_insert(0) += cnt;
            for (i, hsh) in nt {
                if distinct.insert(hsh ^ (ai as u64).wrapping_mul(0x9E3779B97F4A7C15)) {
                    arm_nt += 1;
                }
                sample_cases.push(i);
            }
            for (k, v) in lab {
                *labels.entry(format!("{}:{}", a.name, k)).or_insert(0) += v;
            }
        }
        done.store(true, Ordering::SeqCst);
        let _ = wd.join();
        for (k, v) in kh.lock().unwrap().iter() {
            *known_hits.entry(k.clone()).or_insert(0) += v;
        }
        *labels.entry(format!("{}:nontrivial", a.name)).or_insert(0) += arm_nt;
        sample_cases.sort();
        IS_WORKER.with(|w| *w.borrow_mut() = true);
        for i in sample_cases.iter().take(2) {
            let mut s = Src::gen(case_seed(e.seed, c.id, a.name, *i));
            s.logging = true;
            s.thorough = e.thorough;
            let f = a.f;
            let log = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    IS_WORKER.with(|w| *w.borrow_mut() = true);
                    let _ = run_case(f, &mut s);
                    s.log
                })
                .unwrap()
                .join()
                .unwrap_or_default();
            let log: Vec<String> = log.iter().take(40).map(|l| trunc(l, 400)).collect();
            samples.push(json!({"arm": a.name, "case": i, "steps": log}));
        }
        IS_WORKER.with(|w| *w.borrow_mut() = false);
        let mut fl = std::mem::replace(&mut *fails.lock().unwrap(), Vec::new());
        fl.sort_by_key(|x| x.0);
        if let Some((case, choices, f)) = fl.into_iter().next() {
            let func = a.f;
            let thorough = e.thorough;
            let ch = choices.clone();
            let f0 = f.clone();
            state.set(0, ai as u64, case);
            let (best, bf) = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    IS_WORKER.with(|w| *w.borrow_mut() = true);
                    shrink(func, ch, &f0, thorough)
                })
                .unwrap()
                .join()
                .unwrap_or((choices, f));
            let b2 = best.clone();
            let (log, f2) = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    IS_WORKER.with(|w| *w.borrow_mut() = true);
                    rendered(func, &b2, thorough)
                })
                .unwrap()
                .join()
                .unwrap();
            let f = f2.unwrap_or(bf);
            println!(
                "case {} of {}/{}: {}\n  {}",
                case, c.id, a.name, f.sig, f.msg
            );
            for l in log.iter().take(60) {
                println!("  | {}", trunc(l, 600));
            }
            let p = write_replay(c.id, a.name, &e, case, &best, &f, &log);
            violation = Some((f.sig, p));
        }
    }
    for (k, v) in &known_hits {
        *labels.entry(format!("known-finding:{}", k)).or_insert(0) += v;
    }
    let wall = t0.elapsed().as_secs_f64();
    if samples.is_empty() {
        samples.push(json!("none"));
    }
    write_evidence(
        c,
        &e,
        json!({"evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": c.rule,
            "samples": samples, "cases_per_arm": per_arm, "labels": labels}),
        wall,
        if violation.is_some() { 1 } else { 0 },
    );
    println!(
        "{} {} seed={} cases={} distinct_nontrivial={} wall={:.1}s",
        c.id,
        e.tier,
        e.seed,
        evals,
        distinct.len(),
        wall
    );
    match violation {
        Some((_, p)) => {
            println!("VIOLATION property={} replay={}", c.id, p);
            1
        }
        None => 0,
    }
}
