//! T01: the trace buffer keeps the most recent samples.
use pbt::{ensure, ensure_eq, fail, Check, Src, R};
use std::collections::BTreeMap;
use std::sync::Arc;
use xi_trace::{chrome_trace_dump, Config, Sample, SampleEventType, SampleGuard, Trace};

type M = (String, SampleEventType, Option<String>);

fn payload(s: &Sample) -> Option<String> {
    s.args.as_ref().and_then(|a| a.payload.as_ref()).map(|p| p.to_string())
}

/// The samples of a collected trace without the leading process and thread descriptions.
pub fn body(v: &[Sample]) -> Result<Vec<Sample>, pbt::Fail> {
    let mut out = Vec::new();
    let mut meta: BTreeMap<u64, Vec<String>> = BTreeMap::new();
    for s in v {
        if s.event_type == SampleEventType::Metadata {
            ensure!(out.is_empty(), "metadata", "metadata after samples");
            if s.name == "thread_name" {
                let n = s.args.as_ref().and_then(|a| a.metadata_name.clone()).unwrap_or_default().into_owned();
                meta.entry(s.tid).or_default().push(n);
            }
        } else {
            out.push(s.clone());
        }
    }
    for s in &out {
        if let Some(n) = &s.thread_name {
            ensure!(meta.get(&s.tid).map_or(false, |v| v.iter().any(|x| x == n)), "thread-name", "no description of thread {}", n);
        }
        ensure!(s.pid == u64::from(std::process::id()), "pid", "pid {}", s.pid);
    }
    Ok(out)
}

fn compare(t: &Trace, want: &[M], limit: usize) -> R {
    ensure_eq!(t.get_samples_limit(), limit, "limit");
    ensure_eq!(t.get_samples_count(), want.len(), "count");
    let all = t.samples_cloned_unsorted();
    if want.is_empty() {
        ensure!(all.is_empty(), "empty", "an empty trace gave {} samples", all.len());
        return Ok(());
    }
    let b = body(&all)?;
    let got: Vec<M> = b.iter().map(|s| (s.name.to_string(), s.event_type, payload(s))).collect();
    ensure_eq!(got, want.to_vec(), "samples");
    for s in &b {
        ensure!(s.duration_us.is_some() == (s.event_type == SampleEventType::CompleteDuration), "duration", "{:?}", s);
    }
    let sorted = t.samples_cloned_sorted();
    ensure!(sorted.windows(2).all(|w| w[0].timestamp_us <= w[1].timestamp_us), "sorted", "not in time order");
    let key = |v: &[Sample]| {
        let mut k: Vec<String> = v.iter().map(|s| format!("{:?}", s)).collect();
        k.sort();
        k
    };
    ensure!(key(&sorted) == key(&all), "sorted", "the sorted trace has other samples");
    Ok(())
}

struct Model {
    on: bool,
    limit: usize,
    q: Vec<M>,
}
impl Model {
    fn push(&mut self, m: M) {
        self.q.push(m);
        while self.q.len() > self.limit {
            self.q.remove(0);
        }
    }
    fn limit(&mut self, n: usize) {
        self.limit = n;
        while self.q.len() > n {
            self.q.remove(0);
        }
    }
}

fn history(s: &mut Src) -> R {
    let lim = s.skew(12);
    let start_on = s.chance(3, 4);
    let t = if start_on { Trace::enabled(Config::with_limit_count(lim)) } else { Trace::disabled() };
    let mut m = Model { on: start_on, limit: if start_on { lim } else { 0 }, q: vec![] };
    let mut guards: Vec<(SampleGuard, Option<(String, Option<String>)>)> = Vec::new();
    let mut evicted = false;
    let mut changed = false;
    for i in 0..s.range(1, 60) {
        let name = format!("s{}", i);
        let pl = if s.chance(1, 3) { Some(format!("p{}", i)) } else { None };
        match s.weighted(&[10, 4, 4, 4, 1, 2, 1]) {
            0 => {
                s.log(|| format!("instant {}", name));
                match &pl {
                    None => t.instant(name.clone(), &["a", "b"]),
                    Some(p) => t.instant_payload(name.clone(), &["a"], p.clone()),
                }
                if m.on {
                    m.push((name, SampleEventType::Instant, pl));
                }
            }
            1 => {
                s.log(|| format!("begin {}", name));
                let g = match &pl {
                    None => t.block(name.clone(), &["a", "b"]),
                    Some(p) => t.block_payload(name.clone(), vec!["x".to_string()], p.clone()),
                };
                if m.on {
                    m.push((name.clone(), SampleEventType::DurationBegin, pl.clone()));
                    guards.push((g, Some((name, pl))));
                } else {
                    guards.push((g, None));
                }
            }
            2 => {
                if !guards.is_empty() {
                    let k = s.idx(guards.len());
                    let (g, e) = guards.remove(k);
                    s.log(|| format!("end {:?}", e));
                    drop(g);
                    if let Some((n, p)) = e {
                        m.push((n, SampleEventType::DurationEnd, p));
                    }
                }
            }
            3 => {
                s.log(|| format!("closure {}", name));
                let inner = format!("i{}", i);
                let nest = s.bool();
                let f = || {
                    if nest {
                        t.instant(inner.clone(), &["in"]);
                    }
                    i
                };
                let r = match &pl {
                    None => t.closure(name.clone(), &["c"], f),
                    Some(p) => t.closure_payload(name.clone(), &["c"], f, p.clone()),
                };
                ensure_eq!(r, i, "closure-result");
                if m.on {
                    if nest {
                        m.push((inner, SampleEventType::Instant, None));
                    }
                    m.push((name, SampleEventType::CompleteDuration, pl));
                }
            }
            4 => {
                s.log(|| "disable".into());
                t.disable();
                m.on = false;
                m.limit(0);
            }
            5 => {
                let n = s.skew(12);
                s.log(|| format!("enable with limit {}", n));
                t.enable_config(Config::with_limit_count(n));
                changed = changed || !m.q.is_empty();
                m.on = true;
                m.limit(n);
            }
            _ => {
                s.log(|| "enable with the default limit".into());
                t.enable();
                m.on = true;
                m.limit(Config::default().max_samples());
            }
        }
        ensure_eq!(t.is_enabled(), m.on, "enabled");
        evicted = evicted || m.q.len() == m.limit;
        compare(&t, &m.q, m.limit)?;
    }
    if evicted && changed {
        s.nontrivial();
    }
    Ok(())
}

/// Several threads record into one trace.
fn threads(s: &mut Src) -> R {
    let k = s.range(2, 4);
    let per = s.range(1, 60);
    let lim = s.range(0, k * per + 10);
    let t = Arc::new(Trace::enabled(Config::with_limit_count(lim)));
    s.log(|| format!("{} threads x {} samples, limit {}", k, per, lim));
    let hs: Vec<_> = (0..k)
        .map(|i| {
            let t = t.clone();
            std::thread::Builder::new()
                .name(format!("rec{}", i))
                .spawn(move || {
                    for j in 0..per {
                        t.instant(format!("{}:{}", i, j), &["a"]);
                        if j % 7 == 0 {
                            std::thread::yield_now();
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    // reading meanwhile never sees more than the limit
    for _ in 0..3 {
        ensure!(t.get_samples_count() <= lim, "limit", "more than {} samples", lim);
    }
    for h in hs {
        if h.join().is_err() {
            return fail("thread-panic", "recording panicked");
        }
    }
    let b = body(&t.samples_cloned_unsorted())?;
    ensure_eq!(b.len(), lim.min(k * per), "count");
    for i in 0..k {
        let pre = format!("{}:", i);
        let got: Vec<usize> = b.iter().filter(|x| x.name.starts_with(&pre)).map(|x| x.name[pre.len()..].parse().unwrap()).collect();
        let want: Vec<usize> = (per - got.len()..per).collect();
        ensure_eq!(got, want, "thread-samples", "thread {}", i);
        ensure!(b.iter().filter(|x| x.name.starts_with(&pre)).all(|x| x.thread_name.as_ref().map(|n| n.to_string()) == Some(format!("rec{}", i))), "thread-name", "thread {}", i);
    }
    if lim > 0 && lim < k * per {
        s.nontrivial();
    }
    Ok(())
}

fn limits(s: &mut Src) -> R {
    let n = s.skew(100_000);
    let c = Config::with_limit_bytes(n);
    ensure!(c.max_size_in_bytes() <= n, "limit-bytes", "{} bytes for a limit of {}", c.max_size_in_bytes(), n);
    ensure!(n - c.max_size_in_bytes() < std::mem::size_of::<Sample>(), "limit-bytes", "limit of {} not used", n);
    let c = Config::with_limit_count(n);
    ensure_eq!(c.max_samples(), n, "limit-count");
    ensure_eq!(c.max_size_in_bytes(), n * std::mem::size_of::<Sample>(), "limit-count");
    // a saved trace holds the samples of that trace, and no file is overwritten
    let lim = s.range(1, 6);
    let t = Trace::enabled(Config::with_limit_count(lim));
    for i in 0..s.range(0, 9) {
        t.instant_payload(format!("n{}", i), &["x", "y"], format!("p{}", i));
    }
    let dir = std::env::temp_dir().join(format!("t01-{}-{:?}", std::process::id(), std::thread::current().id()));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join("trace.json");
    let _ = std::fs::remove_file(&path);
    let sort = s.bool();
    let want = t.samples_cloned_unsorted();
    let exists = s.chance(1, 4);
    if exists {
        std::fs::write(&path, b"mine").unwrap();
    }
    let r = t.save(&path, sort);
    let bytes = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    if exists {
        ensure!(r.is_err() && bytes == b"mine", "overwrite", "an existing file was overwritten");
        return Ok(());
    }
    if want.len() > lim {
        s.nontrivial();
    }
    if let Err(e) = r {
        return fail("save", format!("{:?}", e));
    }
    let got = match chrome_trace_dump::deserialize(&bytes[..]) {
        Ok(g) => g,
        Err(e) => return fail("saved", format!("{:?}", e)),
    };
    ensure_eq!(got.len(), want.len(), "saved");
    let key = |v: &[Sample]| {
        let mut k: Vec<(u64, String, Option<String>)> = v.iter().map(|s| (s.timestamp_us, s.name.to_string(), payload(s))).collect();
        k.sort();
        k
    };
    ensure_eq!(key(&got), key(&want), "saved");
    Ok(())
}

pub fn check() -> Check {
    Check::new("T01", "the buffer was full and its limit was changed while it held samples; or fewer places than samples")
        .arm("history", 6_000, 300_000, history)
        .arm("threads", 1_500, 50_000, threads)
        .arm("limits", 3_000, 100_000, limits)
}
