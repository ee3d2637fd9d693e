//! T02: exported traces read back as the same samples.
use crate::jsongen as jg;
use pbt::{ensure, ensure_eq, fail, Check, Fail, Src, R};
use serde_json::Value;
use std::borrow::Cow;
use xi_trace::chrome_trace_dump::{decode, deserialize, serialize, to_value};
use xi_trace::{CategoriesT, Sample, SampleArgs, SampleEventType};

pub const PHASES: [(SampleEventType, &str); 14] = [
    (SampleEventType::DurationBegin, "B"),
    (SampleEventType::DurationEnd, "E"),
    (SampleEventType::CompleteDuration, "X"),
    (SampleEventType::Instant, "i"),
    (SampleEventType::AsyncStart, "b"),
    (SampleEventType::AsyncInstant, "n"),
    (SampleEventType::AsyncEnd, "e"),
    (SampleEventType::FlowStart, "s"),
    (SampleEventType::FlowInstant, "t"),
    (SampleEventType::FlowEnd, "f"),
    (SampleEventType::ObjectCreated, "N"),
    (SampleEventType::ObjectSnapshot, "O"),
    (SampleEventType::ObjectDestroyed, "D"),
    (SampleEventType::Metadata, "M"),
];

fn sample(s: &mut Src) -> Sample {
    let cats = match s.below(5) {
        0 => None,
        1 => Some(CategoriesT::StaticArray(&["rpc", "response"])),
        2 => Some(CategoriesT::StaticArray(&[])),
        _ => {
            // names may hold anything but the separator; a single empty name is the same as none
            let mut v: Vec<String> = (0..s.range(0, 4)).map(|_| jg::string(s).replace(',', ";")).collect();
            if v == vec![String::new()] {
                v.clear();
            }
            Some(CategoriesT::DynamicArray(v))
        }
    };
    Sample {
        name: Cow::Owned(jg::string(s)),
        categories: cats,
        timestamp_us: s.u64(),
        event_type: s.pick(&PHASES).0,
        duration_us: if s.bool() { Some(s.u64()) } else { None },
        pid: s.u64(),
        tid: s.u64(),
        thread_name: if s.bool() { Some(Cow::Owned(jg::string(s))) } else { None },
        args: if s.chance(3, 4) {
            Some(SampleArgs {
                payload: if s.bool() { Some(Cow::Owned(jg::string(s))) } else { None },
                metadata_name: if s.bool() { Some(Cow::Owned(jg::string(s))) } else { None },
                metadata_sort_index: if s.bool() { Some(s.irange(-(1 << 31), (1 << 31) - 1) as i32) } else { None },
            })
        } else {
            None
        },
    }
}

fn cats(c: &Option<CategoriesT>) -> Option<Vec<String>> {
    c.as_ref().map(|c| match c {
        CategoriesT::StaticArray(a) => a.iter().map(|x| x.to_string()).collect(),
        CategoriesT::DynamicArray(v) => v.clone(),
    })
}

fn same(a: &[Sample], b: &[Sample], sig: &str) -> R {
    ensure!(a.len() == b.len(), sig, "{} samples read, {} written", a.len(), b.len());
    for (a, b) in a.iter().zip(b) {
        let k = |x: &Sample| {
            (x.name.to_string(), cats(&x.categories), x.timestamp_us, x.event_type, x.duration_us, x.pid, x.tid, x.args.clone())
        };
        ensure!(k(a) == k(b), sig, "read {:?} written {:?}", a, b);
        ensure!(a == b, "eq", "equal samples differ: {:?}", a);
    }
    Ok(())
}

fn err(sig: &str) -> impl Fn(xi_trace::chrome_trace_dump::Error) -> Fail + '_ {
    move |e| Fail { sig: sig.to_string(), msg: format!("{:?}", e) }
}

fn round(s: &mut Src) -> R {
    let v: Vec<Sample> = (0..s.skew(12)).map(|_| sample(s)).collect();
    s.log(|| format!("{:?}", v));
    if v.len() > 1 {
        s.nontrivial();
    }
    let mut bytes = Vec::new();
    serialize(&v, &mut bytes).map_err(err("serialize"))?;
    same(&deserialize(&bytes[..]).map_err(err("deserialize"))?, &v, "stream")?;
    let val = to_value(&v).map_err(err("to_value"))?;
    // the two writers agree and the format is that of Chrome's event array
    let parsed: Value = match serde_json::from_slice(&bytes) {
        Ok(p) => p,
        Err(e) => return fail("json", e.to_string()),
    };
    ensure_eq!(parsed, val, "writers");
    for (j, x) in val.as_array().map(|a| &a[..]).unwrap_or(&[]).iter().zip(&v) {
        let ph = PHASES.iter().find(|p| p.0 == x.event_type).unwrap().1;
        ensure_eq!(j["ph"], Value::from(ph), "phase");
        ensure_eq!(j["name"], Value::from(x.name.to_string()), "name");
        ensure_eq!(j["ts"], Value::from(x.timestamp_us), "ts");
        ensure_eq!(j["pid"], Value::from(x.pid), "pid");
        ensure_eq!(j["tid"], Value::from(x.tid), "tid");
        match (x.duration_us, j.get("dur")) {
            (None, None) => (),
            (Some(d), Some(v)) => ensure_eq!(*v, Value::from(d), "dur"),
            (a, b) => return fail("dur", format!("{:?} {:?}", a, b)),
        }
        match (&x.categories, j.get("cat")) {
            (None, None) => (),
            (Some(_), Some(v)) => ensure_eq!(*v, Value::from(cats(&x.categories).unwrap().join(",")), "cat"),
            (a, b) => return fail("cat", format!("{:?} {:?}", a, b)),
        }
    }
    same(&decode(val.clone()).map_err(err("decode"))?, &v, "value")?;
    // and again: written differently, it reads the same
    let text = jg::line(s, &val);
    same(&deserialize(text.as_bytes()).map_err(err("deserialize"))?, &v, "rewritten")?;
    Ok(())
}

/// Damaged traces are refused or read, never a crash.
fn damage(s: &mut Src) -> R {
    let v: Vec<Sample> = (0..s.range(1, 4)).map(|_| sample(s)).collect();
    let mut bytes = Vec::new();
    serialize(&v, &mut bytes).map_err(err("serialize"))?;
    if s.bool() {
        let mut val = to_value(&v).map_err(err("to_value"))?;
        let i = s.idx(v.len());
        let key = *s.pick(&["ph", "name", "ts", "cat", "dur", "pid", "tid", "args", "thread_name"]);
        let new = match s.below(4) {
            0 => Value::from(jg::ch(s).to_string()),
            1 => Value::from(*s.pick(&["P", "I", "S", "T", "p", "F", "C", "(", ")", "v", "V", "R", "c", ""])),
            2 => jg::value(s, 2),
            _ => Value::from(*s.pick(&["BE", "B", "M"])),
        };
        s.log(|| format!("{} of {:?} = {}", key, v[i], new));
        val[i][key] = new.clone();
        let r = decode(val);
        if key == "ph" {
            s.nontrivial();
            let known = PHASES.iter().find(|p| Value::from(p.1) == new);
            match (known, &r) {
                (Some(k), Ok(r)) => ensure_eq!(r[i].event_type, k.0, "phase-read"),
                (None, Err(_)) => (),
                (k, r) => return fail("phase-read", format!("{} read as {:?}, should be {:?}", new, r.as_ref().ok().map(|r| r[i].event_type), k)),
            }
        }
        if key == "ts" && !new.is_u64() {
            ensure!(r.is_err(), "ts-read", "time {} was read", new);
        }
        return Ok(());
    }
    for _ in 0..s.range(1, 4) {
        if bytes.is_empty() {
            break;
        }
        let i = s.idx(bytes.len());
        match s.below(3) {
            0 => bytes[i] = s.below(256) as u8,
            1 => {
                bytes.remove(i);
            }
            _ => bytes.truncate(i),
        }
    }
    s.log(|| String::from_utf8_lossy(&bytes).into_owned());
    // unknown fields are skipped without looking at their text, so only the shape is judged
    let ok = match std::str::from_utf8(&bytes) {
        Ok(t) => serde_json::from_str::<Value>(t).is_ok(),
        Err(_) => true,
    };
    let r = deserialize(&bytes[..]);
    ensure!(ok || r.is_err(), "damaged", "text that is not JSON was read as a trace");
    Ok(())
}

pub fn check() -> Check {
    Check::new("T02", "at least two samples in one trace; a changed phase")
        .arm("round", 12_000, 600_000, round)
        .arm("damage", 12_000, 600_000, damage)
        .assume("category names contain no comma, which is the separator of the format")
}
