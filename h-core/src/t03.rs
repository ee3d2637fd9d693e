//! T03: a saved trace holds the samples of everybody.
use crate::drive::{Driver, Scratch};
use crate::plug::Plug;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Value};
use std::sync::Mutex;
use xi_trace::chrome_trace_dump::{decode, to_value};

pub fn check() -> Check {
    Check::new("T03", "samples of the front end and of a plugin were saved")
        .arm("saves", 4_000, 60_000, saves)
}

const NONSENSE: &[&str] = &["null", "3", "{}", "\"trace\"", "[1]", "[{}]", "[{\"name\": 1}]", "[[]]", "{\"traceEvents\": []}"];

fn samples(s: &mut Src, who: &str, max: usize) -> Vec<Value> {
    let n = if s.chance(1, 12) { s.range(max, max * 20) } else { s.range(0, max) };
    let base = s.range(0, 1 << 40);
    (0..n)
        .map(|i| {
            let mut v = json!({
                "name": format!("{} {}", who, i),
                "ts": base + s.idx(50),
                "ph": *s.pick(&["B", "E", "X", "i", "b", "n", "e", "M"]),
                "pid": s.idx(1000),
                "tid": s.idx(9),
            });
            if s.bool() {
                v["cat"] = json!(*s.pick(&["core", "front-end,rpc", "", "plugin,é"]));
            }
            if s.chance(1, 3) {
                v["dur"] = json!(s.idx(10_000));
            }
            if s.bool() {
                v["args"] = json!({"payload": cat(s)});
            } else {
                v["args"] = json!({});
            }
            v
        })
        .collect()
}

fn cat(s: &mut Src) -> &'static str {
    *s.pick(&["", "x", "a payload, \"quoted\"", "漢字\n"])
}

/// what the trace library makes of samples (T02), in an order of their own
fn canon(v: &[Value]) -> Result<Vec<String>, pbt::Fail> {
    let d = decode(Value::Array(v.to_vec())).map_err(|e| pbt::Fail { sig: "decode".into(), msg: format!("{:?}", e) })?;
    let mut out: Vec<String> = to_value(&d).unwrap().as_array().unwrap().iter().map(|x| x.to_string()).collect();
    out.sort();
    Ok(out)
}

fn saves(s: &mut Src) -> R {
    static TRACING: Mutex<()> = Mutex::new(());
    let sc = Scratch::new();
    let mut d = Driver::new();
    let v = d.view();
    let mut plugs: Vec<Plug> = vec![];
    let mut next = 1000;
    // the trace of the process is one: cases which use it do so one after the other
    let traced = if s.chance(1, 20) { Some(TRACING.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    let r = (|| {
        let mut on = false;
        for step in 0..s.range(1, 6) {
            match s.weighted(&[3, 1, 1, 4, 2]) {
                0 => {
                    next += 1;
                    s.log(|| format!("plugin {} starts", next));
                    plugs.push(Plug::start(&d, next));
                    d.settle();
                }
                1 if !plugs.is_empty() => {
                    let i = s.idx(plugs.len());
                    s.log(|| format!("plugin {} hangs up", plugs[i].id));
                    plugs[i].peer.0.lock().unwrap().dead = true;
                }
                2 => {
                    d.edit(&v, "insert", json!({"chars": "x"}));
                    d.settle();
                }
                4 if traced.is_some() => {
                    on = s.bool();
                    s.log(|| format!("tracing_config {}", on));
                    d.note("tracing_config", json!({ "enabled": on }));
                    for p in plugs.iter() {
                        let i = p.peer.0.lock().unwrap();
                        if !i.dead {
                            let last = i.seen.iter().rev().find(|m| m.0 == "tracing_config");
                            ensure_eq!(last.map(|m| m.1.clone()), Some(json!({ "enabled": on })), "told-plugin");
                        }
                    }
                    d.edit(&v, "insert", json!({"chars": "y"}));
                    d.settle();
                }
                _ => {
                    let mut want = vec![];
                    let mut from = 0;
                    let front = if s.chance(1, 6) {
                        serde_json::from_str(*s.pick(NONSENSE)).unwrap()
                    } else {
                        let x = samples(s, "front end", 6);
                        want.extend(x.clone());
                        from += !x.is_empty() as usize;
                        Value::Array(x)
                    };
                    for p in plugs.iter() {
                        let a = if s.chance(1, 5) {
                            Some(serde_json::from_str(*s.pick(NONSENSE)).unwrap())
                        } else if s.chance(1, 8) {
                            None
                        } else {
                            let x = samples(s, &p.name, 6);
                            if !p.peer.0.lock().unwrap().dead {
                                from += !x.is_empty() as usize;
                                want.extend(x.clone());
                            }
                            Some(Value::Array(x))
                        };
                        p.peer.0.lock().unwrap().answer = a;
                    }
                    let name = s.pick(&["t.json", "t.json", "u", "no/such/dir"]).to_string();
                    let dest = sc.path(&name);
                    s.log(|| format!("save_trace to {} with {} and {} samples in all", name, front, want.len()));
                    let asked: Vec<usize> = plugs.iter().map(|p| p.peer.0.lock().unwrap().seen.len()).collect();
                    d.note("save_trace", json!({"destination": dest, "frontend_samples": front}));
                    for (p, n) in plugs.iter().zip(asked) {
                        let i = p.peer.0.lock().unwrap();
                        ensure_eq!(i.seen[n..].iter().filter(|m| m.0 == "collect_trace").count(), 1, "asked-plugin", "{}", p.name);
                    }
                    if name.contains('/') {
                        ensure!(!std::path::Path::new(&dest).exists(), "appeared", "{}", dest);
                        continue;
                    }
                    let bytes = std::fs::read(&dest).unwrap_or_default();
                    let got: Vec<Value> = match serde_json::from_slice(&bytes) {
                        Ok(v) => v,
                        Err(e) => return pbt::fail("unreadable", format!("{} in {} bytes", e, bytes.len())),
                    };
                    let mut ts = 0;
                    for g in &got {
                        let t = g["ts"].as_u64().unwrap_or(0);
                        ensure!(t >= ts, "order", "{} after {}", t, ts);
                        ts = t;
                    }
                    let ours = |v: &Value| v["name"].as_str().map_or(false, |n| n.starts_with("plugin ") || n.starts_with("front end "));
                    let mine: Vec<Value> = got.iter().filter(|v| ours(v)).cloned().collect();
                    ensure_eq!(canon(&mine)?, canon(&want)?, "samples", "step {}", step);
                    let others = got.len() - mine.len();
                    if on {
                        ensure!(others > 0, "core-samples", "tracing is on and there are none of the core");
                    }
                    if from > 1 {
                        s.nontrivial();
                    }
                }
            }
            // the editor goes on
            let t = d.text(&v);
            d.edit(&v, "insert", json!({"chars": "z"}));
            ensure_eq!(d.text(&v).len(), t.len() + 1, "goes-on");
        }
        Ok(())
    })();
    if traced.is_some() {
        d.note("tracing_config", json!({"enabled": false}));
    }
    r
}
