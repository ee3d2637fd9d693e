//! P04: plugins starting, stopping and crashing.
use crate::p03::Fresh;
use crate::rig::{Rig, Spec};
use pbt::{ensure, ensure_eq, fail, Check, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

pub fn check() -> Check {
    Check::new("P04", "a plugin was started, stopped or ended while views were open")
        .arm("lifecycle", 9_000, 90_000, lifecycle)
        .assume("a plugin is told to stop only once it runs; one told to stop need not end its process")
}

fn lifecycle(s: &mut Src) -> R {
    let ps: Vec<Spec> = (0..s.range(1, 3))
        .map(|i| Spec {
            name: format!("plug-{}", (b'a' + i as u8) as char),
            cache: *s.pick(&["chunk", "state"]),
            eager: *s.pick(&["eager", "lazy"]),
            broken: s.chance(1, 8),
        })
        .collect();
    s.log(|| format!("plugins {:?}", ps));
    let mut rig = Rig::new(&ps)?;
    let mut fresh = Fresh::default();
    let mut views: BTreeMap<String, BTreeSet<char>> = BTreeMap::new();
    // those which run, as far as the user has been told
    let mut run: BTreeSet<String> = BTreeSet::new();
    let v = rig.open(None)?;
    views.insert(v.clone(), BTreeSet::new());
    for p in &ps {
        if p.broken {
            // it may have come and gone before the view was there
            std::thread::sleep(Duration::from_millis(s.range(0, 10) as u64));
        } else {
            rig.reach(&v, &p.name)?;
            run.insert(p.name.clone());
        }
    }
    for _ in 0..s.range(3, 24) {
        let v = views.keys().nth(s.idx(views.len())).unwrap().clone();
        let p = s.pick(&ps).clone();
        let n = p.name.clone();
        match s.weighted(&[8, 3, 3, 3, 2, 2, 1, 3]) {
            0 => {
                let t = fresh.text(s, 1, 4, true);
                s.log(|| format!("{}: insert {:?}", v, t));
                views.get_mut(&v).unwrap().extend(t.chars().filter(|c| *c != '\n'));
                rig.edit(&v, "insert", json!({ "chars": t }))?;
            }
            1 if run.contains(&n) => {
                let k = json!({"reads": s.range(0, 2), "edits": 60, "mode": "mark", "left": 8});
                s.log(|| format!("{}: {} auto {}", v, n, k));
                rig.command(&v, &n, "auto", k)?;
            }
            2 => {
                let times = s.range(1, 3);
                s.log(|| format!("start {} {} times", n, times));
                for _ in 0..times {
                    rig.note("plugin", json!({"command": "start", "view_id": v, "plugin_name": n}))?;
                }
                if p.broken {
                    s.label("a plugin ends at once");
                    continue;
                }
                if run.insert(n.clone()) {
                    s.label("a plugin is started again");
                    s.nontrivial();
                }
                told(&mut rig, &n, true, &run)?;
            }
            3 if run.contains(&n) => {
                s.log(|| format!("stop {}", n));
                s.nontrivial();
                rig.note("plugin", json!({"command": "stop", "view_id": v, "plugin_name": n}))?;
                run.remove(&n);
                told(&mut rig, &n, false, &run)?;
            }
            4 if run.contains(&n) => {
                s.log(|| format!("{} exits", n));
                s.nontrivial();
                s.label("a plugin exits");
                rig.reach(&v, &n)?;
                rig.command(&v, &n, "exit", json!({"code": s.idx(2)}))?;
                run.remove(&n);
                for _ in 0..s.range(0, 3) {
                    let t = fresh.text(s, 1, 3, true);
                    views.get_mut(&v).unwrap().extend(t.chars().filter(|c| *c != '\n'));
                    rig.edit(&v, "insert", json!({ "chars": t }))?;
                }
                told(&mut rig, &n, false, &run)?;
            }
            5 if views.len() < 4 => {
                let v = rig.open(None)?;
                s.log(|| format!("{} is new", v));
                views.insert(v.clone(), BTreeSet::new());
                if s.bool() {
                    ready(&mut rig, &v)?;
                }
            }
            6 if views.len() > 1 => {
                s.log(|| format!("{}: close", v));
                ready(&mut rig, &v)?;
                rig.note("close_view", json!({ "view_id": v }))?;
                views.remove(&v);
                rig.views.remove(&v);
                rig.closed.insert(v);
            }
            7 => sync(s, &mut rig, &views, &run, &ps)?,
            _ => {}
        }
    }
    sync(s, &mut rig, &views, &run, &ps)
}

fn ready(rig: &mut Rig, v: &str) -> R {
    ensure!(
        rig.until(crate::rig::patience(), |r| r.views[v].ready)?,
        "not-ready",
        "{} is never set up",
        v
    );
    Ok(())
}

/// whether the front end takes the plugin to run, by what it was told
fn state(rig: &Rig, v: &str, n: &str) -> Option<bool> {
    rig.views[v].running.iter().rev().find(|x| x.1 == n).map(|x| x.0)
}

/// The front end is told in every view.
fn told(rig: &mut Rig, n: &str, on: bool, _run: &BTreeSet<String>) -> R {
    let vs: Vec<String> = rig.views.keys().cloned().collect();
    for v in &vs {
        ready(rig, v)?;
    }
    let ok = rig.until(crate::rig::patience(), |r| {
        vs.iter().all(|v| state(r, v, n).unwrap_or(false) == on)
    })?;
    ensure!(
        ok,
        if on { "start-untold" } else { "stop-untold" },
        "{} has {}; the front end is told {:?}",
        n,
        if on { "started" } else { "stopped" },
        vs.iter().map(|v| &rig.views[v].running).collect::<Vec<_>>()
    );
    Ok(())
}

fn sync(
    s: &mut Src,
    rig: &mut Rig,
    views: &BTreeMap<String, BTreeSet<char>>,
    run: &BTreeSet<String>,
    ps: &[Spec],
) -> R {
    s.log(|| format!("sync, {:?} run", run));
    for v in views.keys() {
        ready(rig, v)?;
    }
    for _ in 0..2 {
        for v in views.keys() {
            for n in run {
                rig.reach(v, n)?;
            }
        }
    }
    for (v, typed) in views {
        for p in ps.iter().filter(|p| !p.broken) {
            let l: Vec<bool> =
                rig.views[v].running.iter().filter(|x| x.1 == p.name).map(|x| x.0).collect();
            ensure!(
                l.windows(2).all(|w| !(w[0] && w[1])),
                "started-twice",
                "{}: what the front end is told of {}: {:?}",
                v,
                p.name,
                l
            );
            ensure_eq!(
                l.last().cloned().unwrap_or(false),
                run.contains(&p.name),
                "running",
                "{}: what the front end is told of {}",
                v,
                p.name
            );
        }
        // a plugin told to stop can have sent an edit before it ended
        let mut tries = 0;
        let text = loop {
            let mut rs: Vec<(String, Value)> = vec![];
            for n in run {
                rs.push((n.clone(), rig.report(v, n)?));
            }
            let text = rig.text(v)?;
            let hash = json!(pbt::hash_str(&text));
            match rs.iter().find(|(_, r)| r["hash"] != hash) {
                None => break text,
                Some((n, r)) => ensure!(
                    tries < 20,
                    "text",
                    "{} has {}, the document is {:?}",
                    n,
                    r["text"],
                    pbt::trunc(&text, 800)
                ),
            }
            tries += 1;
            std::thread::sleep(Duration::from_millis(5 * tries));
        };
        let mut seen = BTreeSet::new();
        for c in text.chars().filter(|c| *c != '\n') {
            ensure!(seen.insert(c), "twice", "{:?} is twice in {:?}", c, text);
            if !typed.contains(&c) && (c as u32) < crate::plugin::FIRST {
                return fail("invented", format!("{:?} is in {:?}", c, text));
            }
        }
        let lost: Vec<&char> = typed.difference(&seen).collect();
        ensure!(lost.is_empty(), "lost", "{:?} are not in {:?}", lost, text);
    }
    Ok(())
}
