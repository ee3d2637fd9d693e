//! C18: several views, opened and closed at any time.
use crate::cmds;
use crate::drive::{Driver, Scratch};
use crate::mirror::Mirror;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn check() -> Check {
    Check::new("C18", "deferred work ran for a view that was closed meanwhile, or commands for several views were interleaved")
        .arm("alone", 2_500, 40_000, alone)
        .arm("junk", 3_000, 50_000, junk)
        .assume("views share only the kill ring, recordings, the theme and general settings; those are left out where views are compared with views on their own")
}

/// commands that reach beyond their view
fn shared(m: &str) -> bool {
    [
        "yank",
        "delete_to_end_of_paragraph",
        "cut",
        "copy",
        "toggle_recording",
        "play_recording",
        "clear_recording",
    ]
    .contains(&m)
        || m.contains("record")
}

#[derive(Clone, Debug)]
enum Ev {
    Open(Option<String>),
    Cmd(String, Value),
    Set(Value),
    Lang(String),
    Settle,
}

struct Shown {
    text: String,
    sel: Vec<(usize, usize)>,
    rows: Vec<Option<crate::mirror::Row>>,
    conf: Value,
}

fn mirrored(sent: &[(String, Value)], v: &str) -> Result<Mirror, pbt::Fail> {
    let mut m = Mirror::default();
    for (meth, p) in sent {
        if meth == "update" && p["view_id"] == v {
            m.apply(&p["update"])?;
        }
    }
    Ok(m)
}

fn shown(d: &mut Driver, v: &str, sent: &[(String, Value)]) -> Result<Shown, pbt::Fail> {
    let mut rows = mirrored(sent, v)?.rows;
    // style numbers are dealt out in order of use by all views
    for r in rows.iter_mut().flatten() {
        for s in r.styles.iter_mut() {
            if s.2 > 8 {
                s.2 = 9;
            }
        }
    }
    Ok(Shown {
        text: d.text(v),
        sel: d.sel(v),
        rows,
        conf: d.req("get_config", json!({ "view_id": v })).unwrap(),
    })
}

fn same(a: &Shown, b: &Shown, v: &str) -> R {
    ensure_eq!(a.text, b.text, "text-depends-on-others", "{}", v);
    ensure_eq!(a.sel, b.sel, "selection-depends-on-others", "{}", v);
    ensure_eq!(a.conf, b.conf, "settings-depend-on-others", "{}", v);
    ensure!(
        a.rows == b.rows,
        "lines-depend-on-others",
        "{}: {:?} / {:?}",
        v,
        a.rows,
        b.rows
    );
    Ok(())
}

/// each view does what it does on its own
fn alone(s: &mut Src) -> R {
    let sc = Scratch::new();
    let mut d = Driver::new();
    let mut logs: BTreeMap<String, Vec<Ev>> = BTreeMap::new();
    let mut open: Vec<String> = vec![];
    let mut finals: Vec<(String, Shown)> = vec![];
    let mut nfile = 0;
    let wrap = s.chance(1, 3);
    for _ in 0..s.range(6, 40) {
        let k = open.len();
        match s.weighted(&[
            if k < 4 { 3 } else { 0 },
            if k > 0 { 16 } else { 0 },
            if k > 0 { 1 } else { 0 },
            2,
            if k > 0 { 1 } else { 0 },
        ]) {
            0 => {
                let file = if s.bool() {
                    nfile += 1;
                    let p = sc.path(&format!("f{}.txt", nfile));
                    std::fs::write(&p, cmds::doc(s, 20)).unwrap();
                    Some(p)
                } else {
                    None
                };
                let v = d
                    .req("new_view", json!({ "file_path": file }))
                    .unwrap()
                    .as_str()
                    .unwrap()
                    .to_string();
                s.log(|| {
                    format!(
                        "{} opened ({:?})",
                        v,
                        file.as_ref().map(|f| std::fs::read_to_string(f).unwrap())
                    )
                });
                ensure!(!logs.contains_key(&v), "identifier-reused", "{}", v);
                logs.insert(v.clone(), vec![Ev::Open(file)]);
                open.push(v);
            }
            1 => {
                let i = s.idx(k);
                let c = cmds::any(s, 12);
                if shared(&c.0) {
                    continue;
                }
                s.log(|| format!("{}: {} {}", open[i], c.0, c.1));
                // the other views keep text and caret at once
                let before: Vec<_> = open.iter().map(|v| (d.text(v), d.sel(v))).collect();
                d.edit(&open[i], &c.0, c.1.clone());
                for (j, v) in open.iter().enumerate() {
                    if j != i {
                        ensure_eq!(
                            d.text(v),
                            before[j].0,
                            "text-of-another-changed",
                            "{} {}",
                            c.0,
                            v
                        );
                        ensure_eq!(
                            d.sel(v),
                            before[j].1,
                            "selection-of-another-changed",
                            "{} {}",
                            c.0,
                            v
                        );
                    }
                }
                if k > 1 {
                    s.nontrivial();
                }
                logs.get_mut(&open[i]).unwrap().push(Ev::Cmd(c.0, c.1));
            }
            2 => {
                let i = s.idx(k);
                let c = if wrap {
                    cmds::setting(s)
                } else {
                    json!({"tab_size": 3})
                };
                s.log(|| format!("{}: set {}", open[i], c));
                if s.bool() {
                    d.set_config(json!({ "user_override": open[i] }), c.clone());
                    logs.get_mut(&open[i]).unwrap().push(Ev::Set(c));
                } else {
                    let l = *s.pick(&["Rust", "Nope"]);
                    d.note(
                        "set_language",
                        json!({"view_id": open[i], "language_id": l}),
                    );
                    logs.get_mut(&open[i]).unwrap().push(Ev::Lang(l.into()));
                }
            }
            3 => {
                d.settle();
                for v in &open {
                    logs.get_mut(v).unwrap().push(Ev::Settle);
                }
            }
            _ => {
                let i = s.idx(k);
                let v = open.remove(i);
                s.log(|| format!("{} closed", v));
                let sent = d.peer.0.lock().unwrap().sent.clone();
                let sh = shown(&mut d, &v, &sent)?;
                d.note("close_view", json!({ "view_id": v }));
                finals.push((v, sh));
                s.label("closed");
            }
        }
    }
    let sent = d.peer.0.lock().unwrap().sent.clone();
    for v in open {
        let sh = shown(&mut d, &v, &sent)?;
        finals.push((v, sh));
    }
    for (v, want) in &finals {
        let mut e = Driver::new();
        let mut w = String::new();
        for ev in &logs[v] {
            match ev {
                Ev::Open(f) => {
                    w = e
                        .req("new_view", json!({ "file_path": f }))
                        .unwrap()
                        .as_str()
                        .unwrap()
                        .to_string()
                }
                Ev::Cmd(m, p) => e.edit(&w, m, p.clone()),
                Ev::Set(c) => e.set_config(json!({ "user_override": w }), c.clone()),
                Ev::Lang(l) => e.note("set_language", json!({"view_id": w, "language_id": l})),
                Ev::Settle => e.settle(),
            }
        }
        let sent = e.peer.0.lock().unwrap().sent.clone();
        let got = shown(&mut e, &w, &sent)?;
        same(want, &got, v)?;
    }
    Ok(())
}

/// messages about views that are not there, deferred work in any order
fn junk(s: &mut Src) -> R {
    let sc = Scratch::new();
    let mut d = Driver::new();
    let mut open: Vec<String> = vec![];
    let mut gone: Vec<String> = vec![
        "view-id-0".into(),
        "view-id-999".into(),
        "view-id-18446744073709551615".into(),
    ];
    let mut ids: BTreeSet<String> = BTreeSet::new();
    let mut stale: Vec<usize> = vec![];
    for _ in 0..s.range(5, 40) {
        let k = open.len();
        match s.weighted(&[
            if k < 4 { 4 } else { 0 },
            if k > 0 { 8 } else { 0 },
            6,
            if k > 0 { 3 } else { 0 },
            4,
            1,
        ]) {
            0 => {
                let f = match s.idx(4) {
                    0 => None,
                    1 => Some(sc.path("new.txt")),
                    2 => Some(sc.path("there.txt")),
                    _ => Some(sc.path("bad.txt")),
                };
                std::fs::write(sc.path("there.txt"), "a\n\tb\n").unwrap();
                std::fs::write(sc.path("bad.txt"), b"\xff").unwrap();
                let r = d.req("new_view", json!({ "file_path": f }));
                s.log(|| {
                    format!(
                        "open {:?}: {}",
                        f.as_ref()
                            .map(|f| f.rsplit('/').next().unwrap().to_string()),
                        r.is_ok()
                    )
                });
                if let Ok(v) = r {
                    let v = v.as_str().unwrap().to_string();
                    ensure!(ids.insert(v.clone()), "identifier-reused", "{}", v);
                    open.push(v);
                }
            }
            1 => {
                let i = s.idx(k);
                let c = cmds::any(s, 12);
                s.log(|| format!("{}: {} {}", open[i], c.0, c.1));
                d.edit(&open[i], &c.0, c.1);
            }
            2 => {
                // about a view that is not there
                let v = s.pick(&gone).clone();
                let before: Vec<_> = open
                    .iter()
                    .map(|v| {
                        (
                            d.text(v),
                            d.sel(v),
                            d.req("get_config", json!({ "view_id": v })).unwrap(),
                        )
                    })
                    .collect();
                d.take();
                let files = std::fs::read_dir(sc.dir()).unwrap().count();
                let what = s.idx(10);
                s.log(|| format!("message {} for {}", what, v));
                match what {
                    0 => {
                        let c = cmds::any(s, 12);
                        // recordings and the kill ring belong to nobody
                        if !shared(&c.0) {
                            d.edit(&v, &c.0, c.1)
                        }
                    }
                    1 => d.note("close_view", json!({ "view_id": v })),
                    2 => d.note("save", json!({"view_id": v, "file_path": sc.path("saved")})),
                    3 => d.note("set_language", json!({"view_id": v, "language_id": "Rust"})),
                    4 => d.set_config(json!({ "user_override": v }), json!({"tab_size": 7})),
                    5 => ensure!(d.req("get_config", json!({ "view_id": v })).is_err(), "no-error", "get_config {}", v),
                    6 => ensure!(d.req("debug_get_contents", json!({ "view_id": v })).is_err(), "no-error", "debug_get_contents {}", v),
                    7 => {
                        let m = *s.pick(&["cut", "copy"]);
                        ensure!(d.edit_req(&v, m).is_err(), "no-error", "{} {}", m, v)
                    }
                    8 => d.note("plugin", json!({"command": "plugin_rpc", "view_id": v, "receiver": "nobody", "rpc": {"rpc_type": "notification", "method": "x", "params": {}}})),
                    _ => d.note("plugin", json!({"command": *s.pick(&["start", "stop"]), "view_id": v, "plugin_name": "nobody"})),
                }
                s.nontrivial();
                let sent = d.take();
                ensure!(sent.is_empty(), "answered", "{:?}", sent);
                ensure_eq!(
                    std::fs::read_dir(sc.dir()).unwrap().count(),
                    files,
                    "wrote-a-file"
                );
                for (v, b) in open.iter().zip(before) {
                    ensure_eq!(
                        (
                            d.text(v),
                            d.sel(v),
                            d.req("get_config", json!({ "view_id": v })).unwrap()
                        ),
                        b,
                        "another-view-changed",
                        "{}",
                        v
                    );
                }
            }
            3 => {
                let i = s.idx(k);
                let v = open.remove(i);
                s.log(|| format!("close {}", v));
                d.note("close_view", json!({ "view_id": v }));
                if !d.peer.0.lock().unwrap().idle.is_empty() {
                    s.label("closed with work outstanding");
                    s.nontrivial();
                }
                gone.push(v);
            }
            4 => {
                // deferred work, not in order, some of it again
                let n = s.range(1, 4);
                for _ in 0..n {
                    let mut r = d.peer.0.lock().unwrap();
                    let m = r.idle.len();
                    let t = if m > 0 {
                        let at = if s.chance(3, 4) { 0 } else { s.idx(m) };
                        r.idle.remove(at)
                    } else if !r.timers.is_empty() {
                        Some(r.timers.remove(0).1)
                    } else if !stale.is_empty() {
                        Some(*s.pick(&stale))
                    } else {
                        None
                    };
                    drop(r);
                    if let Some(t) = t {
                        s.log(|| format!("deferred {:x}", t));
                        stale.push(t);
                        d.idle(t);
                    }
                }
            }
            _ => {
                let th = *s.pick(&["InspiredGitHub", "base16-eighties.dark", "none such"]);
                s.log(|| format!("theme {}", th));
                d.note("set_theme", json!({ "theme_name": th }));
            }
        }
        let now: BTreeSet<String> = d
            .core
            .inner()
            ._test_open_views()
            .iter()
            .map(|v| format!("{}", v))
            .collect();
        ensure_eq!(
            now,
            open.iter().cloned().collect::<BTreeSet<_>>(),
            "open-views"
        );
        ensure_eq!(
            d.core.inner()._test_open_editors().len(),
            open.len(),
            "open-documents"
        );
        for (m, p) in d.take() {
            if let Some(v) = p["view_id"].as_str() {
                ensure!(
                    open.iter().any(|o| o == v) || gone.last().map_or(false, |g| g == v),
                    "message-for-closed-view",
                    "{} {}",
                    m,
                    p
                );
            }
        }
    }
    d.settle();
    // everything still works
    for v in &open {
        d.fill(v, "alive");
        ensure_eq!(d.text(v), "alive", "stuck");
    }
    let v = d.view();
    ensure!(ids.insert(v.clone()), "identifier-reused", "{}", v);
    d.edit(&v, "insert", json!({"chars": "x"}));
    ensure_eq!(d.text(&v), "x", "stuck");
    Ok(())
}
