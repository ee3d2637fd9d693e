//! C23: whatever a plugin does, the editor goes on: with plugins that crash,
//! never answer and send nonsense, everything the user sees of the text is the
//! same as in a core without plugins.
use crate::cmds;
use crate::drive::{Driver, Scratch};
use crate::mirror::Mirror;
use crate::plug::{Plug, Revs};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Value};
use xi_core_lib::plugin_rpc::{PluginCommand, PluginNotification, PluginRequest};
use xi_rpc::ReadError;

pub fn check() -> Check {
    Check::new("C23", "a plugin was dead or had sent nonsense while the text was edited")
        .arm("nonsense", 6_000, 80_000, nonsense)
        .assume("a plugin that stops reading its messages for good is not judged: the core writes to its pipe and waits")
}

fn num(s: &mut Src, len: usize) -> Value {
    match s.below(6) {
        0 => json!(0),
        1 => json!(len),
        2 => json!(len + 1),
        3 => json!(s.range(0, len + 3)),
        4 => json!(*s.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 32, 1 << 20])),
        _ => json!(s.range(0, 4)),
    }
}

/// where a character does not begin
fn inner(t: &str) -> Option<usize> {
    (0..t.len()).find(|i| !t.is_char_boundary(*i))
}

/// an edit that cannot be one of `t`
fn broken(s: &mut Src, t: &str) -> Value {
    let n = t.len();
    let els = match s.below(8) {
        0 => {
            return json!({"base_len": n + 1 + s.range(0, 3), "els": [{"copy": [0, n]}, {"insert": "x"}]})
        }
        1 => {
            return json!({"base_len": num(s, n).as_u64().unwrap().wrapping_add(1 + n as u64).max(n as u64 + 1), "els": []})
        }
        2 => json!([{"copy": [0, n + 1]}]),
        3 => json!([{"insert": "x"}, {"copy": [n + 1, n + 2]}]),
        4 if n > 1 => json!([{"copy": [0, n]}, {"copy": [0, n]}]),
        5 if n > 1 => json!([{"copy": [n, 0]}, {"insert": "y"}]),
        6 if inner(t).is_some() => {
            let i = inner(t).unwrap();
            json!([{"copy": [0, i]}, {"insert": "z"}, {"copy": [i, n]}])
        }
        _ => json!([{"copy": [u64::MAX, u64::MAX]}]),
    };
    json!({"base_len": n, "els": els})
}

/// a notification nobody should send
fn junk(s: &mut Src, t: &str, rev: u64) -> (&'static str, Value) {
    let n = t.len();
    let rev = match s.below(5) {
        0 => s.u64(),
        1 => 0,
        _ => rev,
    };
    let ranges = |s: &mut Src, key: &str| -> Vec<Value> {
        (0..s.range(0, 4))
            .map(|_| {
                let (a, b) = (num(s, n), num(s, n));
                let mut x = json!({"start": a, "end": b});
                x[key] = if key == "scope_id" {
                    json!(*s.pick(&[0u32, 0, 1, 7, u32::MAX]))
                } else {
                    json!({"x": [1, null]})
                };
                x
            })
            .collect()
    };
    match s.below(9) {
        0 | 1 => (
            "edit",
            json!({"edit": {"rev": rev, "delta": broken(s, t), "priority": num(s, n), "after_cursor": s.bool(), "undo_group": if s.bool() { json!(null) } else { num(s, n) }, "author": "nobody"}}),
        ),
        2 => {
            let mut a = num(s, n);
            let mut b = num(s, n);
            if s.bool() {
                a = json!(0);
                b = json!(n);
            }
            (
                "update_spans",
                json!({"start": a, "len": b, "spans": ranges(s, "scope_id"), "rev": rev}),
            )
        }
        3 => {
            let k = if s.bool() {
                json!("Find")
            } else {
                json!({"Other": "x"})
            };
            let mut a = num(s, n);
            let mut b = num(s, n);
            if s.bool() {
                a = json!(0);
                b = json!(n);
            }
            (
                "update_annotations",
                json!({"start": a, "len": b, "spans": ranges(s, "data"), "annotation_type": k, "rev": rev}),
            )
        }
        4 => {
            let l: Vec<&[&str]> = (0..s.range(0, 3))
                .map(|_| {
                    *s.pick(&[
                        &[][..],
                        &[""],
                        &["keyword"],
                        &["a.b.c.d.e.f.g.h.i.j.k"],
                        &["keyword", ""],
                        &["\u{0}", " "],
                        &["a"; 300],
                    ])
                })
                .collect();
            ("add_scopes", json!({ "scopes": l }))
        }
        5 => (
            "add_status_item",
            json!({"key": *s.pick(&["", "k"]), "value": "v", "alignment": *s.pick(&["left", "", "no such side"])}),
        ),
        6 => (
            "update_status_item",
            json!({"key": *s.pick(&["", "k"]), "value": "v"}),
        ),
        7 => ("remove_status_item", json!({"key": *s.pick(&["", "k"])})),
        _ => (
            "show_hover",
            json!({"request_id": num(s, n), "result": if s.bool() {
                json!({"Ok": {"content": "c", "range": {"start": num(s, n), "end": num(s, n)}}})
            } else {
                json!({"Err": {"code": 7, "message": "m"}})
            }}),
        ),
    }
}

/// a message with a part that has the wrong type or is missing
fn garble(s: &mut Src, v: &mut Value) {
    match v {
        Value::Object(m) if !m.is_empty() && s.chance(5, 6) => {
            let k = m.keys().nth(s.idx(m.len())).unwrap().clone();
            if s.chance(1, 4) {
                m.remove(&k);
            } else {
                garble(s, m.get_mut(&k).unwrap())
            }
        }
        Value::Array(a) if !a.is_empty() && s.chance(5, 6) => {
            let i = s.idx(a.len());
            garble(s, &mut a[i])
        }
        _ => {
            *v = [
                json!(null),
                json!(-1),
                json!(1.5),
                json!("s"),
                json!([]),
                json!({}),
                json!(1e300),
                json!(true),
                json!([[]]),
            ][s.idx(9)]
            .clone()
        }
    }
}

fn nonsense(s: &mut Src) -> R {
    let sc = Scratch::new();
    let (mut d, mut c) = (Driver::new(), Driver::new());
    let path = if s.bool() {
        let p = sc.path("f.txt");
        let t = cmds::doc(s, 20);
        std::fs::write(&p, &t).unwrap();
        s.log(|| format!("open a file with {:?}", t));
        Some(p)
    } else {
        None
    };
    let v = d.open(path.as_deref()).unwrap();
    ensure_eq!(c.open(path.as_deref()).unwrap(), v, "views");
    let mut ps: Vec<Plug> = vec![];
    let mut gone: Vec<Plug> = vec![];
    let mut revs = Revs::default();
    let mut next = 1;
    let (mut md, mut mc) = (Mirror::default(), Mirror::default());
    let (mut bad, mut edits) = (false, false);
    for _ in 0..s.range(6, 50) {
        let n = ps.len();
        match s.weighted(&[
            10,
            if n < 3 {
                if n == 0 {
                    14
                } else {
                    2
                }
            } else {
                0
            },
            if n > 0 { 3 } else { 0 },
            if n > 0 { 9 } else { 0 },
            if n > 0 { 2 } else { 0 },
            if n > 0 { 1 } else { 0 },
            if n > 0 { 2 } else { 0 },
            if n > 0 { 2 } else { 0 },
            3,
        ]) {
            0 => {
                let (m, p) = cmds::any(s, 12);
                s.log(|| format!("user: {} {}", m, p));
                let before = c.text(&v);
                c.edit(&v, &m, p.clone());
                d.edit(&v, &m, p);
                revs.note(&mut d, &mut ps)?;
                edits |= c.text(&v) != before;
                if bad && edits {
                    s.nontrivial();
                }
            }
            1 => {
                let mut p = Plug::start(&d, next);
                s.log(|| format!("plugin {} starts", next));
                next += 1;
                revs.note(&mut d, std::slice::from_mut(&mut p))?;
                ps.push(p);
            }
            2 => {
                let p = &mut ps[s.idx(n)];
                p.process(s, &revs)?;
                if s.bool() {
                    p.finish_update();
                    while p.deliver() {}
                }
            }
            3 | 7 => {
                // something no plugin should say, about a revision it has or not
                let late = !gone.is_empty() && s.chance(1, 4);
                let i = s.idx(n);
                let j = if late { s.idx(gone.len()) } else { 0 };
                let p = if late { &mut gone[j] } else { &mut ps[i] };
                let (rev, t) = match p.docs.get(&v) {
                    Some(x) if s.chance(3, 4) => (x.rev, revs.text(&v, x.rev).to_string()),
                    _ => (1, String::new()),
                };
                let (m, q) = junk(s, &t, rev);
                let view = if s.chance(1, 8) {
                    *s.pick(&["view-id-2", "view-id-999"])
                } else {
                    v.as_str()
                };
                let pid = if s.chance(1, 6) {
                    s.range(0, 5) as u64
                } else {
                    p.id
                };
                bad = true;
                if s.chance(1, 5) {
                    let mut q = q;
                    q["view_id"] = json!(view);
                    q["plugin_id"] = json!(pid);
                    let mut x = json!({"method": m, "params": q});
                    garble(s, &mut x);
                    s.label("undecodable or odd message");
                    // what can be decoded after all may be a proper message
                    let _ = serde_json::from_value::<PluginCommand<PluginNotification>>(x.clone())
                        .is_ok();
                    let _ = serde_json::from_value::<PluginCommand<PluginRequest>>(x).is_ok();
                    continue;
                }
                s.log(|| {
                    format!(
                        "{}{} as {}: {} {} {}",
                        p.name,
                        if late { ", gone," } else { "" },
                        pid,
                        m,
                        view,
                        q
                    )
                });
                let me = std::mem::replace(&mut p.id, pid);
                p.tell(m, view, &q);
                p.id = me;
                s.label(m);
            }
            4 => {
                let p = &mut ps[s.idx(n)];
                if !p.out.is_empty() {
                    continue;
                }
                let (rev, len) = match p.docs.get(&v) {
                    Some(x) => (x.rev, x.size),
                    _ => continue,
                };
                let view = if s.chance(1, 8) {
                    *s.pick(&["view-id-2", "view-id-999"])
                } else {
                    v.as_str()
                };
                let (m, q) = match s.below(4) {
                    0 => ("line_count", json!({})),
                    1 => ("get_selections", json!({})),
                    _ => (
                        "get_data",
                        json!({"start": num(s, len), "unit": *s.pick(&["utf8", "line"]), "max_size": num(s, len), "rev": if s.chance(1, 4) { s.u64() } else { rev }}),
                    ),
                };
                s.log(|| format!("{} asks {} {} {}", p.name, m, view, q));
                let _ = p.ask(m, view, q);
                bad = true;
                s.label("odd request");
            }
            5 => {
                let mut p = ps.remove(s.idx(n));
                let e = match s.below(3) {
                    0 => Ok(()),
                    1 => Err(ReadError::Disconnect),
                    _ => Err(ReadError::Io(std::io::Error::new(
                        std::io::ErrorKind::Other,
                        "gone",
                    ))),
                };
                s.log(|| format!("{} exits: {:?}", p.name, e));
                p.peer.0.lock().unwrap().dead = true;
                d.weak()
                    .plugin_exit(serde_json::from_value(json!(p.id)).unwrap(), e);
                p.out.clear();
                gone.push(p);
                s.label("exit noticed");
            }
            6 => {
                let p = &mut ps[s.idx(n)];
                if s.bool() {
                    // dies, and nobody has noticed yet
                    s.log(|| format!("{} dies", p.name));
                    p.peer.0.lock().unwrap().dead = true;
                    bad = true;
                    s.label("dead, not noticed");
                } else {
                    // answers an update with anything but the number it should
                    p.process(s, &revs)?;
                    if s.bool() {
                        s.log(|| format!("{} answers oddly", p.name));
                        p.answer(if s.bool() {
                            Ok(json!(*s.pick(&["x", ""])))
                        } else {
                            Err(xi_rpc::Error::InvalidResponse)
                        });
                    }
                }
            }
            _ => {
                d.settle();
                c.settle();
                verify(&mut d, &mut c, &v, &mut md, &mut mc)?;
            }
        }
        ensure_eq!(d.text(&v), c.text(&v), "text", "with plugins, and without");
        ensure_eq!(
            d.sel(&v),
            c.sel(&v),
            "selection",
            "with plugins, and without"
        );
    }
    d.settle();
    c.settle();
    verify(&mut d, &mut c, &v, &mut md, &mut mc)?;
    Ok(())
}

fn verify(d: &mut Driver, c: &mut Driver, v: &str, md: &mut Mirror, mc: &mut Mirror) -> R {
    for x in [&mut *d, &mut *c] {
        x.edit(v, "request_lines", json!([0, 400]));
    }
    for (x, m) in [(&mut *d, &mut *md), (&mut *c, &mut *mc)] {
        for (me, p) in x.take() {
            if me == "update" {
                m.apply(&p["update"])?;
            }
        }
    }
    let show = |m: &Mirror| {
        m.rows
            .iter()
            .map(|r| r.as_ref().map(|r| (r.text.clone(), r.cursor.clone(), r.ln)))
            .collect::<Vec<_>>()
    };
    ensure_eq!(show(md), show(mc), "shown", "with plugins, and without");
    Ok(())
}
