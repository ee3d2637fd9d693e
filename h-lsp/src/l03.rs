//! L03: hover answers.
use crate::l01::{edit, text, Server};
use crate::rig::{position, uri, view, Rig};
use pbt::{ensure, Check, Src, R};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check::new("L03", "two requests were open at a time, or a view was closed with one open, or the language server sent something unexpected")
        .arm("hovers", 8_000, 120_000, hovers)
        .assume("ranges of answers to requests made before an edit are not judged; a request for a view which is closed before its answer need not be answered")
}

struct Asked {
    view: usize,
    request: u64,
    id: Value,
    /// edited since
    stale: bool,
}

fn word(s: &mut Src) -> String {
    let n = s.range(1, 6);
    (0..n).map(|_| *s.pick(&['a', 'é', '😀', '\n', '"', '`', ' ', '#'])).collect()
}

/// What a language server may answer: the answer, and what the core is to get.
fn answer(s: &mut Src, doc: &str, stale: bool) -> (Value, Value) {
    let err = |code: i64| json!({"Err": code});
    let marked = |s: &mut Src| {
        let t = word(s);
        if s.bool() {
            (json!(t), t)
        } else {
            (json!({"language": "rust", "value": t}), format!("```rust\n{}\n```", t))
        }
    };
    let (contents, text) = match s.below(10) {
        0 => return (json!({ "result": null }), err(0)),
        1 => return (json!({"error": {"code": s.below(100) as i64 - 50, "message": word(s)}}), err(2)),
        2 => {
            let c = s.pick(&[json!(""), json!([]), json!({"kind": "plaintext", "value": ""})]).clone();
            return (json!({"result": { "contents": c }}), err(1));
        }
        3 => {
            let r = s.pick(&[json!(1), json!("hover"), json!({}), json!({"contents": 5}), json!({"contents": "x", "range": 1}), json!([])]).clone();
            return (json!({ "result": r }), json!("Err"));
        }
        4 | 5 => marked(s),
        6 | 7 => {
            let mut parts: Vec<(Value, String)> = Vec::new();
            for _ in 0..s.range(1, 3) {
                parts.push(marked(s));
            }
            (json!(parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>()), parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join("\n"))
        }
        _ => {
            let t = word(s);
            (json!({"kind": *s.pick(&["plaintext", "markdown"]), "value": t}), t)
        }
    };
    let mut r = json!({ "contents": contents });
    let mut range = Value::Null;
    if !stale && s.bool() {
        let places: Vec<usize> =
            (0..=doc.len()).filter(|i| doc.is_char_boundary(*i) && (*i == 0 || doc.as_bytes()[*i - 1] != b'\r')).collect();
        let (a, b) = (*s.pick(&places), *s.pick(&places));
        let (a, b) = (a.min(b), a.max(b));
        let p = |o| {
            let (l, c) = position(doc, o);
            json!({"line": l, "character": c})
        };
        r["range"] = json!({"start": p(a), "end": p(b)});
        range = json!({"start": a, "end": b});
    }
    (json!({ "result": r }), json!({"Ok": {"content": text, "range": range}}))
}

fn junk(s: &mut Src) -> String {
    s.pick(&[
        r#"{"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 1, "message": "x"}}"#,
        r#"{"jsonrpc": "2.0", "method": "telemetry/event"}"#,
        r#"{"jsonrpc": "2.0", "method": "nonsense"}"#,
        r#"{"jsonrpc": "2.0", "method": "window/progress", "params": [1]}"#,
        r#"{"jsonrpc": "2.0", "method": "window/progress", "params": {"done": true}}"#,
        r#"{"jsonrpc": "2.0", "method": "window/progress", "params": {"id": 1, "done": false}}"#,
        r#"{"jsonrpc": "2.0", "method": "window/progress", "params": {"id": "p", "title": "Building", "percentage": 0.5}}"#,
        r#"{"jsonrpc": "2.0", "method": "window/progress", "params": {"id": "p", "done": true}}"#,
        r#"{"jsonrpc": "2.0", "id": 4711, "result": {}}"#,
        r#"{"jsonrpc": "2.0", "id": "x", "result": {}}"#,
        r#"{"jsonrpc": "2.0", "id": null, "error": {"code": -32700, "message": "parse error"}}"#,
        r#"{"jsonrpc": "2.0", "id": 4712, "error": {"code": 1, "message": "x"}}"#,
        r#"{"jsonrpc": "2.0", "id": 7, "method": "workspace/configuration", "params": {}}"#,
        r#"{"jsonrpc": "2.0", "id": 8, "method": "client/registerCapability"}"#,
        "{}",
        "[]",
        "nonsense",
        "",
        "1",
    ])
    .to_string()
}

fn hovers(s: &mut Src) -> R {
    let mut rig = Rig::new(false)?;
    let mut server = Server::new(json!(2));
    let mut units: BTreeMap<usize, Vec<&'static str>> = BTreeMap::new();
    let n = s.range(1, 3);
    for id in 1..=n {
        let t = text(s, 15);
        s.log(|| format!("open {} {:?}", id, t.concat()));
        rig.open(id, &t.concat())?;
        units.insert(id, t);
    }
    server.start(&mut rig)?;
    for _ in 0..n {
        let v = rig.ls_recv()?;
        if let Some(v) = server.take(v)? {
            return pbt::fail("unexpected", format!("the language server is sent {}", v));
        }
    }
    let mut asked: Vec<Asked> = Vec::new();
    let mut next = 0;
    for _ in 0..s.range(2, 14) {
        let ids: Vec<usize> = units.keys().cloned().collect();
        match s.weighted(&[6, 6, 2, 2, 1]) {
            0 if !ids.is_empty() => {
                let id = *s.pick(&ids);
                let t = units[&id].concat();
                s.log(|| format!("request {} for {}", next, id));
                rig.send(json!({"method": "get_hover", "params": {"view_id": view(id), "request_id": next, "position": if s.bool() { t.len() } else { 0 }}}))?;
                rig.settle()?;
                let v = loop {
                    let v = rig.ls_recv()?;
                    if let Some(v) = server.take(v)? {
                        break v;
                    }
                };
                ensure!(v["method"] == "textDocument/hover" && v["params"]["textDocument"]["uri"] == json!(uri(id)), "unexpected", "{}", v);
                ensure!(asked.iter().all(|a| a.id != v["id"]), "id-twice", "{}", v);
                if !asked.is_empty() {
                    s.nontrivial();
                }
                asked.push(Asked { view: id, request: next, id: v["id"].clone(), stale: false });
                next += 1;
            }
            1 if !asked.is_empty() => {
                // one or more answers at once
                let mut bytes = String::new();
                let mut want: Vec<Value> = Vec::new();
                for _ in 0..if s.below(3) == 0 { s.range(1, asked.len()) } else { 1 } {
                    let i = s.idx(asked.len());
                    let a = asked.remove(i);
                    let doc = units.get(&a.view).map(|u| u.concat());
                    let (mut m, w) = answer(s, doc.as_deref().unwrap_or(""), a.stale || doc.is_none());
                    m["jsonrpc"] = json!("2.0");
                    m["id"] = a.id.clone();
                    let m = m.to_string();
                    s.log(|| format!("answer to {}: {}", a.request, m));
                    bytes += &format!("Content-Length: {}\r\n\r\n{}", m.len(), m);
                    if doc.is_some() {
                        want.push(json!({"plugin_id": 1, "view_id": view(a.view), "request_id": a.request, "result": w}));
                    } else {
                        s.nontrivial();
                    }
                }
                rig.ls_write(bytes.as_bytes())?;
                // in whatever order
                while !want.is_empty() {
                    let n = rig.note()?;
                    if n["method"].as_str().map_or(false, |m| m.ends_with("status_item")) {
                        continue;
                    }
                    ensure!(n["method"] == "show_hover", "unexpected", "the core is sent {}", n);
                    let at = want.iter().position(|w| w["request_id"] == n["params"]["request_id"]);
                    let w = match at {
                        Some(i) => want.remove(i),
                        None => return pbt::fail("which", format!("the core is sent {} for {:?}", n, want)),
                    };
                    let got = &n["params"];
                    let ok = match &w["result"] {
                        // an error of some kind
                        Value::String(_) => got["result"].get("Err").is_some() && got["view_id"] == w["view_id"],
                        r if r.get("Err").is_some() => got["result"]["Err"]["code"] == r["Err"] && got["view_id"] == w["view_id"],
                        _ => *got == w,
                    };
                    ensure!(ok, "answer", "the core is sent {}, not {}", n, w);
                }
            }
            2 => {
                let m = junk(s);
                s.log(|| format!("the language server sends {}", m));
                s.nontrivial();
                rig.ls_write(format!("Content-Length: {}\r\n\r\n{}", m.len(), m).as_bytes())?;
            }
            3 if !ids.is_empty() => {
                let id = *s.pick(&ids);
                let (new, delta) = edit(s, &units[&id]);
                s.log(|| format!("edit {} -> {:?}", id, new.concat()));
                rig.update(id, Some(delta), new.concat())?;
                units.insert(id, new);
                for a in &mut asked {
                    a.stale |= a.view == id;
                }
            }
            4 if !ids.is_empty() => {
                let id = *s.pick(&ids);
                s.log(|| format!("close {}", id));
                rig.close(id)?;
                units.remove(&id);
            }
            _ => (),
        }
    }
    rig.settle()?;
    while let Some(n) = rig.notes.pop_front() {
        if n["method"] == "show_hover" {
            // a late answer for a closed view
            let closed = !units.keys().any(|id| json!(view(*id)) == n["params"]["view_id"]);
            ensure!(closed, "twice", "the core is sent {} unasked", n);
        }
    }
    Ok(())
}
