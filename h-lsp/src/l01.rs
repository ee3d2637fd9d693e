//! L01: what a language server is told about documents.
use crate::rig::{self, offset, position, uri, view, Rig};
use pbt::{ensure, Check, Fail, Src, R};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check::new("L01", "an edit was told to the language server, or a place was converted")
        .arm("sessions", 12_000, 150_000, sessions)
        .assume("lines end with \\n or \\r\\n, and no place between \\r and \\n is named; a language server which asks for no documents is not told of any")
}

pub fn unit(s: &mut Src) -> &'static str {
    *s.pick(&["a", "b", " ", "\n", "\n", "é", "語", "😀", "\r\n", "\u{301}", "x\n", "\u{2028}"])
}
pub fn text(s: &mut Src, max: usize) -> Vec<&'static str> {
    (0..s.skew(max)).map(|_| unit(s)).collect()
}

/// An edit of a text of units: what becomes of it, and its delta.
pub fn edit(s: &mut Src, old: &[&'static str]) -> (Vec<&'static str>, Value) {
    let at = |i: usize| old[..i].iter().map(|u| u.len()).sum::<usize>();
    let n = old.len();
    let mut els: Vec<Value> = Vec::new();
    let mut new = Vec::new();
    let mut done = 0;
    let regions = s.weighted(&[0, 10, 3, 1]);
    let kind = s.below(4);
    for _ in 0..regions {
        let b = s.range(done, n);
        let e = if kind == 0 { b } else { s.range(b, n.min(b + 6)) };
        let ins = if kind == 1 { vec![] } else { text(s, 5) };
        if b == e && ins.is_empty() {
            continue;
        }
        if b == done && done > 0 {
            continue;
        }
        if done < b {
            els.push(json!({ "copy": [at(done), at(b)] }));
            new.extend_from_slice(&old[done..b]);
        }
        if !ins.is_empty() {
            els.push(json!({ "insert": ins.concat() }));
            new.extend_from_slice(&ins);
        }
        done = e;
    }
    if done < n {
        els.push(json!({ "copy": [at(done), at(n)] }));
        new.extend_from_slice(&old[done..]);
    }
    (new, json!({ "els": els, "base_len": at(n) }))
}

/// The documents as a language server has them.
pub struct Server {
    pub docs: BTreeMap<String, (String, i64)>,
    pub sync: Value,
    initialize: Option<u64>,
    pub ready: bool,
}

impl Server {
    pub fn new(sync: Value) -> Server {
        Server { docs: BTreeMap::new(), sync, initialize: None, ready: false }
    }
    /// Answers the request for initialization.
    pub fn start(&mut self, rig: &mut Rig) -> Result<(), Fail> {
        if self.initialize.is_none() {
            let v = rig.ls_recv()?;
            ensure!(v["method"] == "initialize", "first", "the first message to the language server is {}", v);
            self.initialize = v["id"].as_u64();
            ensure!(self.initialize.is_some(), "first", "{}", v);
        }
        let mut caps = json!({ "hoverProvider": true });
        if !self.sync.is_null() {
            caps["textDocumentSync"] = self.sync.clone();
        }
        rig.ls_send(json!({"jsonrpc": "2.0", "id": self.initialize, "result": {"capabilities": caps}}))?;
        self.ready = true;
        Ok(())
    }
    /// Takes a message; gives it back if it is not about documents.
    pub fn take(&mut self, v: Value) -> Result<Option<Value>, Fail> {
        let p = &v["params"];
        let d = &p["textDocument"];
        let u = d["uri"].as_str().unwrap_or("").to_string();
        ensure!(self.ready, "early", "before it is initialized the language server is sent {}", v);
        match v["method"].as_str() {
            Some("initialize") => return pbt::fail("first", "the language server is initialized twice"),
            Some("textDocument/didOpen") => {
                ensure!(!self.docs.contains_key(&u), "open-twice", "{} is opened again", u);
                let t = d["text"].as_str().unwrap_or("?").to_string();
                self.docs.insert(u, (t, d["version"].as_i64().unwrap_or(-1)));
            }
            Some("textDocument/didClose") => {
                ensure!(self.docs.remove(&u).is_some(), "not-open", "{} is closed, which is not open", u);
            }
            Some("textDocument/didSave") => {
                ensure!(self.docs.contains_key(&u), "not-open", "{} is saved, which is not open", u);
            }
            Some("textDocument/didChange") => {
                let (text, version) = match self.docs.get_mut(&u) {
                    Some(d) => d,
                    None => return pbt::fail("not-open", format!("{} is changed, which is not open", u)),
                };
                let to = d["version"].as_i64().unwrap_or(-1);
                ensure!(to > *version, "version", "{} goes from version {} to {}", u, version, to);
                *version = to;
                ensure!(self.sync != json!(0), "unwanted", "a language server which does not want changes is sent {}", v);
                for c in p["contentChanges"].as_array().map_or(&[][..], |a| a) {
                    let new = c["text"].as_str().unwrap_or("?");
                    if c["range"].is_null() {
                        *text = new.to_string();
                        continue;
                    }
                    ensure!(self.sync == json!(2) || self.sync.is_object(), "unwanted", "a language server which wants whole documents is sent {}", c);
                    let pos = |k: &str| {
                        let p = &c["range"][k];
                        offset(text, p["line"].as_u64()? as usize, p["character"].as_u64()? as usize)
                    };
                    let (a, b) = match (pos("start"), pos("end")) {
                        (Some(a), Some(b)) if a <= b => (a, b),
                        _ => return pbt::fail("range", format!("{} names no range of {:?}", c, text)),
                    };
                    if let Some(n) = c["rangeLength"].as_u64() {
                        let want = text[a..b].encode_utf16().count() as u64;
                        ensure!(n == want, "range-length", "{} gives the length of {:?} not as {}", c, &text[a..b], want);
                    }
                    text.replace_range(a..b, new);
                }
            }
            _ => return Ok(Some(v)),
        }
        Ok(None)
    }
}

fn sessions(s: &mut Src) -> R {
    let mut rig = Rig::new(false)?;
    rig.limit = *s.pick(&[1 << 20, 1 << 20, 16, 5]);
    let sync = s.pick(&[json!(2), json!(2), json!(2), json!(1), json!(0), Value::Null, json!({"openClose": true, "change": 2})]).clone();
    s.log(|| format!("sync {}", sync));
    let mut server = Server::new(sync.clone());
    let start = if s.bool() { 0 } else { s.range(0, 8) };
    let mut units: BTreeMap<usize, Vec<&'static str>> = BTreeMap::new();
    let mut next_view = 1;
    let n = s.range(1, 16);
    let mut asked = 0;
    for step in 0..n {
        let ids: Vec<usize> = units.keys().cloned().collect();
        let k = s.weighted(&[if ids.is_empty() { 5 } else { 1 }, 10, 3, 1, 1]);
        let one = if ids.is_empty() { 0 } else { *s.pick(&ids) };
        match k {
            0 => {
                let t = text(s, 30);
                let id = next_view;
                next_view += 1;
                s.log(|| format!("open {} {:?}", id, t.concat()));
                rig.open(id, &t.concat())?;
                units.insert(id, t);
            }
            1 if one > 0 => {
                let (new, delta) = edit(s, &units[&one]);
                let large = s.below(8) == 0;
                s.log(|| format!("edit {} {} -> {:?}{}", one, delta, new.concat(), if large { " without delta" } else { "" }));
                rig.update(one, if large { None } else { Some(delta) }, new.concat())?;
                units.insert(one, new);
                s.nontrivial();
            }
            2 if one > 0 && server.ready => {
                hover(s, &mut rig, &mut server, &units, one, &mut asked)?;
                s.nontrivial();
            }
            3 if one > 0 => {
                s.log(|| format!("save {}", one));
                rig.send(json!({"method": "did_save", "params": {"view_id": view(one), "path": rig::path(one)}}))?;
                rig.settle()?;
            }
            4 if one > 0 => {
                s.log(|| format!("close {}", one));
                rig.close(one)?;
                units.remove(&one);
            }
            _ => (),
        }
        if !server.ready && next_view > 1 && step >= start {
            s.log(|| "the language server answers".to_string());
            server.start(&mut rig)?;
        }
        if server.ready {
            agree(&mut rig, &mut server, &units, &mut asked)?;
        }
    }
    Ok(())
}

/// Waits until the language server has been told all there is to tell, and
/// compares the documents.
fn agree(rig: &mut Rig, server: &mut Server, units: &BTreeMap<usize, Vec<&'static str>>, asked: &mut u64) -> R {
    // a document of its own, so that this works without others
    let id = 1000 + *asked as usize;
    *asked += 1;
    rig.open(id, "")?;
    for m in &["textDocument/didOpen", "textDocument/didClose"] {
        if *m == "textDocument/didClose" {
            rig.close(id)?;
        }
        let mut n = 0;
        loop {
            let v = rig.ls_recv()?;
            let last = v["method"] == *m && v["params"]["textDocument"]["uri"] == json!(uri(id));
            if let Some(v) = server.take(v)? {
                return pbt::fail("unexpected", format!("the language server is sent {}", v));
            }
            if last {
                break;
            }
            n += 1;
            ensure!(n < 1000, "endless", "the language server is sent messages without end");
        }
    }
    for (id, t) in units {
        let t = t.concat();
        match server.docs.get(&uri(*id)) {
            None => return pbt::fail("missing", format!("the language server does not know {}", uri(*id))),
            Some((have, _)) => {
                if server.sync != json!(0) {
                    ensure!(*have == t, "document", "{}: the language server has {:?} for {:?}", uri(*id), have, t);
                }
            }
        }
    }
    ensure!(server.docs.len() == units.len(), "left-over", "the language server still has {:?}", server.docs.keys().collect::<Vec<_>>());
    Ok(())
}

fn hover(s: &mut Src, rig: &mut Rig, server: &mut Server, units: &BTreeMap<usize, Vec<&'static str>>, id: usize, asked: &mut u64) -> R {
    let t = units[&id].concat();
    let mut places: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    places.retain(|i| *i == 0 || !(t.as_bytes()[*i - 1] == b'\r' && t[*i..].starts_with('\n')));
    let at = *s.pick(&places);
    let (line, ch) = position(&t, at);
    let request = *asked;
    *asked += 1;
    s.log(|| format!("hover {} at {}", id, at));
    rig.send(json!({"method": "get_hover", "params": {"view_id": view(id), "request_id": request, "position": at}}))?;
    rig.settle()?;
    let v = loop {
        if let Some(n) = rig.notes.pop_front() {
            return pbt::fail("position", format!("no place for offset {} of {:?}: {}", at, t, n));
        }
        let v = rig.ls_recv()?;
        if let Some(v) = server.take(v)? {
            break v;
        }
    };
    ensure!(v["method"] == "textDocument/hover", "unexpected", "the language server is sent {}", v);
    ensure!(v["params"]["textDocument"]["uri"] == json!(uri(id)), "position", "{}", v);
    ensure!(
        v["params"]["position"] == json!({"line": line, "character": ch}),
        "position",
        "offset {} of {:?} is line {} unit {}, not {}",
        at,
        t,
        line,
        ch,
        v["params"]["position"]
    );
    // the answer has a range
    let (a, b) = (*s.pick(&places), *s.pick(&places));
    let (a, b) = (a.min(b), a.max(b));
    let (la, ca) = position(&t, a);
    let (lb, mut cb) = position(&t, b);
    let mut want_b = b;
    if s.below(4) == 0 {
        // beyond the end of the line
        want_b = offset(&t, lb, 1 << 30).unwrap();
        cb = 1000 + s.range(0, 5);
    }
    s.log(|| format!("hover range {}:{} to {}:{}", la, ca, lb, cb));
    rig.ls_send(json!({"jsonrpc": "2.0", "id": v["id"], "result": {"contents": "here",
        "range": {"start": {"line": la, "character": ca}, "end": {"line": lb, "character": cb}}}}))?;
    let n = rig.note()?;
    let want = json!({"plugin_id": 1, "view_id": view(id), "request_id": request,
        "result": {"Ok": {"content": "here", "range": {"start": a, "end": want_b}}}});
    ensure!(n["method"] == "show_hover", "answer", "{}", n);
    ensure!(n["params"] == want, "offset", "{:?}: {}:{} to {}:{} comes out as {}, not {}", t, la, ca, lb, cb, n["params"], want);
    Ok(())
}
