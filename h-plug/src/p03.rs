//! P03: plugins written with the plugin library.
use crate::rig::{Rig, Spec};
use pbt::{ensure, ensure_eq, fail, Check, Fail, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

pub fn check() -> Check {
    Check::new("P03", "a plugin read the document or edited it while the user was editing, and agreed with the core afterwards")
        .arm("documents", 5_000, 60_000, documents)
        .arm("undo", 1_200, 16_000, undo)
        .arm("large", 150, 2_000, large)
        .assume("a plugin answers within 30 s")
}

fn specs(s: &mut Src, max: usize) -> Vec<Spec> {
    (0..s.range(1, max))
        .map(|i| Spec {
            name: format!("plug-{}", (b'a' + i as u8) as char),
            cache: *s.pick(&["chunk", "state"]),
            eager: *s.pick(&["eager", "lazy"]),
            broken: false,
        })
        .collect()
}

/// characters never used before
#[derive(Default)]
pub struct Fresh(pub u32);
impl Fresh {
    pub fn text(&mut self, s: &mut Src, lo: usize, hi: usize, newlines: bool) -> String {
        let mut t = String::new();
        for _ in 0..s.range(lo, hi) {
            let n = self.0;
            self.0 += 1;
            t.push(
                match n % 3 {
                    0 => std::char::from_u32(0x4e00 + n),
                    1 => std::char::from_u32(0x20000 + n),
                    _ => std::char::from_u32(0x400 + n / 3),
                }
                .unwrap(),
            );
            if newlines && s.chance(1, 6) {
                t.push('\n');
            }
        }
        t
    }
}

struct Doc {
    /// where it has been saved or opened
    path: Option<String>,
    saves: Vec<(Value, Value)>,
    hovers: Vec<u64>,
    /// status items: key to value and alignment
    items: BTreeMap<(String, String), (String, String)>,
    /// characters the user inserted
    typed: BTreeSet<char>,
}

const MOVES: &[&str] = &[
    "move_up",
    "move_down",
    "move_left",
    "move_right",
    "move_word_left",
    "move_to_end_of_document",
    "move_to_beginning_of_document",
    "move_to_right_end_of_line",
    "add_selection_above",
    "add_selection_below",
];
const CHANGES: &[&str] = &[
    "delete_backward",
    "delete_forward",
    "delete_word_backward",
    "delete_to_beginning_of_line",
    "insert_newline",
    "insert_tab",
    "undo",
    "redo",
    "transpose",
    "duplicate_line",
    "uppercase",
    "indent",
    "outdent",
    "yank",
    "select_all",
    "move_down_and_modify_selection",
    "move_right_and_modify_selection",
    "move_left_and_modify_selection",
];

fn documents(s: &mut Src) -> R {
    let ps = specs(s, 3);
    s.log(|| format!("plugins {:?}", ps));
    let names: Vec<String> = ps.iter().map(|p| p.name.clone()).collect();
    let mut rig = Rig::new(&ps)?;
    // without deletions nothing may be lost, and nothing come twice
    let keep = s.chance(2, 5);
    let mut fresh = Fresh::default();
    let mut docs: BTreeMap<String, Doc> = BTreeMap::new();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    let mut idles: BTreeMap<(String, String), usize> = BTreeMap::new();
    let mut files = 0;
    let mut hover = 0;
    let mut general = 0;
    let seed = s.u64();
    for i in 0..s.range(1, 2) {
        new_view(s, &mut rig, &mut docs, &mut fresh, &mut files, i)?;
    }
    // what the user does before the plugins are there
    if s.bool() {
        for _ in 0..s.range(0, 6) {
            let v = docs.keys().nth(s.idx(docs.len())).unwrap().clone();
            user(s, &mut rig, &v, docs.get_mut(&v).unwrap(), &mut fresh, keep)?;
        }
    } else {
        wait_all(&mut rig, &docs, &names)?;
    }
    let first = docs.keys().next().unwrap().clone();
    for (i, n) in names.iter().enumerate() {
        rig.reach(&first, n)?;
        rig.command(&first, n, "seed", json!({"seed": seed ^ i as u64}))?;
    }
    for _ in 0..s.range(4, 40) {
        let k = s.weighted(&[14, 4, 3, 2, 2, 2, 2, 1, 1, 1, 3, 2, 2]);
        if docs.is_empty() && k != 7 {
            new_view(s, &mut rig, &mut docs, &mut fresh, &mut files, 5)?;
            continue;
        }
        let v = docs.keys().nth(s.idx(docs.len().max(1))).cloned();
        let v = v.unwrap_or_default();
        let n = s.pick(&names).clone();
        match k {
            0 => user(s, &mut rig, &v, docs.get_mut(&v).unwrap(), &mut fresh, keep)?,
            1 => {
                // how the plugin reacts to the user's edits
                let mode = if keep { "mark" } else { *s.pick(&["mark", "mixed", "mixed", "front", "end"]) };
                let p = json!({"reads": s.range(0, 4), "edits": s.range(0, 2) * 40, "mode": mode, "left": s.range(0, 10)});
                s.log(|| format!("{}: {} auto {}", v, n, p));
                rig.reach(&v, &n)?;
                rig.command(&v, &n, "auto", p)?;
            }
            2 => {
                let p = json!({"n": s.range(1, 6)});
                s.log(|| format!("{}: {} reads {}", v, n, p));
                rig.command(&v, &n, "read", p)?;
            }
            3 => {
                let mode = if keep { "mark" } else { *s.pick(&["mark", "mixed", "front", "end"]) };
                let p = json!({"n": s.range(1, 3), "mode": mode});
                s.log(|| format!("{}: {} edits {}", v, n, p));
                rig.command(&v, &n, "edit", p)?;
            }
            4 => {
                let d = docs.get_mut(&v).unwrap();
                let p = match &d.path {
                    Some(p) if s.bool() => p.clone(),
                    _ => {
                        files += 1;
                        let f = format!("s{} é.{}", files, s.pick(&["rs", "c", "txt"]));
                        rig.doc(&f).to_str().unwrap().to_string()
                    }
                };
                s.log(|| format!("{}: save {}", v, p));
                rig.note("save", json!({"view_id": v, "file_path": p}))?;
                d.saves.push((json!(d.path), json!(p)));
                d.path = Some(p);
            }
            5 => {
                general += 1;
                let ch = match s.idx(4) {
                    0 => json!({"tab_size": s.range(1, 9)}),
                    1 => json!({"translate_tabs_to_spaces": s.bool(), "font_face": format!("f{}", general)}),
                    2 => json!({"font_size": s.range(6, 20)}),
                    _ => json!({"word_wrap": s.bool()}),
                };
                let dom = match s.idx(4) {
                    0 => json!("general"),
                    1 => json!({"language": s.pick(&["Rust", "C"])}),
                    _ => json!({ "user_override": v }),
                };
                s.log(|| format!("config {} {}", dom, ch));
                rig.note("modify_user_config", json!({"domain": dom, "changes": ch}))?;
            }
            6 => {
                let l = *s.pick(&["Rust", "C", "Plain Text"]);
                s.log(|| format!("{}: language {}", v, l));
                rig.note("set_language", json!({"view_id": v, "language_id": l}))?;
            }
            7 => {
                if docs.len() < 4 {
                    new_view(s, &mut rig, &mut docs, &mut fresh, &mut files, 9)?;
                }
            }
            8 => {
                s.log(|| format!("{}: close", v));
                rig.note("close_view", json!({ "view_id": v }))?;
                docs.remove(&v);
                rig.closed.insert(v.clone());
                gone.insert(v);
                s.label("a view is closed");
            }
            9 => {
                hover += 1;
                let pos = if s.bool() { Value::Null } else { json!({"line": 0, "column": 0}) };
                s.log(|| format!("{}: hover {} {}", v, hover, pos));
                // only a plugin that knows the view answers
                for n in &names {
                    rig.reach(&v, n)?;
                }
                rig.edit(&v, "collapse_selections", json!([]))?;
                rig.edit(&v, "request_hover", json!({"request_id": hover, "position": pos}))?;
                docs.get_mut(&v).unwrap().hovers.push(hover);
            }
            10 => {
                let d = docs.get_mut(&v).unwrap();
                // an item is known by its key to the front end
                let key = format!("{} k{}", n, s.idx(3));
                let k = (n.clone(), key.clone());
                let val = format!("v{} \"é\"", s.idx(100));
                rig.reach(&v, &n)?;
                let (m, p) = match s.idx(3) {
                    0 if d.items.contains_key(&k) => {
                        d.items.remove(&k);
                        ("remove_item", json!({ "key": key }))
                    }
                    1 if d.items.contains_key(&k) => {
                        d.items.get_mut(&k).unwrap().0 = val.clone();
                        ("update_item", json!({"key": key, "value": val}))
                    }
                    _ => {
                        let a = *s.pick(&["left", "right"]);
                        d.items.insert(k, (val.clone(), a.to_string()));
                        ("add_item", json!({"key": key, "value": val, "alignment": a}))
                    }
                };
                s.log(|| format!("{}: {} {} {}", v, n, m, p));
                rig.command(&v, &n, m, p)?;
            }
            11 => {
                rig.reach(&v, &n)?;
                s.log(|| format!("{}: {} schedules an idle task", v, n));
                rig.command(&v, &n, "idle", json!({}))?;
                *idles.entry((v.clone(), n.clone())).or_default() += 1;
            }
            _ => sync(s, &mut rig, &docs, &names, keep)?,
        }
    }
    sync(s, &mut rig, &docs, &names, keep)?;
    // idle tasks are run, once each
    for n in &names {
        let want: Vec<(String, usize)> = idles
            .iter()
            .filter(|(k, _)| k.1 == *n && docs.contains_key(&k.0))
            .map(|(k, c)| (k.0.clone(), *c))
            .collect();
        for (v, c) in want {
            let mut had = 0;
            for i in 0..200 {
                had = count(&rig, n, "idle", &v);
                if had >= c {
                    break;
                }
                std::thread::sleep(Duration::from_millis(2 * i));
                rig.report(&v, n)?;
            }
            ensure_eq!(had, c, "idle", "idle tasks run by {} for {}", n, v);
        }
    }
    // views that are gone: the plugins are told once, after having been told of them
    for n in &names {
        for v in gone.iter().chain(docs.keys()) {
            let l: Vec<&Value> = rig.logs[n].iter().filter(|e| e[1] == json!(v)).collect();
            let new = l.iter().filter(|e| e[0] == "new_view").count();
            let closed = l.iter().filter(|e| e[0] == "did_close").count();
            if docs.contains_key(v) {
                ensure!(new == 1 && closed == 0, "views", "{} is told {} times of the view {}, and {} times of its end", n, new, v, closed);
            } else {
                // closed before it was announced, it need not be
                ensure!(new <= 1 && closed == new || docs.is_empty(), "views", "{} is told {} times of the view {}, and {} times of its end", n, new, v, closed);
            }
            if let Some(e) = l.first() {
                ensure!(e[0] == "new_view", "views", "{} is told {} before it is told of {}", n, e, v);
            }
            if closed > 0 {
                ensure!(l.last().unwrap()[0] == "did_close", "views", "{} is told {} after the end of {}", n, l.last().unwrap(), v);
            }
        }
    }
    Ok(())
}

fn count(rig: &Rig, name: &str, what: &str, view: &str) -> usize {
    rig.logs.get(name).map_or(0, |l| {
        l.iter()
            .filter(|e| e[0] == what && e[1] == json!(view))
            .count()
    })
}

fn new_view(
    s: &mut Src,
    rig: &mut Rig,
    docs: &mut BTreeMap<String, Doc>,
    fresh: &mut Fresh,
    files: &mut usize,
    _i: usize,
) -> R {
    let (mut path, mut text) = (None, String::new());
    if s.chance(3, 4) {
        *files += 1;
        let p = rig.doc(&format!("f{}.{}", files, s.pick(&["rs", "txt", "h"])));
        let hi = *s.pick(&[5, 60, 400]);
        text = fresh.text(s, 0, hi, true);
        std::fs::write(&p, &text).unwrap();
        path = Some(p);
    }
    let v = rig.open(path.as_ref())?;
    s.log(|| format!("{} is {:?} with {}", v, path, pbt::trunc(&text, 60)));
    docs.insert(
        v,
        Doc {
            path: path.map(|p| p.to_str().unwrap().to_string()),
            saves: vec![],
            hovers: vec![],
            items: BTreeMap::new(),
            typed: text.chars().filter(|c| *c != '\n').collect(),
        },
    );
    Ok(())
}

fn user(s: &mut Src, rig: &mut Rig, v: &str, d: &mut Doc, fresh: &mut Fresh, keep: bool) -> R {
    let (m, p) = match s.weighted(&[4, 2, if keep { 0 } else { 4 }, 1]) {
        0 => {
            if keep {
                // with one caret, and nothing selected
                rig.edit(v, "collapse_selections", json!([]))?;
            }
            let t = fresh.text(s, 1, 4, true);
            d.typed.extend(t.chars().filter(|c| *c != '\n'));
            ("insert", json!({ "chars": t }))
        }
        1 => (*s.pick(MOVES), json!([])),
        2 => (*s.pick(CHANGES), json!([])),
        _ => {
            if keep {
                rig.edit(v, "collapse_selections", json!([]))?;
            }
            let t = fresh.text(s, 1, 60, true);
            d.typed.extend(t.chars().filter(|c| *c != '\n'));
            ("paste", json!({ "chars": t }))
        }
    };
    s.log(|| format!("{}: {} {}", v, m, p));
    rig.edit(v, m, p)
}

fn wait_all(rig: &mut Rig, docs: &BTreeMap<String, Doc>, names: &[String]) -> R {
    for v in docs.keys() {
        for n in names {
            rig.reach(v, n)?;
        }
    }
    Ok(())
}

/// Waits for everything to come to rest, and compares all there is.
fn sync(
    s: &mut Src,
    rig: &mut Rig,
    docs: &BTreeMap<String, Doc>,
    names: &[String],
    keep: bool,
) -> R {
    s.log(|| "sync".into());
    // what the plugins have been sent is done after one report; what they
    // have done then is everywhere after the next
    wait_all(rig, docs, names)?;
    wait_all(rig, docs, names)?;
    for (v, d) in docs {
        let mut rs: Vec<(String, Value)> = vec![];
        for n in names {
            rs.push((n.clone(), rig.report(v, n)?));
        }
        let text = rig.text(v)?;
        if text.len() > 3 {
            s.nontrivial();
        }
        for (n, r) in &rs {
            let what = format!("{} has of {}", n, v);
            ensure!(
                r["hash"] == json!(pbt::hash_str(&text)) && r["len"] == json!(text.len()),
                "text",
                "what {} is {}, {} bytes; the document is {:?}, {} bytes",
                what,
                pbt::trunc(&r["text"].to_string(), 800),
                r["len"],
                pbt::trunc(&text, 800),
                text.len()
            );
            ensure_eq!(r["path"], json!(d.path), "path", "what {}", what);
            let saves: Vec<(Value, Value)> = rig.logs[n]
                .iter()
                .filter(|e| e[0] == "did_save" && e[1] == json!(v))
                .map(|e| (e[2].clone(), e[3].clone()))
                .collect();
            // those before the plugin was there it is not told of
            ensure!(
                d.saves.ends_with(&saves),
                "saves",
                "{} is told of the saves {:?}, they were {:?}",
                n,
                saves,
                d.saves
            );
            let fv = &rig.views[v];
            ensure_eq!(r["language"], fv.language, "language", "what {}; the front end has", what);
            for (k, x) in r["config"].as_object().unwrap() {
                let y = fv.config.get(k).cloned().unwrap_or(Value::Null);
                let same = match (x.as_f64(), y.as_f64()) {
                    (Some(a), Some(b)) => a == b,
                    _ => *x == y,
                };
                ensure!(same, "config", "{}: {} has {} and the front end {}", k, what, x, y);
            }
            for h in &d.hovers {
                let got: Vec<&(u64, String)> =
                    fv.hovers.iter().filter(|x| x.0 == *h && x.1.starts_with(n.as_str())).collect();
                ensure_eq!(got.len(), 1, "hover", "answers of {} to hover request {}", n, h);
            }
        }
        ensure_eq!(rig.views[v].items, d.items, "status-items", "{}", v);
        for x in &rig.views[v].alerts {
            return fail("alert", x.clone());
        }
        // the other front end request for the settings
        let c = rig.req("get_config", json!({ "view_id": v }))?;
        ensure_eq!(
            c.as_object().cloned().unwrap_or_default(),
            rig.views[v].config,
            "get-config",
            "{}",
            v
        );
        if keep {
            kept(s, rig, v, d, names, &text)?;
        }
    }
    Ok(())
}

/// Nothing is lost, nothing comes twice, and each insertion of a plugin is
/// where it was made.
fn kept(s: &mut Src, rig: &Rig, v: &str, d: &Doc, names: &[String], text: &str) -> R {
    let mut at: BTreeMap<char, usize> = BTreeMap::new();
    for (i, c) in text.char_indices().filter(|x| x.1 != '\n') {
        ensure!(at.insert(c, i).is_none(), "twice", "{:?} is twice in {:?}", c, pbt::trunc(text, 1500));
    }
    let mut want = d.typed.clone();
    for n in names {
        for m in rig.marks.get(n).into_iter().flatten().filter(|m| m[0] == json!(v)) {
            let c = |i: usize| m[i].as_str().and_then(|x| x.chars().next());
            let mark = c(1).unwrap();
            want.insert(mark);
            s.label("a plugin inserted");
            let pos = match at.get(&mark) {
                Some(p) => *p,
                None => return fail("lost", format!("{:?} inserted by {} is not in {:?}", mark, n, pbt::trunc(text, 1500))),
            };
            let l = c(2).and_then(|c| at.get(&c));
            let r = c(3).and_then(|c| at.get(&c));
            ensure!(
                l.map_or(true, |l| *l < pos) && r.map_or(true, |r| pos < *r),
                "misplaced",
                "{:?} inserted by {} between {:?} and {:?} is elsewhere: {:?}",
                mark, n, c(2), c(3), pbt::trunc(text, 1500)
            );
        }
    }
    let have: BTreeSet<char> = at.keys().cloned().collect();
    // tabs and spaces of automatic indentation are no loss
    let have: BTreeSet<char> = have.into_iter().filter(|c| *c != ' ' && *c != '\t').collect();
    let lost: Vec<&char> = want.difference(&have).collect();
    let new: Vec<&char> = have.difference(&want).collect();
    ensure!(lost.is_empty(), "lost", "{:?} are not in {:?}", lost, pbt::trunc(text, 1500));
    ensure!(new.is_empty(), "invented", "{:?} are in {:?}", new, pbt::trunc(text, 1500));
    Ok(())
}

/// An edit of a plugin is undone with the user's edit it follows, or for itself.
fn undo(s: &mut Src) -> R {
    let ps = specs(s, 1);
    let n = ps[0].name.clone();
    s.log(|| format!("plugins {:?}", ps));
    let mut rig = Rig::new(&ps)?;
    let v = rig.open(None)?;
    rig.reach(&v, &n)?;
    rig.command(&v, &n, "seed", json!({"seed": s.u64()}))?;
    let mut fresh = Fresh::default();
    // the texts one can undo to, the last one being the current text
    let mut past: Vec<String> = vec![String::new()];
    let mut at = 0;
    let rest = |rig: &mut Rig| -> Result<String, Fail> {
        rig.report(&v, &n)?;
        let r = rig.report(&v, &n)?;
        let t = rig.text(&v)?;
        ensure!(r["hash"] == json!(pbt::hash_str(&t)), "text", "the plugin has {}, the document is {:?}", r["text"], t);
        Ok(t)
    };
    for _ in 0..s.range(2, 16) {
        match s.weighted(&[4, 3, 2]) {
            0 if past.len() < 15 => {
                let mode = *s.pick(&["new-group", "same-group"]);
                let edits = s.chance(3, 4);
                rig.command(&v, &n, "auto", json!({"reads": 1, "edits": 100, "mode": mode, "left": edits as usize}))?;
                // a movement ends the run of typing
                rig.edit(&v, *s.pick(&["move_left", "move_right", "move_to_end_of_document"]), json!([]))?;
                let t = fresh.text(s, 1, 3, false);
                s.log(|| format!("insert {:?}, the plugin {}", t, if edits { mode } else { "does nothing" }));
                rig.edit(&v, "insert", json!({ "chars": t }))?;
                let now = rest(&mut rig)?;
                past.truncate(at + 1);
                let without: String = now.chars().filter(|c| (*c as u32) < crate::plugin::FIRST || past[at].contains(*c)).collect();
                ensure!(edits == (without != now), "no-edit", "the plugin's edit is missing from {:?}", now);
                if edits && mode == "new-group" {
                    past.push(without);
                }
                past.push(now);
                at = past.len() - 1;
            }
            1 if at > 0 => {
                rig.edit(&v, "undo", json!([]))?;
                at -= 1;
                let t = rest(&mut rig)?;
                s.log(|| format!("undo gives {:?}", t));
                s.nontrivial();
                ensure_eq!(t, past[at], "undo", "after undo");
            }
            2 if at + 1 < past.len() => {
                rig.edit(&v, "redo", json!([]))?;
                at += 1;
                let t = rest(&mut rig)?;
                s.log(|| format!("redo gives {:?}", t));
                ensure_eq!(t, past[at], "redo", "after redo");
            }
            _ => {}
        }
    }
    Ok(())
}

/// Documents and edits of more than a megabyte, which is more than the core
/// sends at once.
fn large(s: &mut Src) -> R {
    let ps = specs(s, 2);
    s.log(|| format!("plugins {:?}", ps));
    let names: Vec<String> = ps.iter().map(|p| p.name.clone()).collect();
    let mut rig = Rig::new(&ps)?;
    let p = rig.doc("big.txt");
    let line = ["é line of some length, 0123456789 0123456789 0123456789\n", "x 45678901234567890\n", "日本語 and some\r\n日本語\r\n\n"][s.idx(3)];
    let piece = |n: usize| line.repeat(n / line.len() + 1);
    let n = *s.pick(&[0, 100, 900_000, 1_048_000, 1_100_000, 2_300_000]);
    std::fs::write(&p, piece(n)).unwrap();
    s.log(|| format!("{} bytes of {:?}", n, line));
    let v = rig.open(Some(&p))?;
    let seed = s.u64();
    for n in &names {
        rig.reach(&v, n)?;
        rig.command(&v, n, "seed", json!({ "seed": seed }))?;
        rig.command(&v, n, "auto", json!({"reads": 3, "edits": 50, "mode": *s.pick(&["mark", "mixed", "end"]), "left": 6}))?;
    }
    for _ in 0..s.range(2, 10) {
        match s.weighted(&[3, 3, 2, 2, 2]) {
            0 => {
                let n = *s.pick(&[10, 1000, 600_000, 1_048_576, 1_200_000]);
                s.log(|| format!("paste {}", n));
                rig.edit(&v, "paste", json!({ "chars": piece(n) }))?;
            }
            1 => {
                let c = *s.pick(MOVES);
                s.log(|| c.to_string());
                rig.edit(&v, c, json!([]))?;
                rig.edit(&v, "insert", json!({"chars": "é"}))?;
            }
            2 => {
                let c = *s.pick(&["undo", "redo", "undo"]);
                s.log(|| c.to_string());
                rig.edit(&v, c, json!([]))?;
            }
            3 => {
                if s.chance(1, 4) {
                    s.log(|| "select all and delete".into());
                    rig.edit(&v, "select_all", json!([]))?;
                    rig.edit(&v, "delete_backward", json!([]))?;
                } else {
                    s.log(|| "go somewhere".into());
                    let l = s.range(0, 30_000);
                    rig.edit(&v, "goto_line", json!({ "line": l }))?;
                }
            }
            _ => {
                let n = s.pick(&names).clone();
                s.log(|| format!("{} reads", n));
                rig.command(&v, &n, "read", json!({"n": 5}))?;
            }
        }
    }
    for _ in 0..3 {
        for n in &names {
            rig.report(&v, n)?;
        }
    }
    let text = rig.text(&v)?;
    s.nontrivial();
    if text.len() > 1 << 20 {
        s.label("more than a megabyte");
    }
    for n in &names {
        let r = rig.report(&v, n)?;
        ensure!(
            r["hash"] == json!(pbt::hash_str(&text)) && r["len"] == json!(text.len()),
            "text",
            "{} has {} bytes, the document {} bytes; they differ",
            n,
            r["len"],
            text.len()
        );
    }
    Ok(())
}
