//! C19: plugins hold the core's document, and their edits merge.
use crate::cmds;
use crate::drive::Driver;
use crate::mirror::Mirror;
use crate::plug::{Plug, Revs};
use pbt::{ensure, ensure_eq, Check, Fail, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use xi_rope::delta::Builder;
use xi_rope::{Interval, Rope, RopeInfo};

pub fn check() -> Check {
    Check::new("C19", "a plugin edited or asked about a revision that was no longer the newest, or was several updates behind")
        .arm("merge", 2_500, 40_000, merge)
        .arm("follow", 2_000, 30_000, follow)
        .assume("a plugin joins an edit only to the undo group of the last update it has handled")
}

fn boundaries(t: &str) -> Vec<usize> {
    t.char_indices()
        .map(|(i, _)| i)
        .chain(Some(t.len()))
        .collect()
}

/// replaces some pieces of `t`; returns the delta and the text it makes
fn edit_delta(s: &mut Src, t: &str, mut fresh: impl FnMut(&mut Src) -> String) -> (Value, String) {
    let b = boundaries(t);
    let k = s.range(1, 3);
    let mut at: Vec<usize> = (0..2 * k).map(|_| b[s.idx(b.len())]).collect();
    at.sort();
    let mut d = Builder::<RopeInfo>::new(t.len());
    let (mut out, mut last) = (String::new(), 0);
    let mut prev_end = None;
    for c in at.chunks(2) {
        // pieces must not touch
        if prev_end == Some(c[0]) {
            continue;
        }
        let end = if s.bool() { c[0] } else { c[1] };
        prev_end = Some(end);
        let ins = if s.chance(4, 5) {
            fresh(s)
        } else {
            String::new()
        };
        d.replace(Interval::new(c[0], end), Rope::from(&ins));
        out.push_str(&t[last..c[0]]);
        out.push_str(&ins);
        last = end;
    }
    out.push_str(&t[last..]);
    (serde_json::to_value(&d.build()).unwrap(), out)
}

// ---- merge: every character is one of a kind ----

const MAX: usize = 700;

fn atom(i: usize) -> char {
    let c = match i % 4 {
        0 if i / 4 < 52 => b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[i / 4] as u32,
        1 if i / 4 < 100 => 0x410 + (i / 4) as u32 % 64 + if i / 4 >= 64 { 0x121 } else { 0 },
        2 => 0x10330 + (i / 4) as u32 % 26 + 0x100 * (i as u32 / 104),
        _ => 0x4e00 + i as u32,
    };
    std::char::from_u32(c).unwrap()
}

struct Atoms {
    n: usize,
    num: BTreeMap<char, usize>,
    ins: Vec<u64>,
    del: Vec<Vec<u64>>,
    before: Vec<Vec<bool>>,
    undone: BTreeSet<u64>,
    live: Vec<u64>,
    cur: usize,
}

impl Atoms {
    fn new() -> Atoms {
        Atoms {
            n: 0,
            num: BTreeMap::new(),
            ins: vec![],
            del: vec![],
            before: vec![vec![false; MAX]; MAX],
            undone: BTreeSet::new(),
            live: vec![0],
            cur: 1,
        }
    }
    fn fresh(&mut self, s: &mut Src) -> String {
        let mut t = String::new();
        for _ in 0..s.range(1, 4) {
            let c = atom(self.n);
            assert!(
                self.num.insert(c, self.n).is_none(),
                "harness: {:?} again",
                c
            );
            self.n += 1;
            self.ins.push(u64::max_value());
            self.del.push(vec![]);
            t.push(c);
        }
        if s.chance(1, 8) {
            t.push('\n');
        }
        t
    }
    fn ids(&self, t: &str) -> Vec<usize> {
        t.chars()
            .filter(|c| *c != '\n')
            .map(|c| {
                *self
                    .num
                    .get(&c)
                    .unwrap_or_else(|| panic!("harness: {:?} from nowhere", c))
            })
            .collect()
    }
    /// the order of characters in any copy of the text is their order for good
    fn order(&mut self, t: &str) -> R {
        let v = self.ids(t);
        for i in 0..v.len() {
            for j in i + 1..v.len() {
                ensure!(v[i] != v[j], "duplicated", "{:?} in {:?}", atom(v[i]), t);
                ensure!(
                    !self.before[v[j]][v[i]],
                    "order",
                    "{:?} was after {:?}: {:?}",
                    atom(v[i]),
                    atom(v[j]),
                    t
                );
                self.before[v[i]][v[j]] = true;
            }
        }
        Ok(())
    }
    /// an edit from `old` to `new` belonging to an undo group
    fn edit(&mut self, old: &str, new: &str, group: u64) {
        let (a, b) = (self.ids(old), self.ids(new));
        for x in &b {
            if !a.contains(x) {
                assert!(
                    self.ins[*x] == u64::max_value(),
                    "harness: {:?} inserted twice",
                    atom(*x)
                );
                self.ins[*x] = group;
            }
        }
        for x in &a {
            if !b.contains(x) {
                self.del[*x].push(group);
            }
        }
        if !self.live.contains(&group) && group >= *self.live.last().unwrap_or(&0) {
            self.live.truncate(self.cur);
            self.live.push(group);
            if self.live.len() <= 20 {
                self.cur += 1;
            } else {
                self.live.remove(0);
            }
        }
    }
    fn undo(&mut self) {
        if self.cur > 1 {
            self.cur -= 1;
            self.undone.insert(self.live[self.cur]);
        }
    }
    fn redo(&mut self) {
        if self.cur < self.live.len() {
            self.undone.remove(&self.live[self.cur]);
            self.cur += 1;
        }
    }
    fn expect(&self) -> BTreeSet<usize> {
        (0..self.n)
            .filter(|i| {
                self.ins[*i] != u64::max_value()
                    && !self.undone.contains(&self.ins[*i])
                    && self.del[*i].iter().all(|g| self.undone.contains(g))
            })
            .collect()
    }
    fn check(&mut self, t: &str) -> R {
        self.order(t)?;
        let got: BTreeSet<usize> = self.ids(t).into_iter().collect();
        let want = self.expect();
        let show = |x: Vec<&usize>| x.into_iter().map(|i| atom(*i)).collect::<String>();
        ensure!(
            got == want,
            "characters",
            "text {:?}: lost {:?}, not gone {:?}",
            t,
            show(want.difference(&got).collect()),
            show(got.difference(&want).collect())
        );
        Ok(())
    }
}

fn settled(d: &mut Driver, v: &str, m: &mut Mirror) -> R {
    d.settle();
    d.edit(v, "request_lines", json!([0, 10_000]));
    d.settle();
    let sent = d.take();
    m.follow(&sent, v)?;
    let t = d.text(v);
    ensure!(m.valid(), "front-end-lines-missing", "{:?}", m.rows.len());
    ensure_eq!(m.text(), t, "front-end-text");
    for (a, b) in d.sel(v) {
        ensure!(
            t.is_char_boundary(a) && t.is_char_boundary(b),
            "selection-outside-text",
            "{} {} in {:?}",
            a,
            b,
            t
        );
    }
    Ok(())
}

fn merge(s: &mut Src) -> R {
    let mut d = Driver::new();
    let n = s.range(1, 3);
    let mut ps: Vec<Plug> = (0..n).map(|i| Plug::start(&d, i as u64 + 1)).collect();
    let mut revs = Revs::default();
    let v = d.view();
    let mut m = Mirror::default();
    let mut a = Atoms::new();
    revs.note(&mut d, &mut ps)?;
    let mut text = String::new();
    // undo groups of edits under way
    let mut sent: BTreeMap<u64, Vec<(String, String, Option<u64>)>> = BTreeMap::new();
    let undo = s.chance(2, 3);
    for _ in 0..s.range(5, 60) {
        if a.n > MAX - 40 {
            break;
        }
        match s.weighted(&[10, 4, 3, 6, 6, 2, if undo { 3 } else { 0 }, 1]) {
            k @ 0..=2 | k @ 6 => {
                // the user
                let c = match k {
                    0 => (
                        if s.chance(2, 3) { "insert" } else { "paste" }.to_string(),
                        json!({"chars": a.fresh(s)}),
                    ),
                    1 => cmds::unit(*s.pick(&[
                        "delete_forward",
                        "delete_backward",
                        "delete_word_backward",
                        "delete_word_forward",
                        "insert_newline",
                    ])),
                    2 => cmds::unit({
                        let l = [
                            cmds::MOVES,
                            cmds::MODIFY,
                            &["select_all", "add_selection_above", "collapse_selections"],
                        ][s.idx(3)];
                        *s.pick(l)
                    }),
                    _ => cmds::unit(*s.pick(&["undo", "redo"])),
                };
                s.log(|| format!("user: {} {}", c.0, c.1));
                // an insertion of the same thing at several places would not be one of a kind
                if k == 0 && d.sel(&v).len() > 1 {
                    d.edit(&v, "collapse_selections", json!([]));
                }
                d.edit(&v, &c.0, c.1.clone());
                let news = revs.note(&mut d, &mut ps)?;
                let t = d.text(&v);
                match c.0.as_str() {
                    "undo" => {
                        a.undo();
                        s.label("undo");
                    }
                    "redo" => a.redo(),
                    _ => {
                        if t != text {
                            ensure!(
                                news.len() == n,
                                "plugins-not-told",
                                "{} of {}",
                                news.len(),
                                n
                            );
                            let g = news[0].1["undo_group"].as_u64().unwrap();
                            a.edit(&text, &t, g);
                        } else if let Some((_, u)) = news.first() {
                            let g = u["undo_group"].as_u64().unwrap();
                            a.edit(&text, &t, g);
                        }
                    }
                }
                text = t;
                a.check(&text)?;
            }
            3 => {
                let p = &mut ps[s.idx(n)];
                if p.process(s, &revs)? {
                    s.log(|| format!("{} handles a message", p.name));
                }
            }
            4 => {
                // a plugin edits what it has
                let i = s.idx(n);
                let p = &mut ps[i];
                if let Some(doc) = p.docs.get(&v).cloned() {
                    if let Some(t) = doc.text.clone() {
                        let (delta, made) = edit_delta(s, &t, |s| a.fresh(s));
                        let group = if s.bool() { doc.group } else { None };
                        let pri = *s.pick(&[0u64, 1, 0x8000, 0x10000, 0x20000]);
                        s.log(|| {
                            format!(
                                "{} edits {} into {:?} (priority {}, group {:?}): {}",
                                p.name, doc.rev, made, pri, group, delta
                            )
                        });
                        sent.entry(p.id).or_default().push((t, made, group));
                        p.queue(
                            "edit",
                            &v,
                            json!({"edit": {"rev": doc.rev, "delta": delta, "priority": pri, "after_cursor": s.bool(), "undo_group": group, "author": p.name}}),
                        );
                    } else if p.out.is_empty() {
                        p.fetch(s, &v, &revs)?;
                        s.log(|| format!("{} fetched", p.name));
                    } else {
                        while deliver(
                            s, &mut d, &mut ps, i, &mut revs, &mut a, &mut sent, &mut text, &v,
                        )? {}
                    }
                }
            }
            5 => {
                let p = &mut ps[s.idx(n)];
                p.finish_update();
            }
            _ => {
                let i = s.idx(n);
                for _ in 0..s.range(1, 3) {
                    deliver(
                        s, &mut d, &mut ps, i, &mut revs, &mut a, &mut sent, &mut text, &v,
                    )?;
                }
            }
        }
        if s.chance(1, 12) {
            d.step();
        }
    }
    // everyone catches up
    for i in 0..n {
        while deliver(
            s, &mut d, &mut ps, i, &mut revs, &mut a, &mut sent, &mut text, &v,
        )? {}
    }
    finish(s, &mut d, &mut ps, &revs, &v, &mut m)
}

/// plugins and the front end end up with the text
fn finish(s: &mut Src, d: &mut Driver, ps: &mut [Plug], revs: &Revs, v: &str, m: &mut Mirror) -> R {
    let text = d.text(v);
    for p in ps.iter_mut() {
        while p.process(s, revs)? {}
        p.finish_update();
        while p.deliver() {}
        if p.docs.get(v).map_or(false, |x| x.text.is_none()) {
            p.fetch(s, v, revs)?;
        }
        ensure_eq!(
            p.docs.get(v).and_then(|x| x.text.clone()),
            Some(text.clone()),
            "plugin-text",
            "{}",
            p.name
        );
        let r = p.docs[v].rev;
        let got = p.get_data(v, 0, "utf8", 1 << 20, r)?;
        ensure_eq!(got.map(|x| x.0), Some(text.clone()), "head-text");
    }
    settled(d, v, m)
}

fn deliver(
    s: &mut Src,
    d: &mut Driver,
    ps: &mut [Plug],
    i: usize,
    revs: &mut Revs,
    a: &mut Atoms,
    sent: &mut BTreeMap<u64, Vec<(String, String, Option<u64>)>>,
    text: &mut String,
    v: &str,
) -> Result<bool, Fail> {
    let edit = match ps[i].out.front() {
        Some(crate::plug::Out::Note("edit", ..)) => true,
        Some(_) => false,
        None => return Ok(false),
    };
    s.log(|| {
        format!(
            "{} delivers {}",
            ps[i].name,
            if edit { "its edit" } else { "its answer" }
        )
    });
    ps[i].deliver();
    let news = revs.note(d, ps)?;
    if edit {
        let (old, made, group) = sent.get_mut(&ps[i].id).unwrap().remove(0);
        if old != *text {
            s.nontrivial();
            s.label("edit of an older revision");
        }
        ensure!(
            news.len() == ps.len(),
            "edit-refused",
            "{} told",
            news.len()
        );
        for (_, u) in &news {
            ensure_eq!(u["author"], json!(format!("plugin-{}", ps[i].id)), "author");
        }
        let g = group.unwrap_or_else(|| news[0].1["undo_group"].as_u64().unwrap());
        a.edit(&old, &made, g);
        a.order(&made)?;
        *text = d.text(v);
        a.check(text)?;
    } else {
        ensure_eq!(d.text(v), *text, "acknowledgement-changed-text");
    }
    Ok(true)
}

// ---- follow: any commands, several views, plugins and views coming and going ----

fn follow(s: &mut Src) -> R {
    let mut d = Driver::new();
    let mut ps: Vec<Plug> = vec![];
    let mut revs = Revs::default();
    let mut views: Vec<(String, Mirror)> = vec![];
    let mut next = 1;
    let large = s.chance(1, 12);
    for _ in 0..s.range(8, 50) {
        let (k, n) = (views.len(), ps.len());
        let w = [
            if k < 3 {
                if k == 0 {
                    20
                } else {
                    2
                }
            } else {
                0
            },
            if k > 0 { 14 } else { 0 },
            if n < 3 {
                if n == 0 {
                    10
                } else {
                    1
                }
            } else {
                0
            },
            if n > 0 { 10 } else { 0 },
            if n > 0 { 6 } else { 0 },
            if n > 0 { 4 } else { 0 },
            if n > 0 { 6 } else { 0 },
            if k > 0 { 1 } else { 0 },
            if n > 0 { 1 } else { 0 },
            3,
            if k > 0 && large { 2 } else { 0 },
        ];
        match s.weighted(&w) {
            0 => {
                let v = d
                    .req("new_view", json!({ "file_path": null }))
                    .unwrap()
                    .as_str()
                    .unwrap()
                    .to_string();
                s.log(|| format!("open {}", v));
                d.settle();
                let t = cmds::doc(s, 10);
                revs.note(&mut d, &mut ps)?;
                if s.bool() {
                    d.edit(&v, "paste", json!({ "chars": t }));
                }
                views.push((v, Mirror::default()));
            }
            1 => {
                let v = &views[s.idx(k)].0;
                let c = if large {
                    match s.idx(3) {
                        0 => (
                            "insert".to_string(),
                            json!({ "chars": *s.pick(cmds::BITS) }),
                        ),
                        1 => cmds::unit(*s.pick(cmds::MOVES)),
                        _ => cmds::unit(*s.pick(&[
                            "undo",
                            "redo",
                            "delete_backward",
                            "select_all",
                            "yank",
                            "delete_to_end_of_paragraph",
                        ])),
                    }
                } else {
                    cmds::any(s, 12)
                };
                s.log(|| format!("{}: {} {}", v, c.0, c.1));
                d.edit(v, &c.0, c.1);
            }
            2 => {
                ps.push(Plug::start(&d, next));
                s.log(|| format!("plugin {} starts", next));
                next += 1;
            }
            3 => {
                let p = &mut ps[s.idx(n)];
                if p.backlog() > 2 {
                    s.nontrivial();
                }
                if p.process(s, &revs)? {
                    s.log(|| format!("{} handles a message", p.name));
                }
            }
            4 => {
                let i = s.idx(n);
                s.log(|| format!("{} delivers", ps[i].name));
                ps[i].deliver();
            }
            5 => {
                let p = &mut ps[s.idx(n)];
                let open: Vec<String> = p.docs.keys().cloned().collect();
                if open.is_empty() {
                    continue;
                }
                let v = s.pick(&open).clone();
                let doc = p.docs[&v].clone();
                if let Some(t) = doc.text.clone() {
                    let (delta, made) = edit_delta(s, &t, |s| s.pick(cmds::BITS).to_string());
                    let group = if s.bool() { doc.group } else { None };
                    s.log(|| {
                        format!(
                            "{} edits {} {} into {:?}: {}",
                            p.name, v, doc.rev, made, delta
                        )
                    });
                    p.queue(
                        "edit",
                        &v,
                        json!({"edit": {"rev": doc.rev, "delta": delta, "priority": *s.pick(&[0, 0x10000, 0x20000]), "after_cursor": s.bool(), "undo_group": group, "author": p.name}}),
                    );
                }
            }
            6 => {
                // asks; what it said before arrives first
                let i = s.idx(n);
                while ps[i].deliver() {
                    revs.note(&mut d, &mut ps)?;
                }
                let open: Vec<String> = ps[i].docs.keys().cloned().collect();
                if open.is_empty() {
                    continue;
                }
                let v = s.pick(&open).clone();
                if !views.iter().any(|x| x.0 == v) {
                    ensure!(
                        ps[i]
                            .ask(
                                "get_data",
                                &v,
                                json!({"start": 0, "unit": "utf8", "max_size": 9, "rev": 0})
                            )
                            .is_err(),
                        "closed-view-answered",
                        "{}",
                        v
                    );
                    ensure!(
                        ps[i].ask("line_count", &v, json!({})).is_err(),
                        "closed-view-answered",
                        "{}",
                        v
                    );
                    continue;
                }
                let rev = ps[i].docs[&v].rev;
                let t = revs.text(&v, rev).to_string();
                let now = d.text(&v);
                if now != t {
                    s.nontrivial();
                    s.label("asked about an older revision");
                }
                match s.idx(4) {
                    0 | 1 => ps[i].fetch(s, &v, &revs)?,
                    2 => {
                        ensure_eq!(
                            ps[i].ask("line_count", &v, json!({})).unwrap(),
                            json!(now.matches('\n').count() + 1),
                            "line-count"
                        );
                    }
                    _ => {
                        let line = s.bool();
                        let lines = t.matches('\n').count() + 1;
                        let start = if line {
                            s.range(0, lines + 2)
                        } else {
                            s.range(0, t.len() + 3)
                        };
                        let max = *s.pick(&[0usize, 1, 4, 9, 100, usize::max_value()]);
                        let got = ps[i].ask("get_data", &v, json!({"start": start, "unit": if line { "line" } else { "utf8" }, "max_size": max, "rev": rev})).unwrap();
                        s.log(|| {
                            format!(
                                "{} asks for {} of {} {} line {}: {}",
                                ps[i].name, start, v, rev, line, got
                            )
                        });
                        let at = if line {
                            if start < lines {
                                Some(
                                    t.split_inclusive('\n')
                                        .take(start)
                                        .map(|l| l.len())
                                        .sum::<usize>(),
                                )
                            } else if start == lines {
                                Some(t.len())
                            } else {
                                None
                            }
                        } else if start <= t.len() {
                            Some((0..=start).rev().find(|i| t.is_char_boundary(*i)).unwrap())
                        } else {
                            None
                        };
                        match at {
                            None => ensure!(got.is_null(), "data-out-of-range", "{}", got),
                            Some(at) => {
                                ensure_eq!(got["offset"], json!(at), "data-offset");
                                let c = got["chunk"].as_str().unwrap();
                                ensure!(
                                    t[at..].starts_with(c),
                                    "data-text",
                                    "{:?} at {} of {:?}",
                                    c,
                                    at,
                                    t
                                );
                                let max = max.min(1 << 20);
                                ensure!(
                                    c.len() <= max
                                        && (at + c.len() == t.len() || max - c.len() < 4),
                                    "data-size",
                                    "{} for {}",
                                    c.len(),
                                    max
                                );
                                let line = t[..at].matches('\n').count();
                                ensure_eq!(got["first_line"], json!(line), "data-line");
                                let ls = t[..at].rfind('\n').map_or(0, |x| x + 1);
                                ensure_eq!(
                                    got["first_line_offset"],
                                    json!(at - ls),
                                    "data-line-offset"
                                );
                            }
                        }
                    }
                }
            }
            7 => {
                let i = s.idx(k);
                let (v, mut m) = views.remove(i);
                let sent = d.take();
                for (o, m) in views.iter_mut() {
                    m.follow(&sent, o)?;
                }
                m.follow(&sent, &v)?;
                s.log(|| format!("close {}", v));
                d.note("close_view", json!({ "view_id": v }));
                s.label("view closed");
            }
            8 => {
                let i = s.idx(n);
                let p = ps.remove(i);
                s.log(|| format!("{} stops", p.name));
                s.label("plugin stopped");
                if s.bool() {
                    // the user stops it
                    d.note(
                        "plugin",
                        json!({"command": "stop", "view_id": "view-id-1", "plugin_name": p.name}),
                    );
                } else {
                    d.weak()
                        .plugin_exit(serde_json::from_value(json!(p.id)).unwrap(), Ok(()));
                }
            }
            9 => {
                d.step();
            }
            _ => {
                let v = &views[s.idx(k)].0;
                let big = format!("{}\n", "▒".repeat(1660)).repeat(220);
                s.log(|| format!("{}: paste something large", v));
                d.edit(v, "paste", json!({ "chars": big }));
                revs.note(&mut d, &mut ps)?;
                d.edit(v, "insert", json!({ "chars": "z" }));
            }
        }
        // several changes of one command are one update
        revs.note(&mut d, &mut ps)?;
    }
    for i in 0..ps.len() {
        while ps[i].deliver() {
            revs.note(&mut d, &mut ps)?;
        }
    }
    for (v, m) in views.iter_mut() {
        for p in ps.iter_mut() {
            while p.process(s, &revs)? {}
            p.finish_update();
            while p.deliver() {}
        }
        let text = d.text(v);
        for p in ps.iter_mut() {
            if p.docs.get(v.as_str()).map_or(false, |x| x.text.is_none()) {
                p.fetch(s, v, &revs)?;
            }
            ensure!(
                p.docs.contains_key(v.as_str()),
                "view-not-announced",
                "{} {}",
                p.name,
                v
            );
            ensure!(
                p.docs[v.as_str()].text.as_deref() == Some(&text[..]),
                "plugin-text",
                "{} {}",
                p.name,
                v
            );
        }
        let _ = m;
    }
    // the messages are shared: the front end takes them all in at once
    d.settle();
    for (v, _) in &views {
        d.edit(v, "request_lines", json!([0, 200_000]));
    }
    d.settle();
    let sent = d.take();
    for (v, m) in views.iter_mut() {
        m.follow(&sent, v)?;
        let t = d.text(v);
        if t.len() > 50_000 {
            continue;
        }
        ensure!(m.valid(), "front-end-lines-missing", "{}", v);
        ensure!(m.text() == t, "front-end-text", "{}", v);
    }
    Ok(())
}
