//! C22: annotations of plugins stay on the text they were set on.
use crate::c20::Fresh;
use crate::cmds;
use crate::drive::{Driver, Scratch};
use crate::mirror::Mirror;
use crate::plug::{Out, Plug, Revs};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn check() -> Check {
    Check::new("C22", "annotations were set on part of the text, and text was edited or set again afterwards")
        .arm("annotations", 8_000, 80_000, annotations)
        .assume("an annotation that begins or ends at or after an edit may be dropped with the edit; it may not move to other text")
        .assume("text inserted inside or next to an annotated range while the plugin did not know of it may or may not be annotated")
        .assume("annotations of no length are only required not to disturb the others")
}

/// of the characters there are: surely annotated, or perhaps
type Cover = BTreeMap<char, bool>;

struct Set {
    plugin: u64,
    kind: usize,
    marks: BTreeMap<u64, Cover>,
}

struct Sent {
    kind: usize,
    start: usize,
    len: usize,
    spans: Vec<(usize, usize, u64)>,
    rev: u64,
}

const KINDS: &[&str] = &["lint", "link", "find"];

fn kind(k: usize) -> Value {
    if k == 2 {
        json!("Find")
    } else {
        json!({ "Other": KINDS[k] })
    }
}

fn annotations(s: &mut Src) -> R {
    let sc = Scratch::new();
    let mut d = Driver::new();
    let mut chars = Fresh::default();
    let v = if s.bool() {
        let p = sc.path("f.txt");
        let t = chars.text(s, 0, 40);
        std::fs::write(&p, &t).unwrap();
        s.log(|| format!("open a file with {:?}", t));
        d.open(Some(&p)).unwrap()
    } else {
        d.view()
    };
    let mut ps: Vec<Plug> = vec![];
    let mut revs = Revs::default();
    let mut sets: Vec<Set> = vec![];
    let mut sent: BTreeMap<u64, Vec<Sent>> = BTreeMap::new();
    let mut text = d.text(&v);
    let (mut next, mut data) = (1, 0u64);
    let mut m = Mirror::default();
    let mut window = (0usize, 400usize);
    for _ in 0..s.range(6, 50) {
        let n = ps.len();
        if chars.0 > 150 {
            break;
        }
        match s.weighted(&[
            6,
            2,
            if n < 3 {
                if n == 0 {
                    14
                } else {
                    2
                }
            } else {
                0
            },
            if n > 0 { 6 } else { 0 },
            if n > 0 { 8 } else { 0 },
            if n > 0 { 8 } else { 0 },
            if n > 0 { 1 } else { 0 },
            1,
            4,
        ]) {
            k @ 0..=1 => {
                let c = if k == 0 {
                    match s.idx(4) {
                        0 | 1 => ("insert".to_string(), json!({"chars": chars.text(s, 1, 4)})),
                        2 => cmds::unit("insert_newline"),
                        _ => cmds::unit(*s.pick(&[
                            "delete_backward",
                            "delete_forward",
                            "delete_word_backward",
                            "undo",
                            "redo",
                            "delete_to_beginning_of_line",
                        ])),
                    }
                } else {
                    let l = [
                        cmds::MOVES,
                        cmds::MOVES,
                        cmds::MODIFY,
                        &["select_all", "collapse_selections", "add_selection_below"],
                    ][s.idx(4)];
                    cmds::unit(*s.pick(l))
                };
                if c.0 == "insert" && d.sel(&v).len() > 1 {
                    d.edit(&v, "collapse_selections", json!([]));
                }
                s.log(|| format!("user: {} {}", c.0, c.1));
                d.edit(&v, &c.0, c.1);
                revs.note(&mut d, &mut ps)?;
                let t = d.text(&v);
                if t != text || k == 0 {
                    for set in &mut sets {
                        for c in set.marks.values_mut() {
                            if !c.is_empty() {
                                s.nontrivial();
                            }
                            edited(c, &text, &t);
                        }
                    }
                    text = t;
                }
            }
            2 => {
                let mut p = Plug::start(&d, next);
                s.log(|| format!("plugin {} starts", next));
                sent.insert(next, vec![]);
                next += 1;
                revs.note(&mut d, std::slice::from_mut(&mut p))?;
                ps.push(p);
            }
            3 => {
                let p = &mut ps[s.idx(n)];
                p.process(s, &revs)?;
            }
            4 => {
                let p = &mut ps[s.idx(n)];
                let doc = match p.docs.get(&v) {
                    Some(x) => x.clone(),
                    None => continue,
                };
                let t = revs.text(&v, doc.rev).to_string();
                let b: Vec<usize> = t
                    .char_indices()
                    .map(|(i, _)| i)
                    .chain(Some(t.len()))
                    .collect();
                let (mut i, mut j) = (s.idx(b.len()), s.idx(b.len()));
                if s.chance(1, 3) {
                    i = 0;
                    j = b.len() - 1;
                }
                let (lo, hi) = (b[i.min(j)], b[i.max(j)]);
                let inner: Vec<usize> = b
                    .iter()
                    .filter(|x| **x >= lo && **x <= hi)
                    .map(|x| x - lo)
                    .collect();
                let mut spans = vec![];
                for _ in 0..s.range(0, 4) {
                    let (x, y) = (*s.pick(&inner), *s.pick(&inner));
                    if x != y || s.chance(1, 10) {
                        spans.push((x.min(y), x.max(y), 0));
                    }
                }
                spans.sort();
                for x in &mut spans {
                    data += 1;
                    x.2 = data;
                }
                let k = s.idx(KINDS.len());
                let js: Vec<Value> = spans
                    .iter()
                    .map(|(a, b, c)| json!({"start": a, "end": b, "data": {"n": c}}))
                    .collect();
                s.log(|| {
                    let show: Vec<_> = spans
                        .iter()
                        .map(|(a, b, c)| (&t[lo + a..lo + b], c))
                        .collect();
                    format!(
                        "{} marks {:?} of {} as {}: {:?}",
                        p.name,
                        &t[lo..hi],
                        doc.rev,
                        KINDS[k],
                        show
                    )
                });
                p.queue("update_annotations", &v, json!({"start": lo, "len": hi - lo, "spans": js, "annotation_type": kind(k), "rev": doc.rev}));
                sent.get_mut(&p.id).unwrap().push(Sent {
                    kind: k,
                    start: lo,
                    len: hi - lo,
                    spans,
                    rev: doc.rev,
                });
            }
            5 => {
                let p = &mut ps[s.idx(n)];
                let is = matches!(p.out.front(), Some(Out::Note("update_annotations", ..)));
                if !p.deliver() {
                    continue;
                }
                if is {
                    let u = sent.get_mut(&p.id).unwrap().remove(0);
                    let base = revs.text(&v, u.rev);
                    s.log(|| format!("{}: marks for {} arrive", p.name, u.rev));
                    if base != text {
                        s.label("marks for an older revision");
                    }
                    let i = match sets
                        .iter()
                        .position(|x| x.plugin == p.id && x.kind == u.kind)
                    {
                        Some(i) => i,
                        None => {
                            sets.push(Set {
                                plugin: p.id,
                                kind: u.kind,
                                marks: BTreeMap::new(),
                            });
                            sets.len() - 1
                        }
                    };
                    if sets[i].marks.values().any(|c| !c.is_empty()) {
                        s.nontrivial();
                    }
                    apply(&mut sets[i].marks, base, &text, &u);
                }
            }
            6 => {
                let mut p = ps.remove(s.idx(n));
                s.log(|| format!("{} stops", p.name));
                d.weak()
                    .plugin_exit(serde_json::from_value(json!(p.id)).unwrap(), Ok(()));
                sets.retain(|x| x.plugin != p.id);
                if s.bool() {
                    // what it still had to say
                    while p.deliver() {}
                }
                s.label("plugin stopped");
            }
            7 => {
                let a = s.range(0, 8);
                window = if s.bool() {
                    (0, 400)
                } else {
                    (a, a + s.range(1, 5))
                };
                s.log(|| format!("scroll to {:?}", window));
                d.edit(&v, "scroll", json!([window.0, window.1]));
            }
            _ => {
                d.settle();
                // the core follows the caret by itself; the front end says where it really is
                d.edit(&v, "scroll", json!([window.0, window.1]));
                verify(s, &mut d, &mut m, &sets, &text, window)?;
            }
        }
    }
    d.settle();
    window = (0, 400);
    d.edit(&v, "scroll", json!([0, 400]));
    verify(s, &mut d, &mut m, &sets, &text, window)
}

/// the text changed
fn edited(cover: &mut Cover, old: &str, new: &str) {
    let at: BTreeMap<char, usize> = old.chars().enumerate().map(|(i, c)| (c, i)).collect();
    let oc: Vec<char> = old.chars().collect();
    let mut p = old
        .chars()
        .zip(new.chars())
        .take_while(|(a, b)| a == b)
        .count();
    // a newline may have been replaced by another
    while p > 0 && oc[p - 1] == '\n' {
        p -= 1;
    }
    if old == new {
        p = 0;
    }
    // pieces of the annotation in the old text, as far as they lie before the change
    let mut safe = BTreeSet::new();
    let mut run = vec![];
    for (i, c) in oc.iter().enumerate() {
        let inside = cover.contains_key(c) || (*c == '\n' && !run.is_empty());
        if inside {
            run.push(*c);
        } else {
            run.clear();
        }
        if i < p && inside {
            safe.insert(*c);
        }
        if i >= p && inside {
            for c in &run {
                safe.remove(c);
            }
        }
    }
    for (c, sure) in cover.iter_mut() {
        *sure &= safe.contains(c);
    }
    // characters that were not there
    let before = cover.clone();
    let nc: Vec<char> = new.chars().filter(|c| *c != '\n').collect();
    for (i, c) in nc.iter().enumerate() {
        if at.contains_key(c) {
            continue;
        }
        let l = nc[..i].iter().rev().find(|x| at.contains_key(x));
        let r = nc[i..].iter().find(|x| at.contains_key(x));
        let within = |x: Option<&char>, yes: bool| x.map_or(yes, |x| before.contains_key(x));
        if (within(l, false) || within(r, false))
            || (l.is_none() || r.is_none()) && !before.is_empty()
        {
            cover.insert(*c, false);
        } else {
            // nothing left on one side of it
            let lp = l.map_or(0, |x| at[x] + 1);
            let rp = r.map_or(oc.len(), |x| at[x]);
            if oc[lp..rp].iter().any(|x| before.contains_key(x)) {
                cover.insert(*c, false);
            }
        }
    }
    let now: BTreeSet<char> = nc.into_iter().collect();
    cover.retain(|c, _| now.contains(c));
}

fn apply(marks: &mut BTreeMap<u64, Cover>, base: &str, now: &str, u: &Sent) {
    let pos: BTreeMap<char, usize> = base.char_indices().map(|(i, c)| (c, i)).collect();
    let (lo, hi) = (u.start, u.start + u.len);
    let cur: Vec<char> = now.chars().filter(|c| *c != '\n').collect();
    let mut new: BTreeMap<u64, Cover> = u.spans.iter().map(|x| (x.2, Cover::new())).collect();
    for (i, c) in cur.iter().enumerate() {
        if let Some(&at) = pos.get(c) {
            if lo <= at && at < hi {
                for m in marks.values_mut() {
                    m.remove(c);
                }
                for (a, b, n) in &u.spans {
                    if lo + a <= at && at < lo + b {
                        new.get_mut(n).unwrap().insert(*c, true);
                    }
                }
            }
            continue;
        }
        // unknown to the plugin: where in its text it would be
        let l = cur[..i].iter().rev().find_map(|x| pos.get(x));
        let r = cur[i..].iter().find_map(|x| pos.get(x));
        let near = |a: usize, b: usize| l.map_or(true, |l| *l < b) && r.map_or(true, |r| *r >= a);
        if near(lo, hi) {
            for m in marks.values_mut() {
                if let Some(x) = m.get_mut(c) {
                    *x = false;
                }
            }
        }
        for (a, b, n) in &u.spans {
            if near(lo + a, lo + b) {
                new.get_mut(n).unwrap().insert(*c, false);
            }
        }
    }
    for (n, c) in new {
        marks.insert(n, c);
    }
}

fn verify(
    s: &mut Src,
    d: &mut Driver,
    m: &mut Mirror,
    sets: &[Set],
    text: &str,
    window: (usize, usize),
) -> R {
    for (me, p) in d.take() {
        if me == "update" {
            m.apply(&p["update"])?;
        }
    }
    let starts: Vec<usize> = Some(0)
        .into_iter()
        .chain(text.match_indices('\n').map(|x| x.0 + 1))
        .collect();
    let shown = |at: usize| {
        let line = starts.iter().rposition(|x| *x <= at).unwrap();
        window.0 <= line && line < window.1
    };
    // kind, payload number -> characters
    let mut got: BTreeMap<(String, u64), BTreeSet<char>> = BTreeMap::new();
    for a in m.annotations.as_array().into_iter().flatten() {
        let k = a["type"].as_str().unwrap();
        let ranges = a["ranges"].as_array().unwrap();
        ensure_eq!(a["n"], json!(ranges.len()), "annotation-count", "{}", a);
        let mut last = 0;
        let pay = match a["payloads"].as_array() {
            None => continue,
            Some(x) => x,
        };
        ensure_eq!(pay.len(), ranges.len(), "annotation-payloads", "{}", a);
        for (r, p) in ranges.iter().zip(pay) {
            let at = |i: usize| -> Result<usize, pbt::Fail> {
                let (l, c) = (
                    r[i].as_u64().unwrap() as usize,
                    r[i + 1].as_u64().unwrap() as usize,
                );
                ensure!(
                    l < starts.len(),
                    "annotation-outside",
                    "{} in {:?}",
                    a,
                    text
                );
                let o = starts[l] + c;
                ensure!(
                    o <= text.len() && text.is_char_boundary(o),
                    "annotation-outside",
                    "{} in {:?}",
                    a,
                    text
                );
                Ok(o)
            };
            let (b, e) = (at(0)?, at(2)?);
            ensure!(b <= e, "annotation-reversed", "{} in {:?}", a, text);
            ensure!(last <= b, "annotation-order", "{} in {:?}", a, text);
            last = b;
            got.entry((k.into(), p["n"].as_u64().unwrap()))
                .or_default()
                .extend(text[b..e].chars().filter(|c| *c != '\n'));
        }
    }
    for set in sets {
        for (n, cover) in &set.marks {
            let g = got
                .remove(&(KINDS[set.kind].to_string(), *n))
                .unwrap_or_default();
            for c in &g {
                ensure!(
                    cover.contains_key(c),
                    "annotation-misplaced",
                    "{} {}: on {:?}, should be on {:?}; text {:?}",
                    KINDS[set.kind],
                    n,
                    g,
                    cover,
                    text
                );
            }
            for (c, sure) in cover {
                if *sure && shown(text.find(*c).unwrap()) {
                    s.label("annotation required");
                    ensure!(
                        g.contains(c),
                        "annotation-missing",
                        "{} {}: on {:?}, should be on {:?}; text {:?}, lines {:?} shown",
                        KINDS[set.kind],
                        n,
                        g,
                        cover,
                        text,
                        window
                    );
                }
            }
        }
    }
    for (k, g) in &got {
        ensure!(g.is_empty(), "annotation-stray", "{:?} on {:?}", k, g);
    }
    Ok(())
}
