//! C07: settled search results equal a scan of the current text; find next and
//! previous pick the nearest match; replacing touches matches only.
use crate::cmds;
use crate::drive::Driver;
use crate::mirror::Mirror;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Fail, Src, R};
use regex::RegexBuilder;
use serde_json::{json, Value};

pub fn check() -> Check {
    Check::new("C07", "a query matched something, and the text or the queries changed under it or a match was selected or replaced")
        .arm("matches", 3_000, 200_000, |s| run(s, &[8, 3, 1, 0, 0]))
        .arm("select", 3_000, 200_000, |s| run(s, &[2, 2, 1, 10, 0]))
        .arm("replace", 2_500, 200_000, |s| run(s, &[3, 2, 1, 2, 6]))
        .arm("batches", 25, 1_500, batches)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    chars: String,
    case: bool,
    re: bool,
    whole: bool,
}

/// regular expressions that cannot match the empty string
const SOLID: &[&str] = &[
    "a",
    "ab|b",
    "b+",
    "^a",
    "^.",
    ".",
    "[ab]+",
    "\\bb",
    "\\w+",
    "(foo|bar)",
    "[é漢]",
    "\\d+",
    "a.",
    "a\\w*",
    "\\Ba",
    "a[^b]",
    "\\s+",
    "a\\nb",
    "\\n+",
    "b\\r\\n",
    "\\n.",
    "b\\b",
];
const HOLLOW: &[&str] = &[
    "a*", "^", "$", "x?", ".*", "\\b", "a|", "a$", "\\n*", "(a\n)*", "$\\n",
];
const BITS: &[&str] = &[
    "a", "a", "b", "ab", "aa", "A", "B", " ", "foo", "\n", "\n", "bar ", "é", "É", "漢", "1", "İ",
    "_", "\r\n", "😀", "e\u{301}", "k", "\u{212a}",
];

fn bits(s: &mut Src, lo: usize, hi: usize) -> String {
    (0..s.range(lo, hi)).map(|_| *s.pick(BITS)).collect()
}

fn query(s: &mut Src) -> Query {
    let re = s.chance(1, 3);
    let chars = match re {
        true if s.chance(4, 5) => s.pick(SOLID).to_string(),
        true => s.pick(HOLLOW).to_string(),
        false if s.chance(1, 12) => String::new(),
        false => bits(s, 1, 3),
    };
    Query {
        chars,
        case: s.bool(),
        re,
        whole: s.chance(1, 4),
    }
}

fn lower(t: &str) -> Vec<char> {
    t.chars().flat_map(char::to_lowercase).collect()
}

impl Query {
    fn json(&self) -> Value {
        json!({"chars": self.chars, "case_sensitive": self.case, "regex": self.re, "whole_words": self.whole})
    }
    fn hollow(&self) -> bool {
        self.re && HOLLOW.contains(&self.chars.as_str())
    }
    /// a match that begins at p
    fn here(&self, want: &[char], t: &str, p: usize) -> Option<usize> {
        if self.case {
            return if t[p..].starts_with(&self.chars) {
                Some(p + self.chars.len())
            } else {
                None
            };
        }
        let mut k = 0;
        for (j, c) in t[p..].char_indices() {
            for l in c.to_lowercase() {
                if l != want[k] {
                    return None;
                }
                k += 1;
                if k == want.len() {
                    return Some(p + j + c.len_utf8());
                }
            }
        }
        None
    }
    /// all matches, by a scan from the beginning of the text
    fn all(&self, t: &str) -> Vec<(usize, usize)> {
        let mut out = vec![];
        if self.chars.is_empty() {
            return out;
        }
        let whole = |a: usize, b: usize| {
            let first = a + t[a..].chars().next().unwrap().len_utf8();
            let last = b - t[..b].chars().last().unwrap().len_utf8();
            // words do not reach across lines
            let (x, y) = (bol(t, a), t[b..].find('\n').map_or(t.len(), |i| b + i + 1));
            let t = &t[x..y];
            prev_word(t, first - x) == a - x && next_word(t, last - x) == b - x
        };
        if self.re {
            let re = RegexBuilder::new(&self.chars)
                .case_insensitive(!self.case)
                .build()
                .unwrap();
            // single-line patterns see one line at a time
            let multi = self.chars.contains("\\n") || self.chars.contains("\\r");
            let starts = if multi { vec![0] } else { line_starts(t) };
            for (i, &a) in starts.iter().enumerate() {
                let line = &t[a..starts.get(i + 1).copied().unwrap_or(t.len())];
                let mut at = 0;
                while let Some(m) = re.find_at(line, at) {
                    if !self.whole || whole(a + m.start(), a + m.end()) {
                        out.push((a + m.start(), a + m.end()));
                    }
                    at = m.end();
                    if at >= line.len() {
                        break;
                    }
                }
            }
            return out;
        }
        let want = lower(&self.chars);
        let mut p = 0;
        while p < t.len() {
            match self.here(&want, t, p) {
                Some(e) => {
                    if !self.whole || whole(p, e) {
                        out.push((p, e));
                    }
                    p = e;
                }
                _ => p += t[p..].chars().next().unwrap().len_utf8(),
            }
        }
        out
    }
}

struct World {
    d: Driver,
    v: String,
    m: Mirror,
    /// known id, query
    q: Vec<(usize, Query)>,
    status: Value,
    ids: usize,
    shown: bool,
}

/// the (id, matches) of every query as last announced
fn listed(a: &Value, t: &str) -> Result<Vec<(usize, Vec<(usize, usize)>)>, Fail> {
    let starts = line_starts(t);
    let mut out = vec![];
    let at = |l: usize, c: usize| -> Result<usize, Fail> {
        ensure!(
            l < starts.len() && starts[l] + c <= t.len(),
            "annotation-outside",
            "{}:{} in {:?}",
            l,
            c,
            show(t)
        );
        Ok(starts[l] + c)
    };
    for x in a.as_array().unwrap_or(&vec![]) {
        if x["type"] != "find" {
            continue;
        }
        let mut rs = vec![];
        let mut id = None;
        for (i, r) in x["ranges"].as_array().unwrap().iter().enumerate() {
            let n = |k: usize| r[k].as_u64().unwrap() as usize;
            rs.push((at(n(0), n(1))?, at(n(2), n(3))?));
            let this = x["payloads"][i]["id"].as_u64().unwrap() as usize;
            ensure!(id.is_none() || id == Some(this), "annotation-id", "{}", x);
            id = Some(this);
        }
        ensure_eq!(
            x["n"].as_u64(),
            Some(rs.len() as u64),
            "annotation-count",
            "{}",
            x
        );
        out.push((id.unwrap_or(0), rs));
    }
    Ok(out)
}

impl World {
    fn settle(&mut self) -> R {
        self.d.settle();
        let msgs = self.d.take();
        for (m, p) in &msgs {
            if m == "find_status" && p["view_id"] == self.v.as_str() {
                self.status = p["queries"].clone();
            }
        }
        self.m.follow(&msgs, &self.v)
    }

    fn set(&mut self, s: &mut Src) -> R {
        if s.chance(2, 3) {
            let q = query(s);
            s.log(|| format!("find {:?}", q));
            // replaces the first query, forgets the others
            let id = self.q.first().map(|x| x.0);
            self.d.edit(&self.v.clone(), "find", q.json());
            let id = id.unwrap_or_else(|| {
                self.ids += 1;
                self.ids
            });
            self.q = vec![(id, q)];
        } else {
            let mut next = vec![];
            let mut params = vec![];
            let keep: Vec<_> = self.q.iter().filter(|_| s.chance(2, 3)).cloned().collect();
            for (id, q) in keep {
                let q = if s.bool() { q } else { query(s) };
                let mut j = q.json();
                j["id"] = json!(id);
                params.push(j);
                next.push((id, q));
            }
            for _ in 0..s.range(0, 2) {
                let q = query(s);
                params.push(q.json());
                self.ids += 1;
                next.push((self.ids, q));
            }
            s.log(|| format!("multi_find {}", json!(params)));
            self.d
                .edit(&self.v.clone(), "multi_find", json!({ "queries": params }));
            self.q = next;
        }
        Ok(())
    }

    fn check(&mut self, t: &str, at: &str) -> Result<bool, Fail> {
        let got = listed(&self.m.annotations, t)?;
        let empty = vec![];
        let st = self.status.as_array().unwrap_or(&empty);
        ensure_eq!(
            st.len(),
            self.q.len(),
            "status-queries",
            "{}: {}",
            at,
            self.status
        );
        ensure_eq!(
            got.len(),
            self.q.len(),
            "annotation-queries",
            "{}: {}",
            at,
            self.m.annotations
        );
        let mut any = false;
        for (i, (id, q)) in self.q.iter().enumerate() {
            let sig = if q.re {
                "regex"
            } else if q.whole {
                "whole"
            } else {
                "literal"
            };
            let mut want = None;
            if !q.hollow() {
                let w = q.all(t);
                ensure_eq!(
                    got[i].1,
                    w,
                    &format!("matches-{}", sig),
                    "{} {:?} in {:?}",
                    at,
                    q,
                    show(t)
                );
                any |= !w.is_empty();
                want = Some(w);
            }
            if !got[i].1.is_empty() {
                ensure_eq!(got[i].0, *id, "annotation-id", "{} {:?}", at, q);
            }
            // the status speaks of the same matches
            ensure_eq!(
                st[i]["id"].as_u64(),
                Some(*id as u64),
                "status-id",
                "{} {}",
                at,
                self.status
            );
            ensure_eq!(
                st[i]["matches"].as_u64(),
                Some(got[i].1.len() as u64),
                "status-matches",
                "{} {:?}: {}",
                at,
                q,
                self.status
            );
            if let (Some(w), Some(c)) = (want, st[i]["chars"].as_str()) {
                ensure_eq!(c, q.chars, "status-chars", "{}", at);
                ensure_eq!(
                    st[i]["case_sensitive"],
                    json!(q.case),
                    "status-option",
                    "{} {:?} {}",
                    at,
                    q,
                    self.status
                );
                ensure_eq!(
                    st[i]["is_regex"],
                    json!(q.re),
                    "status-option",
                    "{} {:?} {}",
                    at,
                    q,
                    self.status
                );
                ensure_eq!(
                    st[i]["whole_words"],
                    json!(q.whole),
                    "status-option",
                    "{} {:?} {}",
                    at,
                    q,
                    self.status
                );
                let lines: Vec<usize> = w.iter().map(|r| line_no(t, r.0) + 1).collect();
                ensure_eq!(
                    st[i]["lines"],
                    json!(lines),
                    "status-lines",
                    "{} {:?} in {:?}",
                    at,
                    q,
                    show(t)
                );
            }
        }
        // highlights in the lines are those matches too
        let starts = line_starts(t);
        for (l, r) in self.m.rows.iter().enumerate() {
            let (r, a) = match (r, starts.get(l)) {
                (Some(r), Some(&a)) => (r, a),
                _ => continue,
            };
            let b = starts.get(l + 1).copied().unwrap_or(t.len());
            let mut have: Vec<(usize, usize, usize)> = r
                .styles
                .iter()
                .filter(|x| x.2 != 0)
                .map(|x| (x.2, x.0 as usize, x.1 as usize))
                .collect();
            have.sort();
            let mut want = vec![];
            if self.shown {
                for (i, g) in got.iter().enumerate() {
                    for m in &g.1 {
                        let (x, y) = (m.0.max(a), m.1.min(b));
                        if x < y {
                            want.push((i + 1, x - a, y - a));
                        }
                    }
                }
            }
            ensure_eq!(
                have,
                want,
                "highlights",
                "{} line {} of {:?} {:?}",
                at,
                l,
                show(t),
                self.q
            );
        }
        Ok(any)
    }

    /// a new core, given the text and the queries
    fn afresh(&self, t: &str) -> Result<Vec<Vec<(usize, usize)>>, Fail> {
        let mut d = Driver::new();
        let v = d.view();
        d.edit(&v, "scroll", json!([0, 3000]));
        d.edit(&v, "paste", json!({ "chars": t }));
        let qs: Vec<Value> = self.q.iter().map(|x| x.1.json()).collect();
        d.edit(&v, "multi_find", json!({ "queries": qs }));
        d.settle();
        let mut m = Mirror::default();
        m.follow(&d.take(), &v)?;
        Ok(listed(&m.annotations, t)?
            .into_iter()
            .map(|x| x.1)
            .collect())
    }
}

fn touching(r: (usize, usize), x: (usize, usize)) -> bool {
    r.0 <= x.1 && x.0 <= r.1
}

fn run(s: &mut Src, weights: &[u32; 5]) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let t0 = match s.weighted(&[10, 1]) {
        0 => bits(s, 0, 25),
        _ => {
            let unit = bits(s, 1, 3);
            (0..s.range(1, 900)).map(|_| unit.as_str()).collect()
        }
    };
    d.edit(&v, "scroll", json!([0, 3000]));
    d.edit(&v, "paste", json!({ "chars": t0 }));
    s.log(|| format!("text {:?}", show(&t0)));
    let mut w = World {
        d,
        v: v.clone(),
        m: Mirror::default(),
        q: vec![],
        status: json!(null),
        ids: 0,
        shown: false,
    };
    w.settle()?;
    w.shown = s.chance(1, 3);
    if w.shown {
        w.d.edit(&v, "highlight_find", json!({"visible": true}));
    }
    w.set(s)?;
    w.settle()?;
    let mut t = t0;
    let mut any = w.check(&t, "after the first search")?;
    let mut acted = false;
    let mut replacement: Option<String> = None;
    for _ in 0..s.range(1, 12) {
        if t.len() > 5000 {
            // multi-line patterns take a time that grows with the square
            break;
        }
        let sel = w.d.sel(&v);
        let solid = w.q.iter().all(|q| !q.1.hollow());
        let mut all: Vec<(usize, usize)> = vec![];
        if solid {
            w.q.iter().for_each(|q| all.extend(q.1.all(&t)));
        }
        all.sort();
        match s.weighted(weights) {
            0 => {
                // an edit
                let (m, p) = match s.weighted(&[6, 4, 3, 2, 2, 2]) {
                    0 => ("insert".to_string(), json!({ "chars": bits(s, 1, 2) })),
                    1 => cmds::unit(*s.pick(&[
                        "delete_backward",
                        "delete_forward",
                        "delete_word_backward",
                        "delete_to_end_of_paragraph",
                    ])),
                    2 => ("paste".into(), json!({ "chars": bits(s, 0, 6) })),
                    3 => cmds::unit(*s.pick(&["undo", "redo", "undo"])),
                    4 => cmds::unit(*s.pick(&[
                        "transpose",
                        "uppercase",
                        "duplicate_line",
                        "insert_newline",
                    ])),
                    _ => cmds::unit(*s.pick(&["indent", "outdent", "yank"])),
                };
                s.log(|| format!("{:?} {:?}: {} {}", show(&t), sel, m, p));
                w.d.edit(&v, &m, p);
                let now = w.d.text(&v);
                acted |= now != t;
                t = now;
            }
            1 => {
                // somewhere else
                let (m, p) = match s.below(5) {
                    0 => cmds::gesture(s, line_starts(&t).len()),
                    1 => cmds::unit(*s.pick(cmds::MODIFY)),
                    2 => cmds::unit(*s.pick(cmds::SELS)),
                    _ => {
                        let starts = line_starts(&t);
                        let l = s.idx(starts.len());
                        let more = s.chance(1, 3);
                        let c = s.range(0, 12);
                        (
                            "gesture".to_string(),
                            json!({"line": l, "col": c, "ty": {"select": {"granularity": "point", "multi": more}}}),
                        )
                    }
                };
                s.log(|| format!("{} {}", m, p));
                w.d.edit(&v, &m, p);
            }
            2 => {
                if s.chance(1, 3) {
                    w.shown = s.bool();
                    let p = json!({ "visible": w.shown });
                    s.log(|| format!("highlight_find {}", p));
                    w.d.edit(&v, "highlight_find", p);
                } else {
                    w.set(s)?;
                    acted = true;
                }
            }
            3 => {
                if s.chance(1, 5) {
                    s.log(|| format!("{:?} {:?}: find_all", show(&t), sel));
                    w.d.edit(&v, "find_all", json!([]));
                    let now = w.d.sel(&v);
                    if solid {
                        let want = if all.is_empty() {
                            sel.clone()
                        } else {
                            joined(all.clone())
                        };
                        ensure_eq!(now, want, "find-all", "{:?} in {:?}", w.q, show(&t));
                        acted |= !all.is_empty();
                    }
                } else {
                    let (back, wrap, same) = (s.bool(), s.bool(), s.chance(1, 4));
                    let mode =
                        *s.pick(&["set", "set", "set", "add", "add_removing_current", "none"]);
                    let name = if back { "find_previous" } else { "find_next" };
                    let p =
                        json!({"wrap_around": wrap, "allow_same": same, "modify_selection": mode});
                    s.log(|| format!("{:?} {:?}: {} {}", show(&t), sel, name, p));
                    w.d.edit(&v, name, p);
                    let now = w.d.sel(&v);
                    s.log(|| format!("    -> {:?}", now));
                    if solid {
                        acted |= next(&t, &all, &sel, &now, back, wrap, same, mode)?;
                    }
                }
            }
            _ => {
                if replacement.is_none() || s.chance(1, 4) {
                    let r = bits(s, 0, 3);
                    s.log(|| format!("replace {:?}", r));
                    w.d.edit(&v, "replace", json!({ "chars": r, "preserve_case": false }));
                    replacement = Some(r);
                }
                let r = replacement.clone().unwrap();
                let every = s.bool();
                let name = if every { "replace_all" } else { "replace_next" };
                s.log(|| format!("{:?} {:?}: {} with {:?}", show(&t), sel, name, r));
                w.d.edit(&v, name, json!([]));
                let now = w.d.text(&v);
                s.log(|| format!("    -> {:?} {:?}", show(&now), w.d.sel(&v)));
                if solid {
                    if every || all.is_empty() {
                        let e: Edits = union(all.clone())
                            .into_iter()
                            .map(|(a, b)| (a, b, r.clone()))
                            .collect();
                        ensure_eq!(show(&now), show(&apply(&t, &e)), name, "{:?}", w.q);
                        if all.is_empty() {
                            ensure_eq!(w.d.sel(&v), sel, "replace-nothing", "{}", name);
                        }
                    } else {
                        // the match that is selected, if one is
                        let at = span(*sel.last().unwrap());
                        let one =
                            |m: (usize, usize)| show(&apply(&t, &vec![(m.0, m.1, r.clone())]));
                        if sel.len() == 1 && all.contains(&at) {
                            ensure_eq!(show(&now), one(at), "replace-selected", "{:?}", w.q);
                        } else {
                            ensure!(
                                all.iter().any(|&m| one(m) == show(&now)),
                                "replace-next",
                                "{:?} became {:?}: none of {:?} replaced",
                                show(&t),
                                show(&now),
                                all
                            );
                        }
                    }
                    acted |= !all.is_empty();
                }
                t = now;
            }
        }
        if s.chance(1, 6) {
            // search while a batch is still due
            continue;
        }
        w.settle()?;
        any |= w.check(&t, "later")?;
    }
    w.settle()?;
    any |= w.check(&t, "at the end")?;
    let got: Vec<Vec<(usize, usize)>> = listed(&w.m.annotations, &t)?
        .into_iter()
        .map(|x| x.1)
        .collect();
    ensure_eq!(
        got,
        w.afresh(&t)?,
        "from-scratch",
        "{:?} in {:?}",
        w.q,
        show(&t)
    );
    if any && acted {
        s.nontrivial();
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn next(
    t: &str,
    all: &[(usize, usize)],
    sel: &Sel,
    now: &Sel,
    back: bool,
    wrap: bool,
    same: bool,
    mode: &str,
) -> Result<bool, Fail> {
    let last = span(*sel.last().unwrap());
    let name = if back { "previous" } else { "next" };
    if mode == "none" {
        ensure_eq!(now, sel, &format!("{}-none", name));
        return Ok(false);
    }
    let free = |m: &(usize, usize)| !sel.iter().any(|&r| touching(span(r), *m));
    let current = last.0 < last.1 && all.contains(&last);
    // candidates strictly ahead
    let ahead: Vec<(usize, usize)> = all
        .iter()
        .copied()
        .filter(|m| if back { m.1 <= last.0 } else { m.0 >= last.1 })
        .collect();
    let nearest = if back {
        ahead.iter().map(|m| m.1).max()
    } else {
        ahead.iter().map(|m| m.0).min()
    };
    if mode == "add" || mode == "add_removing_current" {
        // one more, or nothing; all others stay
        for &r in now {
            let x = span(r);
            ensure!(
                sel.contains(&r) || all.iter().any(|m| x.0 <= m.0 && m.1 <= x.1),
                &format!("{}-{}", name, mode),
                "{:?} is neither old nor a match",
                r
            );
        }
        return Ok(now != sel);
    }
    if now == sel {
        // nothing to go to
        ensure!(
            nearest.is_none() || (same && current) || (sel.len() == 1 && all.contains(&last)),
            &format!("{}-stays", name),
            "from {:?} though {:?}",
            sel,
            ahead
        );
        if !(same && current) {
            ensure!(
                nearest.is_none(),
                &format!("{}-stuck", name),
                "from {:?} though {:?}",
                sel,
                ahead
            );
            ensure!(
                !wrap || !all.iter().any(free),
                &format!("{}-no-wrap", name),
                "from {:?} though {:?}",
                sel,
                all
            );
        }
        return Ok(false);
    }
    ensure_eq!(now.len(), 1, &format!("{}-one", name), "{:?}", now);
    let m = span(now[0]);
    ensure!(
        all.contains(&m),
        &format!("{}-no-match", name),
        "{:?} in {:?}",
        m,
        show(t)
    );
    ensure_eq!(now[0], m, &format!("{}-caret", name));
    if same && current {
        ensure_eq!(m, last, &format!("{}-same", name));
        return Ok(true);
    }
    let overlaps = touching(m, last) && m != last;
    match nearest {
        Some(n) => ensure!(
            overlaps || (if back { m.1 } else { m.0 }) == n,
            &format!("{}-nearest", name),
            "from {:?} to {:?} of {:?}",
            sel,
            m,
            all
        ),
        None => {
            ensure!(
                overlaps || wrap,
                &format!("{}-wrapped", name),
                "from {:?} to {:?} of {:?}",
                sel,
                m,
                all
            );
            if !overlaps {
                let best = if back {
                    all.iter().filter(|m| free(m)).map(|m| m.1).max()
                } else {
                    all.iter().filter(|m| free(m)).map(|m| m.0).min()
                };
                ensure_eq!(
                    Some(if back { m.1 } else { m.0 }),
                    best,
                    &format!("{}-wrap", name),
                    "from {:?} to {:?} of {:?}",
                    sel,
                    m,
                    all
                );
            }
        }
    }
    Ok(true)
}

/// texts of several search batches, edited between them
fn batches(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let target = s.range(480_000, 1_700_000);
    let filler = ("lorem ipsum é ".repeat(9) + "\n").repeat(220);
    let mut t = String::new();
    let q = Query {
        chars: s
            .pick(&[
                "needle",
                "neédle",
                "a needle",
                "nee.le",
                "ne+dle\\b",
                "dle\nnee",
            ])
            .to_string(),
        case: s.bool(),
        re: false,
        whole: s.chance(1, 4),
    };
    let q = Query {
        re: q.chars.contains('.') || q.chars.contains('+'),
        ..q
    };
    let mut b = s.bulk_rng();
    while t.len() < target {
        let mut k = (b.next() % 20_000) as usize;
        while !filler.is_char_boundary(k) {
            k += 1;
        }
        t.push_str(&filler[k..]);
        t.push_str(
            [
                "needle",
                "a needle",
                "NEEDLE ",
                "neédle",
                "needle\nneedle",
                "needles",
                "nneedle",
            ][(b.next() % 7) as usize],
        );
    }
    // and one right across every batch border
    for k in 1..=t.len() / 500_000 {
        let mut at = k * 500_000 - s.range(0, 8);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        t.insert_str(at, "a needle\nneedle");
    }
    s.log(|| format!("{} bytes, {:?}", t.len(), q));
    d.edit(&v, "paste", json!({ "chars": t }));
    d.settle();
    let lines = line_starts(&t).len();
    let top = s.range(0, lines);
    d.edit(&v, "scroll", json!([top, top + 10]));
    d.edit(&v, "find", q.json());
    let mut acted = false;
    for _ in 0..s.range(0, 8) {
        if !d.step() {
            break;
        }
        if s.chance(1, 2) {
            let (l, c) = (s.range(0, lines), s.range(0, 20_000));
            d.edit(&v, "gesture", json!({"line": l, "col": c, "ty": {"select": {"granularity": "point", "multi": false}}}));
            let cmd = match s.below(4) {
                0 => cmds::unit("delete_to_end_of_paragraph"),
                1 => (
                    "paste".into(),
                    json!({ "chars": "needle\n".repeat(s.range(1, 9000)) }),
                ),
                2 => ("insert".into(), json!({"chars": "needle "})),
                _ => cmds::unit("move_to_end_of_document_and_modify_selection"),
            };
            if cmd.0.starts_with("move") && s.bool() {
                d.edit(&v, &cmd.0, cmd.1);
                d.edit(&v, "delete_backward", json!([]));
            } else {
                s.log(|| format!("at {}:{} {}", l, c, cmd.0));
                d.edit(&v, &cmd.0, cmd.1);
            }
            acted = true;
        }
    }
    d.settle();
    let t = d.text(&v);
    let want = q.all(&t);
    let msgs = d.take();
    let st = msgs
        .iter()
        .rev()
        .find(|m| m.0 == "find_status")
        .map(|m| m.1["queries"][0]["matches"].clone());
    ensure_eq!(st, Some(json!(want.len())), "batch-count", "{:?}", q);
    d.edit(&v, "find_all", json!([]));
    if !want.is_empty() {
        let now = d.sel(&v);
        ensure!(
            now == want,
            "batch-matches",
            "{:?}: first difference {:?}",
            q,
            now.iter().zip(&want).find(|x| x.0 != x.1)
        );
        let _ = acted;
        s.nontrivial();
    }
    Ok(())
}
