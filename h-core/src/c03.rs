//! C03: what editing commands do to the text, at every caret at once.
use crate::cmds;
use crate::drive::Driver;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use std::collections::BTreeSet;

pub fn check() -> Check {
    Check::new(
        "C03",
        "the command changed the text, and there were several carets or a selection",
    )
    .arm("text", 6_000, 300_000, any_text)
    .arm("numbers", 2_500, 100_000, numbers)
    .arm("words", 2_500, 100_000, words)
}

/// random carets and selections
pub fn place(s: &mut Src, d: &mut Driver, v: &str) {
    let t = d.text(v);
    let lines = t.matches('\n').count() + 1;
    for _ in 0..s.range(1, 5) {
        match s.weighted(&[3, 6, 3, 2, 2, 1]) {
            0 => d.edit(v, "gesture", { let (l, c) = near(s, &t, lines); json!({"line": l, "col": c, "ty": {"select": {"granularity": "point", "multi": false}}}) }),
            1 => d.edit(v, "gesture", { let (l, c) = near(s, &t, lines); json!({"line": l, "col": c, "ty": {"select": {"granularity": "point", "multi": true}}}) }),
            2 => d.edit(v, "gesture", { let (l, c) = near(s, &t, lines); json!({"line": l, "col": c, "ty": "drag"}) }),
            3 => {
                let m = *s.pick(cmds::MODIFY);
                if !m.contains("document") || s.chance(1, 3) {
                    d.edit(v, m, json!([]))
                }
            }
            4 => d.edit(v, *s.pick(cmds::MOVES), json!([])),
            _ => d.edit(v, *s.pick(cmds::SELS), json!([])),
        }
    }
}

fn near(s: &mut Src, t: &str, lines: usize) -> (usize, usize) {
    let st = line_starts(t);
    let l = s.range(0, lines - 1);
    let end = st.get(l + 1).copied().unwrap_or(t.len());
    (l, s.range(0, end - st[l]))
}

pub fn deletions(t: &str, sel: &Sel, f: impl Fn(usize) -> usize) -> Vec<(usize, usize)> {
    let v = sel
        .iter()
        .map(|&r| {
            if r.0 == r.1 {
                span((r.0, f(r.0)))
            } else {
                span(r)
            }
        })
        .collect();
    let _ = t;
    union(v)
}

/// the expected edits, and whether carets are those after typing/deleting
pub fn expect(t: &str, sel: &Sel, m: &str, p: &serde_json::Value) -> Option<(Edits, bool)> {
    let del = |f: &dyn Fn(usize) -> usize| {
        Some((
            deletions(t, sel, f)
                .into_iter()
                .map(|r| (r.0, r.1, String::new()))
                .collect::<Edits>(),
            true,
        ))
    };
    let rep = |f: &dyn Fn(&str) -> String| -> Edits {
        sel.iter()
            .map(|&r| (span(r).0, span(r).1, f(&t[span(r).0..span(r).1])))
            .collect()
    };
    match m {
        "insert" => {
            let c = p["chars"].as_str().unwrap();
            Some((rep(&|_| c.to_string()), true))
        }
        "insert_newline" => Some((rep(&|_| "\n".to_string()), true)),
        "uppercase" => Some((rep(&|x| x.to_uppercase()), false)),
        "lowercase" => Some((rep(&|x| x.to_lowercase()), false)),
        "delete_forward" => del(&|c| next_g(t, c).unwrap_or(c)),
        "delete_word_forward" => del(&|c| next_word(t, c)),
        "delete_word_backward" => del(&|c| prev_word(t, c)),
        "delete_to_beginning_of_line" => del(&|c| bol(t, c)),
        "delete_to_end_of_paragraph" => del(&|c| {
            let e = eol(t, c);
            if e <= c {
                // at the end of the line: its line break, whole
                t[c..].find('\n').map(|i| c + i + 1).unwrap_or(c)
            } else {
                e
            }
        }),
        "duplicate_line" => {
            let mut set = BTreeSet::new();
            for &r in sel {
                let (a, b) = span(r);
                let s = bol(t, a);
                let e = t[b..].find('\n').map(|i| b + i + 1).unwrap_or(t.len());
                set.insert((s, e));
            }
            let mut v: Edits = vec![];
            for (s, e) in set {
                let mut x = t[s..e].to_string();
                if !x.ends_with('\n') {
                    x.push('\n');
                }
                v.push((s, s, x));
            }
            Some((v, false))
        }
        "transpose" => {
            if sel.iter().any(|r| r.0 != r.1) {
                if sel.iter().any(|r| r.0 == r.1) {
                    return None;
                }
                let n = sel.len();
                return Some((
                    (0..n)
                        .map(|i| {
                            let (a, b) = span(sel[i]);
                            let (x, y) = span(sel[(i + n - 1) % n]);
                            (a, b, t[x..y].to_string())
                        })
                        .collect(),
                    false,
                ));
            }
            let mut v: Edits = vec![];
            for &(c, _) in sel {
                let mut mid = c;
                let mut a = prev_g(t, c).unwrap_or(0);
                let mut b = next_g(t, c).unwrap_or(c);
                if b != t.len() && t[..b].ends_with('\n') {
                    b = c;
                    mid = a;
                    a = prev_g(t, mid).unwrap_or(0);
                }
                if let Some(l) = v.last() {
                    if a < l.1 {
                        return None; // carets too close together to tell
                    }
                }
                v.push((a, b, format!("{}{}", &t[mid..b], &t[a..mid])));
            }
            Some((v, false))
        }
        _ => None,
    }
}

pub fn after_carets(sel: &Sel, e: &Edits, typed: bool) -> Option<Sel> {
    if !typed {
        return None;
    }
    // every region becomes the caret past its own replacement; of regions that
    // touch, past the last one
    let mut v: Sel = vec![];
    for (i, &r) in sel.iter().enumerate() {
        let mut p = span(r).1;
        for n in &sel[i + 1..] {
            if span(*n).0 == p {
                p = span(*n).1;
            }
        }
        let c = carried(e, p, true);
        v.push((c, c));
    }
    Some(joined(v))
}

fn one(s: &mut Src, d: &mut Driver, v: &str, m: &str, p: serde_json::Value) -> R {
    let t = d.text(v);
    let sel = d.sel(v);
    let before = d.edit_req(v, "copy");
    d.edit(v, m, p.clone());
    d.settle();
    let got = d.text(v);
    let now = d.sel(v);
    s.log(|| {
        format!(
            "{:?} {:?} {} {} -> {:?} {:?}",
            show(&t),
            sel,
            m,
            p,
            show(&got),
            now
        )
    });
    let _ = before;
    if got != t && (sel.len() > 1 || sel[0].0 != sel[0].1) {
        s.nontrivial();
    }
    if let Some((e, typed)) = expect(&t, &sel, m, &p) {
        let want = apply(&t, &e);
        ensure_eq!(got, want, &*format!("{}-text", m), "after {} {}", m, p);
        if let Some(w) = after_carets(&sel, &e, typed) {
            let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
            ensure_eq!(
                have,
                w,
                &*format!("{}-carets", m),
                "carets after {} {}",
                m,
                p
            );
        }
        // every caret is still at text its region covered or at what replaced it
        if !typed {
            let ok: Vec<(usize, usize)> = sel
                .iter()
                .map(|&r| (carried(&e, span(r).0, false), carried(&e, span(r).1, true)))
                .collect();
            for &(a, c) in &now {
                for q in [a, c].iter() {
                    ensure!(
                        ok.iter().any(|w| w.0 <= *q && *q <= w.1),
                        &*format!("{}-carets", m),
                        "caret {} after {} {} outside {:?}",
                        q,
                        m,
                        p,
                        ok
                    );
                }
            }
        }
    } else if m == "transpose" {
        let (mut a, mut b): (Vec<char>, Vec<char>) = (t.chars().collect(), got.chars().collect());
        a.sort();
        b.sort();
        ensure_eq!(b, a, "transpose-loses", "transpose changed the characters");
    }
    Ok(())
}

fn any_text(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let t = cmds::doc(s, 16);
    d.edit(&v, "paste", json!({ "chars": t }));
    for _ in 0..s.range(2, 9) {
        place(s, &mut d, &v);
        let m = *s.pick(&[
            "insert",
            "insert_newline",
            "uppercase",
            "lowercase",
            "delete_forward",
            "delete_word_forward",
            "delete_word_backward",
            "delete_to_beginning_of_line",
            "delete_to_end_of_paragraph",
            "duplicate_line",
            "transpose",
            "transpose",
        ]);
        let p = if m == "insert" {
            let c = cmds::chars(s);
            if ["\"", "'", "{", "["].contains(&c.as_str()) {
                continue;
            }
            json!({ "chars": c })
        } else {
            json!([])
        };
        one(s, &mut d, &v, m, p)?;
        if d.text(&v).len() > 4000 {
            break;
        }
    }
    // a surrounding pair typed over selections only
    place(s, &mut d, &v);
    let sel = d.sel(&v);
    if sel.iter().all(|r| r.0 != r.1) {
        let t = d.text(&v);
        let (o, c) = *s.pick(&[("\"", "\""), ("'", "'"), ("{", "}"), ("[", "]")]);
        d.edit(&v, "insert", json!({ "chars": o }));
        let mut e: Edits = vec![];
        for &r in &sel {
            let (a, b) = span(r);
            e.push((a, a, o.into()));
            e.push((b, b, c.into()));
        }
        let got = d.text(&v);
        ensure_eq!(
            got,
            apply(&t, &e),
            "surround-text",
            "{:?} {:?} {}",
            show(&t),
            sel,
            o
        );
        let now = d.sel(&v);
        ensure_eq!(now.len(), sel.len(), "surround-carets");
        for (x, y) in sel.iter().zip(now.iter()) {
            ensure_eq!(
                &got[span(*y).0..span(*y).1],
                &t[span(*x).0..span(*x).1],
                "surround-carets"
            );
        }
        s.nontrivial();
    }
    Ok(())
}

/// the digits a caret is at, with their sign
fn number_at(t: &str, p: usize) -> Option<(usize, usize)> {
    let word = |c: char| class(c) == Class::Word;
    let a = t[..p]
        .char_indices()
        .rev()
        .take_while(|x| word(x.1))
        .last()
        .map(|x| x.0)
        .unwrap_or(p);
    let b = p + t[p..]
        .chars()
        .take_while(|&c| word(c))
        .map(|c| c.len_utf8())
        .sum::<usize>();
    if a == b || !t[a..b].chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some((if t[..a].ends_with('-') { a - 1 } else { a }, b))
}

fn numbers(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let mut t = String::new();
    for _ in 0..s.range(1, 10) {
        t.push_str(*s.pick(&[
            "1",
            "42",
            "-7",
            "0",
            "-1",
            "099",
            "-0",
            "9999999999999999999999",
            "170141183460469231731687303715884105727",
            "-170141183460469231731687303715884105728",
            "170141183460469231731687303715884105728",
            "a1",
            "1a",
            "é",
            "x",
            "3",
            "9",
        ]));
        t.push_str(*s.pick(&[" ", "\n", ", ", "-", " ", "(", "\t", "", "."]));
    }
    d.edit(&v, "paste", json!({ "chars": t }));
    for _ in 0..s.range(1, 5) {
        place(s, &mut d, &v);
        let up = s.bool();
        let (t, sel) = (d.text(&v), d.sel(&v));
        d.edit(
            &v,
            if up {
                "increase_number"
            } else {
                "decrease_number"
            },
            json!([]),
        );
        let got = d.text(&v);
        s.log(|| format!("{:?} {:?} up {} -> {:?}", show(&t), sel, up, show(&got)));
        let mut e: Edits = vec![];
        if sel.iter().any(|&(_, c)| {
            number_at(&t, c).is_none() && t[c..].starts_with(|x| x == '-' || x == '+')
        }) {
            continue; // just before a sign: either way
        }
        for &(_, c) in &sel {
            if let Some((a, b)) = number_at(&t, c) {
                if e.last().map(|l| a < l.1).unwrap_or(false) {
                    continue;
                }
                let n: Option<i128> = t[a..b].parse().ok();
                let n = n.and_then(|n| {
                    if up {
                        n.checked_add(1)
                    } else {
                        n.checked_sub(1)
                    }
                });
                if let Some(n) = n {
                    e.push((a, b, n.to_string()));
                }
            }
        }
        if !e.is_empty() {
            s.nontrivial();
        }
        ensure_eq!(
            got,
            apply(&t, &e),
            "number-text",
            "{:?} {:?} up {}",
            show(&t),
            sel,
            up
        );
    }
    Ok(())
}

/// capitalizing: whole words the carets and selections touch
fn words(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let mut t = String::new();
    for _ in 0..s.range(1, 8) {
        t.push_str(*s.pick(&[
            "foo", "BAR", "x", "éa", "ßa", "ﬁn", "ǆa", "Ωm", "iX", "aẞ", "漢", "a1", "mİ",
        ]));
        t.push_str(*s.pick(&[" ", "  ", "\n", " \n", "\t", " "]));
    }
    d.edit(&v, "paste", json!({ "chars": t }));
    for _ in 0..s.range(1, 5) {
        place(s, &mut d, &v);
        let (t, sel) = (d.text(&v), d.sel(&v));
        d.edit(&v, "capitalize", json!([]));
        let got = d.text(&v);
        s.log(|| {
            format!(
                "{:?} {:?} -> {:?} {:?}",
                show(&t),
                sel,
                show(&got),
                d.sel(&v)
            )
        });
        let mut at = 0; // in t
        let mut g = 0; // in got
        let ci: Vec<(usize, char)> = t.char_indices().collect();
        let mut i = 0;
        while i < ci.len() {
            let p = ci[i].0;
            if class(ci[i].1) != Class::Word {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < ci.len() && class(ci[j].1) == Class::Word {
                j += 1;
            }
            let q = ci.get(j).map(|x| x.0).unwrap_or(t.len());
            i = j;
            ensure!(
                got[g..].starts_with(&t[at..p]),
                "capitalize-between",
                "between words at {}: {:?}",
                at,
                &got[g..]
            );
            g += p - at;
            at = q;
            let w = &t[p..q];
            let f = w.chars().next().unwrap().len_utf8();
            let cap = w[..f].to_uppercase() + &w[f..].to_lowercase();
            // the word before or after a caret between words may be meant
            let no_word =
                |a: usize, b: usize| a >= b || !t[a..b].chars().any(|c| class(c) == Class::Word);
            let touched = sel
                .iter()
                .any(|&r| no_word(q, span(r).0) && no_word(span(r).1, p));
            let must = sel.iter().any(|&r| {
                let (a, b) = span(r);
                if a == b {
                    p <= a && a <= q
                } else {
                    a < q && b > p
                }
            });
            let ends = |rest: &str, w: &str| {
                rest.starts_with(w)
                    && rest[w.len()..]
                        .chars()
                        .next()
                        .map(|c| class(c) != Class::Word)
                        .unwrap_or(true)
            };
            if touched && ends(&got[g..], &cap) {
                g += cap.len();
                if cap != w {
                    s.nontrivial();
                }
            } else {
                ensure!(
                    !must,
                    "capitalize-missed",
                    "{:?} should have become {:?}: {:?}",
                    w,
                    cap,
                    &got[g..]
                );
                ensure!(
                    ends(&got[g..], w),
                    "capitalize-other",
                    "{:?} changed: {:?}",
                    w,
                    &got[g..]
                );
                g += w.len();
            }
        }
        ensure_eq!(&got[g..], &t[at..], "capitalize-between");
        for (a, b) in d.sel(&v) {
            ensure!(
                a == b && a <= got.len() && got.is_char_boundary(a),
                "capitalize-carets",
                "{:?}",
                d.sel(&v)
            );
        }
    }
    Ok(())
}
