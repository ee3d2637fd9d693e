//! C08: cut, copy, paste, kill and yank.
use crate::c03::{after_carets, deletions, place};
use crate::cmds;
use crate::drive::Driver;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Value};

pub fn check() -> Check {
    Check::new(
        "C08",
        "text was carried by two or more carets at once, or killed and yanked back",
    )
    .arm("clipboard", 5_000, 250_000, clipboard)
    .arm("lines", 2_500, 100_000, lines)
}

fn selected(t: &str, sel: &Sel) -> Option<String> {
    let v: Vec<&str> = sel
        .iter()
        .filter(|r| r.0 != r.1)
        .map(|&r| &t[span(r).0..span(r).1])
        .collect();
    if v.is_empty() {
        None
    } else {
        Some(v.join("\n"))
    }
}

fn pasted(sel: &Sel, chars: &str) -> Edits {
    let lines: Vec<&str> = chars.lines().collect();
    let n = if chars.is_empty() {
        1
    } else {
        chars.matches('\n').count() + if chars.ends_with('\n') { 0 } else { 1 }
    };
    let split = sel.len() > 1 && n == sel.len();
    sel.iter()
        .enumerate()
        .map(|(i, &r)| {
            (
                span(r).0,
                span(r).1,
                if split {
                    lines[i].to_string()
                } else {
                    chars.to_string()
                },
            )
        })
        .collect()
}

fn check_edit(d: &mut Driver, v: &str, what: &str, t: &str, sel: &Sel, e: &Edits) -> R {
    let got = d.text(v);
    let now = d.sel(v);
    ensure_eq!(
        show(&got),
        show(&apply(t, e)),
        &format!("{}-text", what),
        "{} {:?}",
        show(t),
        sel
    );
    if let Some(w) = after_carets(sel, e, true) {
        let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
        ensure_eq!(
            have,
            w,
            &format!("{}-carets", what),
            "{} {:?}",
            show(t),
            sel
        );
    }
    Ok(())
}

struct World {
    views: Vec<String>,
    ring: Option<String>,
    clip: Option<String>,
}

fn act(s: &mut Src, d: &mut Driver, w: &mut World, m: &str) -> R {
    let v = w.views[s.idx(w.views.len())].clone();
    let v = &v;
    if s.chance(3, 4) {
        place(s, d, v);
    }
    let t = d.text(v);
    let sel = d.sel(v);
    s.log(|| format!("{} {} in {} {:?}", v, m, show(&t), sel));
    match m {
        "copy" | "cut" => {
            let got = d.edit_req(v, m);
            let got = match got {
                Ok(x) => x,
                Err(e) => return pbt::fail("copy-result", &format!("{} failed: {:?}", m, e)),
            };
            let want = selected(&t, &sel);
            ensure_eq!(
                got,
                want.clone().map(Value::String).unwrap_or(Value::Null),
                &format!("{}-result", m),
                "{} {:?}",
                show(&t),
                sel
            );
            if m == "copy" {
                ensure_eq!(show(&d.text(v)), show(&t), "copy-changes");
                ensure_eq!(d.sel(v), sel, "copy-changes");
            } else {
                let e: Edits = sel
                    .iter()
                    .map(|&r| (span(r).0, span(r).1, String::new()))
                    .collect();
                check_edit(d, v, "cut", &t, &sel, &e)?;
            }
            if want.is_some() {
                if sel.len() > 1 {
                    s.nontrivial();
                }
                w.clip = want;
            }
        }
        "paste" => {
            let c = match &w.clip {
                Some(c) if s.chance(2, 3) => c.clone(),
                _ if s.bool() => {
                    // as many lines as there are carets, or nearly
                    let n = (sel.len() + s.range(0, 2)).saturating_sub(1);
                    let nl = *s.pick(&["\n", "\n", "\r\n"]);
                    let mut x = (0..n)
                        .map(|_| *s.pick(&["a", "b", "", "é", "xy", "漢"]))
                        .collect::<Vec<_>>()
                        .join(nl);
                    if s.chance(1, 3) {
                        x.push_str(nl);
                    }
                    x
                }
                _ => cmds::chars(s),
            };
            s.log(|| format!("    {}", show(&c)));
            d.edit(v, "paste", json!({ "chars": c }));
            if sel.len() > 1 && !c.is_empty() {
                s.nontrivial();
            }
            check_edit(d, v, "paste", &t, &sel, &pasted(&sel, &c))?;
        }
        "yank" => {
            d.edit(v, "yank", json!([]));
            match &w.ring {
                Some(r) => {
                    s.nontrivial();
                    let e: Edits = sel
                        .iter()
                        .map(|&x| (span(x).0, span(x).1, r.clone()))
                        .collect();
                    check_edit(d, v, "yank", &t, &sel, &e)?;
                }
                None => {
                    // nothing was killed: nothing is inserted
                    let now = d.text(v);
                    let e: Edits = sel
                        .iter()
                        .map(|&x| (span(x).0, span(x).1, String::new()))
                        .collect();
                    ensure!(
                        now == t || now == apply(&t, &e),
                        "yank-empty",
                        "{} -> {}",
                        show(&t),
                        show(&now)
                    );
                }
            }
        }
        "delete_to_end_of_paragraph" => {
            let del = deletions(&t, &sel, |c| {
                let e = eol(&t, c);
                if e <= c {
                    t[c..].find('\n').map(|i| c + i + 1).unwrap_or(c)
                } else {
                    e
                }
            });
            let del: Vec<_> = del.into_iter().filter(|r| r.0 < r.1).collect();
            d.edit(v, m, json!([]));
            let e: Edits = del.iter().map(|r| (r.0, r.1, String::new())).collect();
            ensure_eq!(show(&d.text(v)), show(&apply(&t, &e)), "kill-text");
            if !del.is_empty() {
                w.ring = Some(
                    del.iter()
                        .map(|r| &t[r.0..r.1])
                        .collect::<Vec<_>>()
                        .join("\n"),
                );
            }
        }
        "delete_forward"
        | "delete_backward"
        | "delete_word_backward"
        | "delete_to_beginning_of_line"
        | "undo"
        | "redo"
        | "select_all"
        | "collapse_selections"
        | "selection_into_lines"
        | "transpose" => {
            d.edit(v, m, json!([]));
        }
        _ => {
            d.edit(v, "insert", json!({ "chars": cmds::chars(s) }));
        }
    }
    if s.chance(1, 4) {
        d.settle();
    }
    s.log(|| format!("    -> {} {:?}", show(&d.text(v)), d.sel(v)));
    Ok(())
}

fn clipboard(s: &mut Src) -> R {
    let mut d = Driver::new();
    let mut w = World {
        views: vec![d.view()],
        ring: None,
        clip: None,
    };
    if s.chance(1, 4) {
        w.views.push(d.view());
    }
    for v in &w.views {
        let t = cmds::doc(s, 14);
        d.edit(v, "paste", json!({ "chars": t }));
    }
    for _ in 0..s.range(2, 14) {
        let m = *s.pick(&[
            "copy",
            "cut",
            "cut",
            "paste",
            "paste",
            "paste",
            "yank",
            "yank",
            "delete_to_end_of_paragraph",
            "delete_to_end_of_paragraph",
            "delete_forward",
            "delete_backward",
            "delete_word_backward",
            "delete_to_beginning_of_line",
            "undo",
            "redo",
            "collapse_selections",
            "selection_into_lines",
            "transpose",
            "insert",
            "select_all",
        ]);
        act(s, &mut d, &mut w, m)?;
        if w.views.iter().any(|v| {
            d.core
                .inner()
                .verif_selection(crate::drive::vid(v))
                .map(|x| x.len() > 60)
                .unwrap_or(false)
        }) || w.views.clone().iter().any(|v| d.text(v).len() > 3000)
        {
            break;
        }
    }
    Ok(())
}

/// a block of lines, one caret on each: cut, move the carets, put the pieces back
fn lines(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let n = s.range(2, 7);
    let nl = *s.pick(&["\n", "\r\n"]);
    let rows: Vec<String> = (0..n)
        .map(|_| {
            (0..s.range(1, 4))
                .map(|_| {
                    *s.pick(&[
                        "ab",
                        "é",
                        "漢字",
                        " ",
                        "e\u{301}",
                        "x",
                        "👩\u{200d}👧",
                        "\t",
                    ])
                })
                .collect()
        })
        .collect();
    let t = rows.join(nl);
    d.edit(&v, "paste", json!({ "chars": t }));
    d.edit(&v, "select_all", json!([]));
    d.edit(&v, "selection_into_lines", json!([]));
    let want: Vec<(usize, usize)> = {
        let st = line_starts(&t);
        (0..n).map(|i| (st[i], st[i] + rows[i].len())).collect()
    };
    let have: Vec<_> = d.sel(&v).iter().map(|&r| span(r)).collect();
    ensure_eq!(have, want, "into-lines", "{}", show(&t));
    let c = d.edit_req(&v, "cut").unwrap();
    s.log(|| format!("{} cut -> {:?} {}", show(&t), c, show(&d.text(&v))));
    ensure_eq!(c, json!(rows.join("\n")), "cut-result", "{}", show(&t));
    ensure_eq!(show(&d.text(&v)), show(&nl.repeat(n - 1)), "cut-text");
    if s.bool() {
        d.edit(&v, "insert", json!({"chars": "<"}));
    }
    let (t1, sel) = (d.text(&v), d.sel(&v));
    d.edit(&v, "paste", json!({ "chars": c }));
    s.nontrivial();
    let e: Edits = sel
        .iter()
        .zip(rows.iter())
        .map(|(&r, x)| (span(r).0, span(r).1, x.clone()))
        .collect();
    s.log(|| format!("pasted {}", show(&d.text(&v))));
    ensure_eq!(sel.len(), n, "cut-carets");
    check_edit(&mut d, &v, "paste", &t1, &sel, &e)
}
