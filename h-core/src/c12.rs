//! C12: tab, indent, outdent and newline, at any tab size, with tabs or spaces.
use crate::c03::place;
use crate::drive::Driver;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use std::collections::BTreeSet;

pub fn check() -> Check {
    Check::new("C12", "a command changed the text with several lines or carets selected, or a tab was written off a tab stop")
        .arm("keys", 9_000, 300_000, run)
}

const PARTS: &[&str] = &[
    "a",
    "foo",
    " ",
    "  ",
    "    ",
    "\t",
    "\n",
    "\n",
    "\n\n",
    "é",
    "漢",
    "\r\n",
    "x y",
    "\t ",
    " \t",
    "          ",
    "\u{3000}",
    "\r",
    "\u{a0}",
];

fn doc(s: &mut Src) -> String {
    (0..s.range(0, 18)).map(|_| *s.pick(PARTS)).collect()
}

struct Conf {
    size: usize,
    spaces: bool,
    eol: &'static str,
}

impl Conf {
    fn level(&self) -> String {
        if self.spaces {
            " ".repeat(self.size)
        } else {
            "\t".into()
        }
    }
}

/// the lines a region selects: not the last one if it only reaches its beginning
fn lines(starts: &[usize], r: (usize, usize)) -> Vec<usize> {
    let (a, b) = span(r);
    let (la, mut lb) = (line_of(starts, a), line_of(starts, b));
    if lb > la && starts[lb] == b {
        lb -= 1;
    }
    (la..=lb).collect()
}

fn model(t: &str, sel: &Sel, c: &Conf, m: &str) -> Edits {
    let starts = line_starts(t);
    let all: BTreeSet<usize> = sel.iter().flat_map(|&r| lines(&starts, r)).collect();
    let mut e: Edits = vec![];
    match m {
        "indent" => all
            .iter()
            .for_each(|&l| e.push((starts[l], starts[l], c.level()))),
        "outdent" => {
            for &l in &all {
                let a = starts[l];
                let mut b = a;
                for x in t[a..].bytes() {
                    if b - a == c.size || (x != b' ' && x != b'\t') {
                        break;
                    }
                    b += 1;
                    if x == b'\t' {
                        break;
                    }
                }
                if a < b {
                    e.push((a, b, String::new()));
                }
            }
        }
        "insert_tab" => {
            let mut whole = BTreeSet::new();
            for &r in sel {
                let l = lines(&starts, r);
                if l.len() > 1 {
                    whole.extend(l);
                } else {
                    let (a, b) = span(r);
                    let col = a - starts[l[0]];
                    let x = if c.spaces {
                        " ".repeat(c.size - col % c.size)
                    } else {
                        "\t".into()
                    };
                    e.push((a, b, x));
                }
            }
            whole
                .iter()
                .for_each(|&l| e.push((starts[l], starts[l], c.level())));
            e.sort_by_key(|x| (x.0, x.1));
        }
        _ => sel
            .iter()
            .for_each(|&r| e.push((span(r).0, span(r).1, c.eol.to_string()))),
    }
    e
}

fn run(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let mut c = Conf {
        size: 4,
        spaces: true,
        eol: "\n",
    };
    let mut t = doc(s);
    d.edit(&v, "paste", json!({ "chars": t }));
    s.log(|| format!("text {:?}", show(&t)));
    if s.chance(1, 3) {
        d.set_config(
            json!("general"),
            json!({ "wrap_width": *s.pick(&[1usize, 3, 8]) }),
        );
    }
    for _ in 0..s.range(1, 6) {
        if s.chance(1, 2) {
            c = Conf {
                size: *s.pick(&[1, 2, 3, 4, 4, 5, 8, 13]),
                spaces: s.chance(2, 3),
                eol: *s.pick(&["\n", "\n", "\r\n"]),
            };
            let set = json!({"tab_size": c.size, "translate_tabs_to_spaces": c.spaces, "line_ending": c.eol});
            d.set_config(json!({ "user_override": v }), set);
            s.log(|| {
                format!(
                    "tab size {} spaces {} line ending {:?}",
                    c.size, c.spaces, c.eol
                )
            });
        }
        place(s, &mut d, &v);
        d.settle();
        t = d.text(&v);
        let sel = d.sel(&v);
        let m = *s.pick(&[
            "insert_tab",
            "insert_tab",
            "indent",
            "indent",
            "outdent",
            "outdent",
            "insert_newline",
            "round",
        ]);
        s.log(|| format!("{:?} {:?}: {}", show(&t), sel, m));
        let starts = line_starts(&t);
        if m == "round" {
            let e = model(&t, &sel, &c, "indent");
            d.edit(&v, "indent", json!([]));
            ensure_eq!(show(&d.text(&v)), show(&apply(&t, &e)), "indent");
            s.log(|| format!("    {:?}", d.sel(&v)));
            d.edit(&v, "outdent", json!([]));
            ensure_eq!(show(&d.text(&v)), show(&t), "indent-outdent");
            if e.len() > 1 {
                s.nontrivial();
            }
            continue;
        }
        let e = model(&t, &sel, &c, m);
        let want = apply(&t, &e);
        d.edit(&v, m, json!([]));
        let now = d.text(&v);
        ensure_eq!(show(&now), show(&want), m);
        let then = d.sel(&v);
        s.log(|| format!("    -> {:?} {:?}", show(&now), then));
        if now != t {
            let off = m == "insert_tab"
                && sel
                    .iter()
                    .any(|&r| (span(r).0 - starts[line_of(&starts, span(r).0)]) % c.size != 0);
            if e.len() > 1 || off {
                s.nontrivial();
            }
        }
        if m == "insert_tab" && sel.len() == 1 && lines(&starts, sel[0]).len() == 1 {
            // the caret follows, and is at a tab stop if it was written as spaces
            let p = span(sel[0]).0 + e[0].2.len();
            ensure_eq!(then, vec![(p, p)], "tab-caret");
            ensure!(
                !c.spaces || (p - starts[line_of(&starts, span(sel[0]).0)]) % c.size == 0,
                "tab-stop",
                "{}",
                p
            );
        }
        if m == "indent" || m == "outdent" {
            // the selection stays on its text
            let mut ok = then.len() <= sel.len();
            for r in &then {
                // (regions that meet are joined)
                let from = |p: usize| {
                    sel.iter().any(|q| {
                        [q.0, q.1]
                            .iter()
                            .any(|&o| carried(&e, o, true) == p || carried(&e, o, false) == p)
                    })
                };
                ok &= from(r.0) && from(r.1);
            }
            ensure!(
                ok,
                "indent-selection",
                "{} moved {:?} to {:?}",
                m,
                sel,
                then
            );
        }
        if now != t && s.chance(1, 3) {
            d.edit(&v, "undo", json!([]));
            ensure_eq!(show(&d.text(&v)), show(&t), "undo");
            d.edit(&v, "redo", json!([]));
            ensure_eq!(show(&d.text(&v)), show(&now), "redo");
        }
        t = now;
    }
    let _ = t;
    Ok(())
}
