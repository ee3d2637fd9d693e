//! C05: the update stream, followed as documented, gives the true document.
use crate::cmds;
use crate::drive::Driver;
use crate::mirror::*;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;

pub fn check() -> Check {
    Check::new(
        "C05",
        "the document changed, and some update copied, updated or skipped lines the front end had",
    )
    .arm("plain", 4_000, 200_000, |s| run(s, 0, false))
    .arm("bytes", 1_500, 100_000, |s| run(s, 1, false))
    .arm("width", 1_500, 100_000, |s| run(s, 2, false))
    .arm("long", 250, 10_000, |s| run(s, 0, true))
    .arm("mixed", 1_000, 60_000, |s| run(s, 3, false))
}

/// the document as visual lines must be shown, without cursors at soft breaks settled
struct Truth {
    rows: Vec<(usize, usize)>,
    text: String,
    sel: Sel,
}

impl Truth {
    fn ln(&self, i: usize) -> Option<usize> {
        let s = self.rows[i].0;
        if s == 0 || self.text[..s].ends_with('\n') {
            Some(line_no(&self.text, s) + 1)
        } else {
            None
        }
    }
    fn soft(&self, p: usize) -> bool {
        p > 0
            && p < self.text.len()
            && !self.text[..p].ends_with('\n')
            && self.rows.iter().any(|r| r.0 == p)
    }
    /// cursors that must be on line i, and those that may
    fn cursors(&self, i: usize) -> (Vec<usize>, Vec<usize>) {
        let (s, e) = self.rows[i];
        let last = e == self.text.len();
        let (mut must, mut may) = (vec![], vec![]);
        for &(_, c) in &self.sel {
            if c < s || c > e {
                continue;
            }
            if self.soft(c) {
                may.push(c - s);
            } else if c < e || (last && i + 1 == self.rows.len()) {
                must.push(c - s);
            }
        }
        (must, may)
    }
    fn row(&self, i: usize, r: &Row, at: &str) -> R {
        let (s, e) = self.rows[i];
        ensure_eq!(
            show(&r.text),
            show(&self.text[s..e]),
            "line-text",
            "line {} {}",
            i,
            at
        );
        ensure_eq!(r.ln, self.ln(i), "line-number", "line {} {}", i, at);
        let (must, may) = self.cursors(i);
        ensure!(
            r.cursor.windows(2).all(|w| w[0] <= w[1]),
            "cursor-order",
            "line {} {}: {:?}",
            i,
            at,
            r.cursor
        );
        for c in &must {
            ensure!(
                r.cursor.contains(c),
                "cursor-missing",
                "line {} {}: {:?} lacks {} ({:?})",
                i,
                at,
                r.cursor,
                c,
                self.sel
            );
        }
        for c in &r.cursor {
            ensure!(
                must.contains(c) || may.contains(c),
                "cursor-stale",
                "line {} {}: {} of {:?} ({:?})",
                i,
                at,
                c,
                r.cursor,
                self.sel
            );
        }
        // selected parts
        let mut want: Vec<(isize, isize)> = vec![];
        for &x in &self.sel {
            let (a, b) = span(x);
            let (a, b) = (a.max(s), b.min(e));
            if a < b {
                want.push(((a - s) as isize, (b - s) as isize));
            }
        }
        let got: Vec<_> = r
            .styles
            .iter()
            .filter(|x| x.2 == 0)
            .map(|x| (x.0, x.1))
            .collect();
        ensure_eq!(
            got,
            want,
            "line-selected",
            "line {} {} ({:?})",
            i,
            at,
            self.sel
        );
        for x in &r.styles {
            ensure!(
                x.1 as usize <= e - s,
                "style-outside",
                "line {} {}: {:?}",
                i,
                at,
                r.styles
            );
        }
        Ok(())
    }
}

fn run(s: &mut Src, wrap: usize, long: bool) -> R {
    let mut d = Driver::new();
    let v = d.view();
    match wrap {
        1 => d.set_config(
            json!("general"),
            json!({ "wrap_width": *s.pick(&[1usize, 2, 5, 10, 30]) }),
        ),
        2 => {
            d.set_config(json!("general"), json!({ "word_wrap": true }));
            d.edit(
                &v,
                "resize",
                json!({"width": *s.pick(&[0.0, 1.0, 2.5, 6.0, 10.0, 40.0]), "height": 100.0}),
            );
        }
        _ => (),
    }
    let mut t = if long {
        let n = s.range(20, 2600);
        let mut b = s.bulk_rng();
        (0..n)
            .map(|_| format!("{}\n", ["", "a", "foo bar", "é"][(b.next() % 4) as usize]))
            .collect()
    } else {
        cmds::doc(s, 20)
    };
    s.log(|| format!("text {:?}", show(&t)));
    d.edit(&v, "paste", json!({ "chars": t }));
    d.settle();
    let mut m = Mirror::default();
    m.follow(&d.take(), &v)?;
    let mut window: Option<(usize, usize)> = None;
    let mut changed = false;
    let mut kept = false;
    let mut wrapping = wrap != 0;
    for _ in 0..s.range(1, if long { 14 } else { 25 }) {
        let lines = m.rows.len();
        let mut asked: Option<(usize, usize)> = None;
        let before = m.rows.iter().filter(|r| r.is_some()).count();
        let name;
        if s.chance(1, 30) || (wrap == 3 && s.chance(1, 5)) {
            let c = if wrap == 3 && s.bool() {
                json!({ "wrap_width": *s.pick(&[0usize, 1, 3, 8]) })
            } else {
                cmds::setting(s)
            };
            if c.get("wrap_width").is_some() || c.get("word_wrap").is_some() {
                wrapping = true;
            }
            name = format!("settings {}", c);
            let dom = if s.bool() {
                json!("general")
            } else {
                json!({ "user_override": v })
            };
            s.log(|| name.clone());
            d.set_config(dom, c);
        } else if s.chance(1, 20) {
            let c = *s.pick(&["cut", "copy"]);
            name = c.to_string();
            s.log(|| name.clone());
            let _ = d.edit_req(&v, c);
        } else {
            let (c, p) = match s.weighted(&[14, 3, 2, 2]) {
                0 => cmds::any(s, lines),
                1 => {
                    // windows and requests anywhere in the document
                    let a = s.range(0, lines) as i64;
                    ("scroll".into(), json!([a, a + s.range(0, 60) as i64]))
                }
                2 => {
                    let a = s.range(0, lines) as i64;
                    (
                        "request_lines".into(),
                        json!([a, a + s.range(0, 60) as i64]),
                    )
                }
                _ => ("insert".into(), json!({ "chars": cmds::chars(s) })),
            };
            name = format!("{} {}", c, p);
            s.log(|| name.clone());
            if c == "scroll" {
                window = Some((
                    p[0].as_i64().unwrap().max(0) as usize,
                    p[1].as_i64().unwrap().max(0) as usize,
                ));
            }
            if c == "request_lines" {
                let (a, b) = (
                    p[0].as_i64().unwrap().max(0) as usize,
                    p[1].as_i64().unwrap().max(0) as usize,
                );
                asked = Some((a, b));
            }
            d.edit(&v, &c, p);
        }
        let msgs = d.take();
        m.follow(&msgs, &v)?;
        if let Some((a, b)) = asked {
            for i in a..b.min(m.rows.len()) {
                ensure!(
                    m.rows[i].is_some(),
                    "request-unanswered",
                    "line {} of {:?} after {}",
                    i,
                    (a, b),
                    name
                );
            }
        }
        if s.chance(2, 3) || wrapping {
            d.settle();
        }
        let more = d.take();
        m.follow(&more, &v)?;
        for (k, p) in msgs.iter().chain(more.iter()) {
            if k == "scroll_to" && p["view_id"] == *v {
                let l = p["line"].as_u64().unwrap() as usize;
                if window.map(|w| l < w.0 || l >= w.1).unwrap_or(true) {
                    window = None; // the core scrolled; the front end has yet to say where to
                }
            }
            if k == "update" {
                kept |= before > 0
                    && p["update"]["ops"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .any(|o| o["op"] != "ins" && o["op"] != "invalidate");
            }
        }
        let t2 = d.text(&v);
        changed |= t2 != t;
        t = t2;
        let sel = d.sel(&v);
        // the true lines
        let held = m.rows.clone();
        let rows: Vec<(usize, usize)> = if !wrapping {
            let st = line_starts(&t);
            (0..st.len())
                .map(|i| (st[i], st.get(i + 1).copied().unwrap_or(t.len())))
                .collect()
        } else if s.chance(1, 3) {
            d.edit(&v, "request_lines", json!([0, 1u64 << 40]));
            m.follow(&d.take(), &v)?;
            for (i, r) in m.rows.iter().enumerate() {
                ensure!(
                    r.is_some(),
                    "request-unanswered",
                    "line {} of all after {}",
                    i,
                    name
                );
            }
            ensure_eq!(
                show(&m.text()),
                show(&t),
                "lines-text",
                "all lines after {}",
                name
            );
            let st = m.starts();
            (0..st.len())
                .map(|i| (st[i], st.get(i + 1).copied().unwrap_or(t.len())))
                .collect()
        } else {
            continue;
        };
        let truth = Truth {
            rows,
            text: t.clone(),
            sel,
        };
        for rows in [&held, &m.rows].iter() {
            ensure_eq!(rows.len(), truth.rows.len(), "line-count", "after {}", name);
            for (i, r) in rows.iter().enumerate() {
                if let Some(r) = r {
                    truth.row(i, r, &format!("after {}", name))?;
                }
            }
        }
        if m.valid() {
            let n: usize = m
                .rows
                .iter()
                .map(|r| r.as_ref().unwrap().cursor.len())
                .sum();
            ensure_eq!(n, truth.sel.len(), "cursor-count", "after {}", name);
        }
        if let Some((a, b)) = window {
            for i in a..b.min(held.len()) {
                ensure!(
                    held[i].is_some(),
                    "window-invalid",
                    "line {} of window {:?} after {}",
                    i,
                    (a, b),
                    name
                );
            }
        }
        if t.len() > 60_000 {
            break;
        }
    }
    if changed && kept {
        s.nontrivial();
    }
    Ok(())
}
