//! C06: visual lines partition the text legally, and follow every edit.
use crate::cmds;
use crate::drive::{char_width, Driver};
use crate::mirror::*;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use std::collections::BTreeSet;
use xi_unicode::LineBreakIterator;

pub fn check() -> Check {
    Check::new(
        "C06",
        "a soft break was placed after an edit, in a view that wraps",
    )
    .arm("history", 2_500, 150_000, |s| run(s, false))
    .arm("long", 250, 10_000, |s| run(s, true))
    .arm("two", 1_000, 40_000, two)
    .arm("convert", 1_500, 80_000, convert)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrap {
    None,
    Bytes(usize),
    Width(f64),
}

const BITS: &[&str] = &[
    "a",
    "foo",
    "bar ",
    " ",
    "  ",
    "\n",
    "\n",
    "\r\n",
    "hello-world ",
    "漢字かな",
    "é",
    "e\u{301}",
    "mmm",
    "iii.iii",
    "x/y/z",
    "\t",
    "(a b)",
    "\u{200b}",
    "a\u{a0}b",
    "\u{2028}",
    "1,000.5",
    "👩\u{200d}👧",
    "\u{301}",
    "$5 ",
    "longlonglonglongword",
    "\u{85}",
    "\r",
    "\u{ad}",
];

pub fn text(s: &mut Src, max: usize) -> String {
    (0..s.range(0, max)).map(|_| *s.pick(BITS)).collect()
}

pub fn width(t: &str, w: Wrap) -> f64 {
    match w {
        Wrap::Width(_) => t.chars().map(char_width).sum(),
        _ => t.chars().count() as f64,
    }
}

/// are these line starts the documented wrapping of `t`?
pub fn legal(t: &str, starts: &[usize], w: Wrap) -> R {
    ensure!(starts.first() == Some(&0), "line-start", "{:?}", starts);
    ensure!(
        starts.windows(2).all(|x| x[0] < x[1]),
        "line-empty",
        "{:?}",
        starts
    );
    let have: BTreeSet<usize> = starts.iter().copied().collect();
    for p in line_starts(t) {
        ensure!(
            have.contains(&p),
            "newline-unbroken",
            "no line starts at {} after a newline",
            p
        );
    }
    let max = match w {
        Wrap::None => {
            ensure_eq!(starts.to_vec(), line_starts(t), "unwrapped-lines");
            return Ok(());
        }
        Wrap::Bytes(n) => n as f64,
        Wrap::Width(x) => x,
    };
    let opps: Vec<(usize, bool)> = LineBreakIterator::new(t).collect();
    let can: BTreeSet<usize> = opps.iter().map(|x| x.0).collect();
    for (p, must) in &opps {
        if *must && *p < t.len() {
            ensure!(
                have.contains(p),
                "newline-unbroken",
                "no line starts at {} after a mandatory break",
                p
            );
        }
    }
    for (i, &s) in starts.iter().enumerate() {
        let e = starts.get(i + 1).copied().unwrap_or(t.len());
        if e < t.len() {
            ensure!(can.contains(&e), "break-illegal", "break at {}", e);
        }
        let inner = can
            .range(s + 1..e.max(s + 1))
            .any(|&p| width(&t[s..p], w) > 0.0);
        let got = width(&t[s..e], w);
        if got > max {
            ensure!(
                !inner,
                "line-overlong",
                "line {}..{} is {} wide, {} fit, and could be broken",
                s,
                e,
                got,
                max
            );
        }
        let forced = opps.iter().any(|o| o.1 && o.0 == e);
        if e < t.len() && !forced {
            let next = can.range(e + 1..).next().copied().unwrap_or(t.len());
            ensure!(
                width(&t[s..next], w) > max || (got >= max && !inner),
                "break-early",
                "line {}..{} ends though up to {} fits in {}",
                s,
                e,
                next,
                max
            );
        }
    }
    Ok(())
}

pub fn all_lines(d: &mut Driver, v: &str, m: &mut Mirror) -> Result<Vec<usize>, pbt::Fail> {
    d.edit(v, "request_lines", json!([0, 1u64 << 40]));
    m.follow(&d.take(), v)?;
    ensure!(m.valid(), "request-unanswered", "{} lines", m.rows.len());
    let t = d.text(v);
    ensure_eq!(show(&m.text()), show(&t), "lines-text");
    Ok(m.starts())
}

fn choose(s: &mut Src) -> Wrap {
    match s.weighted(&[1, 5, 5]) {
        0 => Wrap::None,
        1 => Wrap::Bytes(*s.pick(&[1usize, 2, 3, 5, 8, 13, 30])),
        _ => Wrap::Width(*s.pick(&[0.0, 0.5, 1.0, 2.5, 4.0, 6.0, 10.0, 25.0])),
    }
}

fn set(d: &mut Driver, v: &str, w: Wrap, old: Wrap) {
    match w {
        Wrap::None => d.set_config(
            json!("general"),
            json!({"word_wrap": false, "wrap_width": 0}),
        ),
        Wrap::Bytes(n) => d.set_config(
            json!("general"),
            json!({"word_wrap": false, "wrap_width": n}),
        ),
        Wrap::Width(x) => {
            if let Wrap::Width(_) = old {
            } else {
                d.set_config(json!("general"), json!({ "word_wrap": true }));
            }
            d.edit(v, "resize", json!({"width": x, "height": 100.0}));
        }
    }
}

fn run(s: &mut Src, long: bool) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let mut w = choose(s);
    set(&mut d, &v, w, Wrap::None);
    let t = if long {
        let n = s.range(20, 1500);
        let mut b = s.bulk_rng();
        (0..n)
            .map(|_| {
                ["a\n", "foo bar\n", "\n", "one two three ", "漢字\n"][(b.next() % 5) as usize]
            })
            .collect()
    } else {
        text(s, 25)
    };
    s.log(|| format!("{:?} text {:?}", w, show(&t)));
    d.edit(&v, "paste", json!({ "chars": t }));
    let mut m = Mirror::default();
    let (mut soft, mut edited) = (false, false);
    for _ in 0..s.range(0, if long { 8 } else { 12 }) {
        let lines = d.text(&v).matches('\n').count() + 1;
        if s.chance(1, 6) {
            let n = choose(s);
            set(&mut d, &v, n, w);
            w = n;
            s.log(|| format!("{:?}", w));
        } else {
            let (c, p) = match s.weighted(&[4, 4, 3, 3, 2, 1]) {
                0 => ("insert".to_string(), json!({ "chars": *s.pick(BITS) })),
                1 => cmds::gesture(s, lines * 2),
                2 => cmds::unit(*s.pick(cmds::EDITS)),
                3 => cmds::unit(*s.pick(&[
                    "undo",
                    "redo",
                    "undo",
                    "move_word_right_and_modify_selection",
                    "move_to_end_of_document",
                    "select_all",
                ])),
                4 => ("scroll".to_string(), cmds::range(s, lines * 2)),
                _ => ("paste".to_string(), json!({ "chars": text(s, 8) })),
            };
            s.log(|| format!("{} {}", c, p));
            let before = d.text(&v);
            d.edit(&v, &c, p);
            edited |= d.text(&v) != before;
        }
        if s.chance(1, 3) {
            d.step();
        }
        if s.chance(1, 3) {
            d.settle();
            m.follow(&d.take(), &v)?;
            let st = all_lines(&mut d, &v, &mut m)?;
            let t = d.text(&v);
            legal(&t, &st, w)?;
        }
        if d.text(&v).len() > 50_000 {
            break;
        }
    }
    d.settle();
    m.follow(&d.take(), &v)?;
    let st = all_lines(&mut d, &v, &mut m)?;
    let t = d.text(&v);
    s.log(|| {
        format!(
            "final {:?} {:?}",
            show(&t),
            if st.len() > 40 { vec![] } else { st.clone() }
        )
    });
    legal(&t, &st, w)?;
    soft |= st.len() > t.matches('\n').count() + 1;
    // from scratch, in another editor
    let mut f = Driver::new();
    let fv = f.view();
    set(&mut f, &fv, w, Wrap::None);
    f.edit(&fv, "paste", json!({ "chars": t }));
    f.settle();
    let mut fm = Mirror::default();
    fm.follow(&f.take(), &fv)?;
    let fs = all_lines(&mut f, &fv, &mut fm)?;
    ensure_eq!(st, fs, "rewrap-differs", "from the lines of a fresh view");
    if soft && edited {
        s.nontrivial();
    }
    Ok(())
}

/// two views that wrap differently
fn two(s: &mut Src) -> R {
    let mut d = Driver::new();
    let views = [d.view(), d.view()];
    let mut ws = vec![];
    let mut ms = vec![];
    for v in views.iter() {
        let w = choose(s);
        let dom = json!({ "user_override": v });
        match w {
            Wrap::None => (),
            Wrap::Bytes(n) => d.set_config(dom, json!({ "wrap_width": n })),
            Wrap::Width(x) => {
                d.set_config(dom, json!({ "word_wrap": true }));
                d.edit(v, "resize", json!({"width": x, "height": 100.0}));
            }
        }
        s.log(|| format!("{} {:?}", v, w));
        ws.push(w);
        ms.push(Mirror::default());
    }
    let mut kept = vec![];
    for _ in 0..s.range(1, 8) {
        let i = s.idx(2);
        let t = text(s, 8);
        s.log(|| format!("{} paste {:?}", views[i], show(&t)));
        d.edit(&views[i], "paste", json!({ "chars": t }));
        if s.bool() {
            d.settle();
        }
    }
    d.settle();
    let msgs = d.take();
    for i in 0..2 {
        ms[i].follow(&msgs, &views[i])?;
        let st = all_lines(&mut d, &views[i], &mut ms[i])?;
        let t = d.text(&views[i]);
        legal(&t, &st, ws[i])?;
        kept.push(st.len() > t.matches('\n').count() + 1);
    }
    if kept[0] && kept[1] {
        s.nontrivial();
    }
    Ok(())
}

/// positions and lines to and fro
fn convert(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let w = choose(s);
    set(&mut d, &v, w, Wrap::None);
    let t = if s.chance(1, 12) {
        let n = s.range(20, 200);
        let mut b = s.bulk_rng();
        (0..n)
            .map(|_| {
                ["a\n", "foo bar\n", "\n", "one two three ", "漢字\n"][(b.next() % 5) as usize]
            })
            .collect()
    } else {
        text(s, 25)
    };
    s.log(|| format!("{:?} text {:?}", w, show(&t)));
    d.edit(&v, "paste", json!({ "chars": t }));
    d.settle();
    let mut m = Mirror::default();
    m.follow(&d.take(), &v)?;
    let st = all_lines(&mut d, &v, &mut m)?;
    let t = d.text(&v);
    legal(&t, &st, w)?;
    if st.len() > t.matches('\n').count() + 1 {
        s.nontrivial();
    }
    d.edit(&v, "scroll", json!([0, st.len()]));
    for _ in 0..s.range(1, 12) {
        let l = s.range(0, st.len() + 2);
        let width = st
            .get(l + 1)
            .copied()
            .unwrap_or(t.len())
            .saturating_sub(st.get(l).copied().unwrap_or(t.len()));
        let c = s.range(0, width + 3);
        d.take();
        if s.bool() {
            d.edit(&v, "gesture", json!({"line": l, "col": c, "ty": {"select": {"granularity": "point", "multi": false}}}));
            let want = at_line_col(&t, &st, l, c);
            ensure_eq!(
                d.sel(&v),
                vec![(want, want)],
                "line-col",
                "line {} column {} of {:?}",
                l,
                c,
                st
            );
        } else {
            d.edit(&v, "goto_line", json!({ "line": l }));
            let want = at_line_col(&t, &st, l, 0);
            ensure_eq!(
                d.sel(&v),
                vec![(want, want)],
                "goto-line",
                "line {} of {:?}",
                l,
                st
            );
        }
        let p = d.sel(&v)[0].1;
        let (line, col) = (line_of(&st, p), p - st[line_of(&st, p)]);
        m.follow(&d.take(), &v)?;
        ensure_eq!(
            m.scroll_to,
            Some((line, col)),
            "scroll-to",
            "caret at {}",
            p
        );
        let a = &m.annotations.as_array().unwrap()[0]["ranges"];
        ensure_eq!(
            *a,
            json!([[line, col, line, col]]),
            "annotation-place",
            "caret at {}",
            p
        );
    }
    Ok(())
}
