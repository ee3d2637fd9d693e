//! C01: any sequence of commands leaves the editor alive and the carets in place.
use crate::cmds;
use crate::drive::Driver;
use crate::text::show;
use pbt::{ensure, Check, Src, R};
use serde_json::json;

pub fn check() -> Check {
    Check::new(
        "C01",
        "the text changed and two or more regions existed at some point",
    )
    .arm("commands", 6_000, 400_000, commands)
    .arm("wrapped", 3_000, 200_000, wrapped)
    .arm("requests", 1_000, 50_000, shuffled)
}

pub fn carets(d: &mut Driver, v: &str, t: &str, after: &str) -> Result<usize, pbt::Fail> {
    let sel = d.sel(v);
    ensure!(!sel.is_empty(), "no-caret", "no caret after {}", after);
    let mut last: Option<(usize, usize)> = None;
    for &(a, b) in &sel {
        for p in [a, b].iter() {
            ensure!(
                *p <= t.len(),
                "caret-outside",
                "caret {} past the end {} after {}",
                p,
                t.len(),
                after
            );
            ensure!(
                t.is_char_boundary(*p),
                "caret-splits",
                "caret {} inside a character of {:?} after {}",
                p,
                show(t),
                after
            );
        }
        let (lo, hi) = (a.min(b), a.max(b));
        if let Some((plo, phi)) = last {
            ensure!(phi <= lo, "regions-unsorted", "{:?} after {}", sel, after);
            ensure!(
                phi < lo || (plo < phi && lo < hi),
                "caret-touches",
                "{:?} after {}",
                sel,
                after
            );
        }
        last = Some((lo, hi));
    }
    Ok(sel.len())
}

fn run(s: &mut Src, wrap: bool, settle: bool) -> R {
    let mut d = Driver::new();
    let v = d.view();
    if wrap {
        if s.bool() {
            d.set_config(
                json!("general"),
                json!({ "wrap_width": *s.pick(&[1usize, 2, 5, 10, 30]) }),
            );
        } else {
            d.set_config(json!("general"), json!({ "word_wrap": true }));
            d.edit(
                &v,
                "resize",
                json!({"width": *s.pick(&[0.0, 1.0, 2.5, 6.0, 10.0, 40.0]), "height": 100.0}),
            );
        }
    }
    let t0 = cmds::doc(s, 20);
    s.log(|| format!("text {:?}", show(&t0)));
    d.edit(&v, "paste", json!({ "chars": t0 }));
    let mut t = d.text(&v);
    let (mut changed, mut multi) = (false, false);
    for _ in 0..s.range(1, 30) {
        let lines = t.matches('\n').count() + 1;
        let name;
        if s.chance(1, 25) {
            let c = cmds::setting(s);
            name = format!("settings {}", c);
            s.log(|| name.clone());
            let dom = if s.bool() {
                json!("general")
            } else {
                json!({ "user_override": v })
            };
            d.set_config(dom, c);
        } else if s.chance(1, 25) {
            let m = *s.pick(&["cut", "copy"]);
            name = m.to_string();
            s.log(|| name.clone());
            let _ = d.edit_req(&v, m);
        } else {
            let (m, p) = cmds::any(s, lines);
            name = format!("{} {}", m, p);
            s.log(|| name.clone());
            d.edit(&v, &m, p);
        }
        if settle || s.bool() {
            d.settle();
        }
        let t2 = d.text(&v);
        if t2 != t {
            changed = true;
        }
        t = t2;
        ensure!(
            t.len() < 2_000_000,
            "runaway",
            "the text grew to {} bytes",
            t.len()
        );
        if t.len() > 60_000 {
            break;
        }
        multi |= carets(&mut d, &v, &t, &name)? > 1;
    }
    d.settle();
    // it still answers
    d.edit(&v, "select_all", json!([]));
    d.edit(&v, "insert", json!({"chars": "ok"}));
    ensure!(d.text(&v) == "ok", "not-answering", "{:?}", d.text(&v));
    if changed && multi {
        s.nontrivial();
    }
    Ok(())
}

fn commands(s: &mut Src) -> R {
    run(s, false, true)
}
fn wrapped(s: &mut Src) -> R {
    let settle = s.bool();
    run(s, true, settle)
}
/// deferred work left pending or done at odd moments
fn shuffled(s: &mut Src) -> R {
    let w = s.bool();
    run(s, w, false)
}
