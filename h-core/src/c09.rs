//! C09: playing a recording against performing its commands again.
use crate::c06::{all_lines, text as wrappable, Wrap};
use crate::cmds::{self, Cmd};
use crate::drive::Driver;
use crate::mirror::Mirror;
use crate::text::show;
use pbt::{ensure_eq, Check, Fail, Src, R};
use serde_json::json;

pub fn check() -> Check {
    Check::new(
        "C09",
        "a recording of at least two commands was played and changed the text",
    )
    .arm("play", 4_000, 200_000, play)
    .arm("names", 2_000, 80_000, names)
}

fn recordable(s: &mut Src, lines: usize) -> Cmd {
    loop {
        let (m, p) = match s.weighted(&[8, 4, 4, 3, 3, 2, 8, 4, 4]) {
            0 => (
                "insert".to_string(),
                json!({ "chars": *s.pick(&["a", "b", "foo", "é", "[", "\"", "x y", "(", ""]) }),
            ),
            1 => cmds::unit(*s.pick(cmds::EDITS)),
            2 => cmds::unit(*s.pick(cmds::MODIFY)),
            3 => cmds::unit(*s.pick(cmds::MOVES)),
            4 => cmds::unit(*s.pick(cmds::SELS)),
            5 => ("paste".to_string(), json!({ "chars": cmds::chars(s) })),
            6 => cmds::any(s, lines),
            7 => cmds::unit(*s.pick(&[
                "transpose",
                "transpose",
                "insert_tab",
                "insert_newline",
                "yank",
                "uppercase",
                "delete_to_end_of_paragraph",
                "capitalize",
            ])),
            _ => cmds::gesture(s, lines),
        };
        let special = [
            "undo",
            "redo",
            "request_lines",
            "resize",
            "debug_toggle_comment",
            "reindent",
        ];
        if !special.contains(&m.as_str()) && !m.starts_with("debug_") && !m.contains("recording") {
            return (m, p);
        }
    }
}

fn same(s: &mut Src, a: &mut Driver, b: &mut Driver, va: &str, vb: &str, when: &str) -> R {
    let (ta, tb) = (a.text(va), b.text(vb));
    s.log(|| format!("    {} {:?}", show(&tb), b.sel(vb)));
    if ta != tb {
        s.log(|| format!("    not {} {:?}", show(&ta), a.sel(va)));
    }
    ensure_eq!(
        show(&ta),
        show(&tb),
        &format!("{}-text", when),
        "text {}",
        when
    );
    ensure_eq!(
        a.sel(va),
        b.sel(vb),
        &format!("{}-carets", when),
        "carets {} in {}",
        when,
        show(&ta)
    );
    Ok(())
}

/// what the front end shows of the whole text
fn shown(d: &mut Driver, v: &str, m: &mut Mirror) -> Result<(Vec<usize>, Vec<String>), Fail> {
    d.settle();
    m.follow(&d.take(), v)?;
    let st = all_lines(d, v, m)?;
    let rows = m
        .rows
        .iter()
        .flatten()
        .map(|r| format!("{} {:?} {:?}", show(&r.text), r.cursor, r.styles))
        .collect();
    Ok((st, rows))
}

fn both(s: &mut Src, a: &mut Driver, b: &mut Driver, v: &str, c: &Cmd) {
    s.log(|| format!("{} {}", c.0, c.1));
    a.edit(v, &c.0, c.1.clone());
    b.edit(v, &c.0, c.1.clone());
}

fn play(s: &mut Src) -> R {
    let (mut a, mut b) = (Driver::new(), Driver::new());
    let v = a.view();
    let vb = b.view();
    let w = match s.weighted(&[4, 2, 1]) {
        0 => Wrap::None,
        1 => Wrap::Bytes(*s.pick(&[3usize, 8, 20])),
        _ => Wrap::Width(*s.pick(&[4.0, 10.0])),
    };
    for d in [&mut a, &mut b].iter_mut() {
        match w {
            Wrap::None => {}
            Wrap::Bytes(n) => d.set_config(json!("general"), json!({ "wrap_width": n })),
            Wrap::Width(x) => {
                d.set_config(json!("general"), json!({ "word_wrap": true }));
                d.edit(&v, "resize", json!({"width": x, "height": 100.0}));
            }
        }
    }
    s.log(|| format!("{:?}", w));
    let (mut ma, mut mb) = (Mirror::default(), Mirror::default());
    let t = if s.bool() {
        wrappable(s, 20)
    } else {
        cmds::doc(s, 14)
    };
    both(
        s,
        &mut a,
        &mut b,
        &v,
        &("paste".into(), json!({ "chars": t })),
    );
    let lines = t.matches('\n').count() + 1;
    for _ in 0..s.range(0, 4) {
        let c = recordable(s, lines);
        both(s, &mut a, &mut b, &v, &c);
    }
    // record
    s.log(|| "record".into());
    a.edit(&v, "toggle_recording", json!({"recording_name": "r"}));
    let mut rec = vec![];
    for _ in 0..s.range(0, 8) {
        let c = recordable(s, lines);
        both(s, &mut a, &mut b, &v, &c);
        rec.push(c);
        if s.chance(1, 8) {
            a.settle();
            b.settle();
        }
    }
    a.edit(
        &v,
        "toggle_recording",
        json!({ "recording_name": if s.bool() { json!("r") } else { json!(null) } }),
    );
    same(s, &mut a, &mut b, &v, &vb, "recorded")?;
    for _ in 0..s.range(0, 5) {
        let c = match s.below(4) {
            0 => cmds::unit(*s.pick(&["undo", "redo"])),
            _ => recordable(s, lines),
        };
        both(s, &mut a, &mut b, &v, &c);
    }
    same(s, &mut a, &mut b, &v, &vb, "before")?;
    for _ in 0..s.range(1, 3) {
        let t0 = a.text(&v);
        s.log(|| "play".into());
        a.edit(&v, "play_recording", json!({"recording_name": "r"}));
        for c in &rec {
            b.edit(&vb, &c.0, c.1.clone());
        }
        same(s, &mut a, &mut b, &v, &vb, "played")?;
        let t1 = a.text(&v);
        if t1.len() > 20_000 {
            return Ok(());
        }
        if t1 != t0 {
            if rec.len() > 1 {
                s.nontrivial();
            }
            if s.chance(1, 3) {
                // one group, whole
                a.edit(&v, "undo", json!([]));
                ensure_eq!(
                    show(&a.text(&v)),
                    show(&t0),
                    "undo-played",
                    "undo of a playback"
                );
                a.edit(&v, "redo", json!([]));
                ensure_eq!(
                    show(&a.text(&v)),
                    show(&t1),
                    "redo-played",
                    "redo of a playback"
                );
                return Ok(());
            }
        }
        if s.bool() {
            let (sa, ra) = shown(&mut a, &v, &mut ma)?;
            let (sb, rb) = shown(&mut b, &vb, &mut mb)?;
            ensure_eq!(sa, sb, "played-lines", "visual lines of {}", show(&t1));
            ensure_eq!(ra, rb, "played-shown", "lines of {}", show(&t1));
        }
        for _ in 0..s.range(0, 2) {
            let c = recordable(s, lines);
            both(s, &mut a, &mut b, &v, &c);
        }
        same(s, &mut a, &mut b, &v, &vb, "after")?;
    }
    Ok(())
}

/// toggling, discarding, clearing: which commands a name stands for
fn names(s: &mut Src) -> R {
    use std::collections::BTreeMap;
    let (mut a, mut b) = (Driver::new(), Driver::new());
    let v = a.view();
    b.view();
    let mut active: Option<(&str, Vec<Cmd>)> = None;
    let mut played = false;
    let mut saved: BTreeMap<&str, Vec<Cmd>> = BTreeMap::new();
    for _ in 0..s.range(3, 30) {
        let n = *s.pick(&["r", "q", "zz"]);
        match s.weighted(&[8, 4, 2, 4, 1, 3]) {
            0 => {
                let c = match s.below(4) {
                    0 => ("paste".to_string(), json!({ "chars": cmds::chars(s) })),
                    1 => (
                        "insert".to_string(),
                        json!({ "chars": *s.pick(&["a", "b", "cd"]) }),
                    ),
                    2 => cmds::unit(*s.pick(&[
                        "move_left",
                        "move_right",
                        "delete_backward",
                        "move_word_left",
                        "select_all",
                        "duplicate_line",
                        "insert_newline",
                        "yank",
                    ])),
                    _ => recordable(s, 3),
                };
                both(s, &mut a, &mut b, &v, &c);
                if let Some((_, r)) = &mut active {
                    r.push(c);
                }
            }
            1 => {
                s.log(|| format!("toggle {}", n));
                a.edit(&v, "toggle_recording", json!({ "recording_name": n }));
                match active.take() {
                    Some((m, r)) if m == n => {
                        saved.insert(m, r);
                    }
                    _ => active = Some((n, vec![])),
                }
            }
            2 => {
                s.log(|| "toggle".into());
                a.edit(&v, "toggle_recording", json!({ "recording_name": null }));
                if let Some((m, r)) = active.take() {
                    saved.insert(m, r);
                }
            }
            3 => {
                s.log(|| format!("play {}", n));
                let t0 = a.text(&v);
                a.edit(&v, "play_recording", json!({ "recording_name": n }));
                // the recording that is being made cannot be played
                if active.as_ref().map(|x| x.0 != n).unwrap_or(true) {
                    for c in saved.get(n).into_iter().flatten() {
                        b.edit(&v, &c.0, c.1.clone());
                        s.log(|| format!("    {} {}", c.0, c.1));
                    }
                }
                played |= saved
                    .get(n)
                    .into_iter()
                    .flatten()
                    .any(|c| !cmds::MOVES.contains(&c.0.as_str()));
                // neither typing before nor after joins what was played
                both(s, &mut a, &mut b, &v, &("scroll".into(), json!([0, 20])));
                if a.text(&v) != t0 {
                    if saved[n].len() > 1 {
                        s.nontrivial();
                    }
                    // undo groups differ from here on
                    same(s, &mut a, &mut b, &v, &v, "played")?;
                    let t = a.text(&v);
                    if t.len() > 5000 {
                        return Ok(());
                    }
                }
            }
            4 => {
                s.log(|| format!("clear {}", n));
                a.edit(&v, "clear_recording", json!({ "recording_name": n }));
                saved.remove(n);
            }
            _ => {
                if played || active.is_some() {
                    continue;
                }
                let c = cmds::unit(*s.pick(&["undo", "undo", "redo"]));
                both(s, &mut a, &mut b, &v, &c);
            }
        }
        same(s, &mut a, &mut b, &v, &v, "named")?;
    }
    Ok(())
}
