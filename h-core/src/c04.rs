//! C04: undo and redo return to exactly the earlier texts.
//!
//! The reference is a plain stack of texts, one per group of user actions. Where the
//! property leaves a choice (whether a command that left the text as it was is a
//! group, whether tabs join the typing around them, whether more than the last 19
//! groups are kept) the reference follows every choice, and the text must agree with one.
use crate::cmds;
use crate::drive::Driver;
use crate::text::show;
use pbt::{ensure, Check, Src, R};
use serde_json::json;
use std::collections::HashSet;
use std::rc::Rc;

const KEPT: usize = 19;

pub fn check() -> Check {
    Check::new("C04", "at least two groups were undone to a different text")
        .arm("mixed", 3_500, 200_000, mixed)
        .arm("bursts", 1_800, 100_000, bursts)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Typing,
    Deleting,
    Other,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct State {
    /// texts, and how many commands left each as it was: those may be groups too
    hist: Vec<(Rc<str>, usize)>,
    cur: usize,
    /// nothing below this is promised
    floor: usize,
    /// the run of the last group that a following edit may join
    run: Option<Kind>,
    /// a following edit of that kind certainly joins
    sure: bool,
}

impl State {
    fn push(&self, t: &Rc<str>, run: Option<Kind>, sure: bool) -> State {
        let mut n = self.clone();
        n.hist.truncate(n.cur + 1);
        if *n.hist[n.cur].0 == **t {
            n.hist[n.cur].1 += 1;
        } else {
            n.hist.push((t.clone(), 0));
            n.cur += 1;
        }
        let mut f = n.hist.len();
        let mut groups = 0;
        while f > 0 && groups < KEPT {
            f -= 1;
            groups += 1 + n.hist[f].1;
        }
        n.floor = n.floor.max(f.max(1) - 1);
        n.run = run;
        n.sure = sure;
        n
    }
    fn join(&self, t: &Rc<str>, run: Option<Kind>, sure: bool) -> State {
        let mut n = self.clone();
        n.hist.truncate(n.cur + 1);
        // back where the group started: it is one that left the text as it was
        if n.cur > 0 && *n.hist[n.cur - 1].0 == **t {
            let k = n.hist.pop().unwrap().1;
            n.cur -= 1;
            n.hist[n.cur].1 += 1 + k;
        } else {
            n.hist[n.cur].0 = t.clone();
        }
        n.run = run;
        n.sure = sure;
        n
    }
    fn unsure(&self) -> State {
        let mut n = self.clone();
        n.sure = false;
        n
    }
    fn broken(&self) -> State {
        let mut n = self.clone();
        n.run = None;
        n.sure = false;
        n
    }
}

fn kind(m: &str) -> Kind {
    match m {
        "insert" | "surround" | "insert_tab" | "indent" => Kind::Typing,
        "delete_forward"
        | "delete_backward"
        | "delete_word_forward"
        | "delete_word_backward"
        | "delete_to_end_of_paragraph"
        | "delete_to_beginning_of_line"
        | "outdent"
        | "cut" => Kind::Deleting,
        _ => Kind::Other,
    }
}

pub struct Model {
    states: Vec<State>,
    /// too many readings to go on
    pub lost: bool,
    /// texts returned to by undo
    pub undone: usize,
}

impl Model {
    pub fn new(t: &str) -> Model {
        Model {
            states: vec![State {
                hist: vec![(t.into(), 0)],
                cur: 0,
                floor: 0,
                run: None,
                sure: false,
            }],
            lost: false,
            undone: 0,
        }
    }

    /// after `m` the text went from `a` to `b`; false if no reading explains it
    pub fn after(&mut self, m: &str, a: &str, b: &str) -> bool {
        let t: Rc<str> = b.into();
        let mut out: HashSet<State> = HashSet::new();
        if self.lost {
            return true;
        }
        for st in &self.states {
            match m {
                "undo" => {
                    if st.cur > 0 {
                        let mut n = st.broken();
                        n.cur -= 1;
                        out.insert(n);
                    }
                    if st.cur <= st.floor || st.hist[st.cur].1 > 0 {
                        out.insert(st.unsure());
                        out.insert(st.broken());
                    }
                }
                "redo" => {
                    if st.cur + 1 < st.hist.len() {
                        let mut n = st.broken();
                        n.cur += 1;
                        out.insert(n);
                    }
                    if st.cur + 1 == st.hist.len() || st.hist[st.cur].1 > 0 {
                        out.insert(st.unsure());
                        out.insert(st.broken());
                    }
                }
                _ => {
                    let k = kind(m);
                    let edits = k != Kind::Other
                        || matches!(
                            m,
                            "insert_newline"
                                | "surround"
                                | "yank"
                                | "paste"
                                | "transpose"
                                | "uppercase"
                                | "lowercase"
                                | "capitalize"
                                | "duplicate_line"
                                | "increase_number"
                                | "decrease_number"
                                | "replace_next"
                                | "replace_all"
                                | "reindent"
                                | "debug_toggle_comment"
                        );
                    if a == b {
                        let special = edits
                            || matches!(m, "resize" | "request_lines")
                            || m.starts_with("debug")
                            || m == "reindent";
                        if special {
                            out.insert(st.unsure());
                        } else {
                            out.insert(st.broken());
                        }
                        if edits {
                            out.insert(st.push(&t, Some(k).filter(|k| *k != Kind::Other), false));
                            if st.run == Some(k) {
                                out.insert(st.join(&t, st.run, false));
                            }
                            out.insert(st.broken());
                        }
                        continue;
                    }
                    if !edits {
                        continue; // only edits change the text
                    }
                    let run = Some(k).filter(|k| *k != Kind::Other);
                    let plain =
                        m == "insert" || k == Kind::Deleting && m != "outdent" && m != "cut";
                    if st.run == run && run.is_some() {
                        out.insert(st.join(&t, run, plain));
                        if !(st.sure && plain) {
                            out.insert(st.push(&t, run, plain));
                        }
                    } else {
                        out.insert(st.push(&t, run, plain));
                    }
                }
            }
        }
        out.retain(|s| *s.hist[s.cur].0 == *b);
        self.states = out.into_iter().collect();
        if self.states.len() > 600 {
            self.lost = true;
        }
        if m == "undo" && a != b {
            self.undone += 1;
        }
        !self.states.is_empty()
    }
}

fn known(st: &Model) -> String {
    st.states
        .iter()
        .map(|s| {
            format!(
                "at {} of {:?}",
                s.cur,
                s.hist.iter().map(|t| (show(&t.0), t.1)).collect::<Vec<_>>()
            )
        })
        .take(3)
        .collect::<Vec<_>>()
        .join(" or ")
}

fn step(
    s: &mut Src,
    d: &mut Driver,
    v: &str,
    model: &mut Model,
    a: &mut String,
    m: &str,
    p: serde_json::Value,
) -> R {
    s.log(|| format!("{} {}", m, p));
    let before = known(model);
    // with everything selected this surrounds instead of typing
    let pair = m == "insert" && matches!(p["chars"].as_str(), Some("\"" | "'" | "{" | "["));
    if m == "cut" {
        d.edit_req(v, "cut").unwrap();
    } else {
        d.edit(v, m, p);
    }
    if s.chance(1, 6) {
        d.settle();
    }
    let b = d.text(v);
    s.log(|| format!("    {}", show(&b)));
    let m = if pair { "surround" } else { m };
    let ok = model.after(m, a, &b);
    ensure!(
        ok,
        &format!("after:{}", m),
        "{} took the text from {} to {}; history: {}",
        m,
        show(a),
        show(&b),
        before
    );
    *a = b;
    Ok(())
}

fn command(s: &mut Src, lines: usize) -> cmds::Cmd {
    match s.weighted(&[10, 6, 4, 3, 10, 5, 3]) {
        0 => ("insert".into(), json!({ "chars": cmds::chars(s) })),
        1 => cmds::unit(*s.pick(&[
            "delete_backward",
            "delete_forward",
            "delete_word_backward",
            "delete_to_end_of_paragraph",
        ])),
        2 => cmds::unit(*s.pick(cmds::MOVES)),
        3 => cmds::unit(*s.pick(cmds::EDITS)),
        4 => cmds::unit("undo"),
        5 => cmds::unit("redo"),
        _ => cmds::any(s, lines),
    }
}

fn mixed(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let mut a = String::new();
    let mut model = Model::new("");
    if s.bool() {
        let t = cmds::doc(s, 12);
        step(
            s,
            &mut d,
            &v,
            &mut model,
            &mut a,
            "paste",
            json!({ "chars": t }),
        )?;
    }
    for _ in 0..s.range(3, 45) {
        if s.chance(1, 12) {
            crate::c03::place(s, &mut d, &v);
            s.log(|| format!("carets {:?}", d.sel(&v)));
            let t = d.text(&v);
            model.after("resize", &a, &t);
        }
        let lines = a.matches('\n').count() + 1;
        let (m, p) = command(s, lines);
        if m.contains("recording") {
            continue;
        }
        let m = if s.chance(1, 40) {
            "cut".to_string()
        } else {
            m
        };
        step(s, &mut d, &v, &mut model, &mut a, &m, p)?;
    }
    s.label(
        [
            "undone 0",
            "undone 1",
            "undone 2+",
            "undone 5+",
            "undone 20+",
        ][(model.undone > 0) as usize
            + (model.undone > 1) as usize
            + (model.undone > 4) as usize
            + (model.undone > 19) as usize],
    );
    if model.undone >= 2 {
        s.nontrivial();
    }
    Ok(())
}

/// many groups, then long walks back and forth
fn bursts(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let mut a = String::new();
    let mut model = Model::new("");
    for _ in 0..s.range(1, 6) {
        for _ in 0..s.range(0, 26) {
            let (m, p) = match s.below(7) {
                0 | 1 | 2 => ("paste".to_string(), json!({ "chars": cmds::chars(s) })),
                3 => ("insert".to_string(), json!({ "chars": cmds::chars(s) })),
                4 => cmds::unit(*s.pick(cmds::MOVES)),
                5 => cmds::unit(*s.pick(&[
                    "select_all",
                    "move_word_left_and_modify_selection",
                    "add_selection_above",
                ])),
                _ => cmds::unit(*s.pick(cmds::EDITS)),
            };
            step(s, &mut d, &v, &mut model, &mut a, &m, p)?;
        }
        for _ in 0..s.range(0, 3) {
            let m = *s.pick(&["undo", "undo", "redo"]);
            for _ in 0..s.range(0, 24) {
                step(s, &mut d, &v, &mut model, &mut a, m, json!([]))?;
            }
        }
    }
    s.label(
        [
            "undone 0",
            "undone 1",
            "undone 2+",
            "undone 5+",
            "undone 20+",
        ][(model.undone > 0) as usize
            + (model.undone > 1) as usize
            + (model.undone > 4) as usize
            + (model.undone > 19) as usize],
    );
    if model.undone >= 2 {
        s.nontrivial();
    }
    Ok(())
}
