//! C10: where movements and pointer gestures put carets and selections.
use crate::c06::{all_lines, text as wrappable, Wrap};
use crate::cmds;
use crate::drive::Driver;
use crate::mirror::Mirror;
use crate::model::*;
use crate::text::show;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;

pub fn check() -> Check {
    Check::new(
        "C10",
        "a movement or gesture changed two or more regions, or one by a vertical or word movement",
    )
    .arm("lines", 3_500, 200_000, |s| run(s, false))
    .arm("wrapped", 2_500, 120_000, |s| run(s, true))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    Col(usize),
    Free,
    Unknown,
}

#[derive(Clone, Copy, Debug)]
struct Reg {
    a: usize,
    c: usize,
    h: H,
}

struct View<'a> {
    t: &'a str,
    starts: &'a [usize],
    height: usize,
}

impl<'a> View<'a> {
    fn last(&self) -> usize {
        self.starts.len() - 1
    }
    /// the last column a caret can have on a visual line
    fn max_col(&self, l: usize) -> usize {
        if l == self.last() {
            self.t.len() - self.starts[l]
        } else {
            prev_g(self.t, self.starts[l + 1])
                .unwrap_or(0)
                .max(self.starts[l])
                - self.starts[l]
        }
    }
    fn at(&self, l: usize, col: usize) -> usize {
        at_line_col(self.t, self.starts, l, col)
    }
    /// None: not determined (the remembered column is not known)
    fn go(&self, m: &str, r: Reg, modify: bool) -> Option<(usize, H)> {
        let t = self.t;
        let caret = r.a == r.c;
        let (lo, hi) = span((r.a, r.c));
        let vert = |d: isize| -> Option<(usize, H)> {
            let active = if modify {
                r.c
            } else if d < 0 {
                lo
            } else {
                hi
            };
            let l = line_of(self.starts, active) as isize;
            let col = match r.h {
                H::Col(c) => c,
                H::Free => active - self.starts[l as usize],
                H::Unknown => return None,
            };
            let n = l + d;
            let p = if n < 0 {
                0
            } else if n as usize > self.last() {
                t.len()
            } else {
                self.at(n as usize, col)
            };
            Some((p, H::Col(col)))
        };
        let page = (self.height as isize - 2).max(1);
        Some(match m {
            "left" | "backward" => {
                if caret || modify {
                    match prev_g(t, r.c) {
                        Some(p) => (p, H::Free),
                        None => (0, H::Unknown),
                    }
                } else {
                    (lo, H::Free)
                }
            }
            "right" | "forward" => {
                if caret || modify {
                    match next_g(t, r.c) {
                        Some(p) => (p, H::Free),
                        None => (r.c, H::Unknown),
                    }
                } else {
                    (hi, H::Free)
                }
            }
            "word_left" => (prev_word(t, r.c), H::Free),
            "word_right" => (next_word(t, r.c), H::Free),
            "to_beginning_of_paragraph" => (bol(t, r.c), H::Free),
            "to_end_of_paragraph" => (eol(t, r.c), H::Free),
            "to_left_end_of_line" => (self.starts[line_of(self.starts, r.c)], H::Free),
            "to_right_end_of_line" => {
                let l = line_of(self.starts, r.c);
                (self.starts[l] + self.max_col(l), H::Free)
            }
            "to_beginning_of_document" => (0, H::Free),
            "to_end_of_document" => (t.len(), H::Free),
            "up" => return vert(-1),
            "down" => return vert(1),
            "page_up" => return vert(-page),
            "page_down" => return vert(page),
            _ => unreachable!("{}", m),
        })
    }
    /// add_selection_above / below: the nearest line that has the column
    fn exact(&self, r: Reg, up: bool) -> Option<usize> {
        let (lo, hi) = span((r.a, r.c));
        let active = if up { lo } else { hi };
        let l = line_of(self.starts, active);
        let col = match r.h {
            H::Col(c) => c.min(self.max_col(l)),
            H::Free => active - self.starts[l],
            H::Unknown => return None,
        };
        let mut lines: Box<dyn Iterator<Item = usize>> = if up {
            Box::new((0..l).rev())
        } else {
            Box::new(l + 1..=self.last())
        };
        Some(match lines.find(|&k| self.max_col(k) >= col) {
            Some(k) => self.at(k, col),
            None => self.at(l, col),
        })
    }
    fn unit(&self, p: usize, g: &str) -> Unit {
        match g {
            "point" => Unit::Is(p, p),
            "line" => {
                let e = self.t[p..]
                    .find('\n')
                    .map(|i| p + i + 1)
                    .unwrap_or(self.t.len());
                Unit::Is(bol(self.t, p), e)
            }
            _ => {
                let word = |c: char| class(c) == Class::Word;
                let a = self.t[..p]
                    .char_indices()
                    .rev()
                    .take_while(|x| word(x.1))
                    .last()
                    .map(|x| x.0)
                    .unwrap_or(p);
                let b = p + self.t[p..]
                    .chars()
                    .take_while(|&c| word(c))
                    .map(|c| c.len_utf8())
                    .sum::<usize>();
                if a < b {
                    Unit::Is(snap(self.t, a), ceil(self.t, b))
                } else {
                    Unit::NoWord
                }
            }
        }
    }
}

enum Unit {
    Is(usize, usize),
    NoWord,
}

/// between words, what a word gesture selects is only known to be whole characters there
fn no_word(t: &str, p: usize, a: usize, b: usize) -> bool {
    let (a, b) = span((a, b));
    a <= p && p <= b && is_g(t, a) && is_g(t, b)
}

fn run(s: &mut Src, wrapped: bool) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let w = match (wrapped, s.bool()) {
        (false, _) => Wrap::None,
        (_, true) => Wrap::Bytes(*s.pick(&[2usize, 5, 12, 30])),
        _ => Wrap::Width(*s.pick(&[2.5, 6.0, 15.0])),
    };
    match w {
        Wrap::None => {}
        Wrap::Bytes(n) => d.set_config(json!("general"), json!({ "wrap_width": n })),
        Wrap::Width(x) => {
            d.set_config(json!("general"), json!({ "word_wrap": true }));
            d.edit(&v, "resize", json!({"width": x, "height": 100.0}));
        }
    }
    let t0 = if wrapped && s.chance(2, 3) {
        wrappable(s, 25)
    } else {
        cmds::doc(s, 20)
    };
    d.edit(&v, "paste", json!({ "chars": t0 }));
    let mut m = Mirror::default();
    let mut height = 10usize;
    let mut regs: Vec<Reg> = vec![];
    // what a drag continues: other regions, anchor span, granularity
    let mut drag: Option<(Vec<(usize, usize)>, (usize, usize), &str)> = None;
    // no gesture is going on that a drag could continue
    let mut still = true;
    for _ in 0..s.range(4, 26) {
        if s.chance(1, 8) {
            let h = s.range(0, 12);
            d.edit(&v, "scroll", json!([0, h]));
            height = h;
            s.log(|| format!("scroll 0..{}", h));
        }
        if s.chance(1, 10) {
            let (c, p) = if s.bool() {
                ("insert".to_string(), json!({ "chars": cmds::chars(s) }))
            } else {
                cmds::unit(*s.pick(cmds::EDITS))
            };
            s.log(|| format!("{} {}", c, p));
            d.edit(&v, &c, p);
            drag = None;
            still = false;
            regs.clear();
        }
        d.settle();
        m.follow(&d.take(), &v)?;
        let starts = all_lines(&mut d, &v, &mut m)?;
        let t = d.text(&v);
        let sel = d.sel(&v);
        if t.len() > 3000 {
            break;
        }
        if regs.len() != sel.len() || regs.iter().zip(sel.iter()).any(|(r, x)| (r.a, r.c) != *x) {
            // unlogged changes: start over with what there is
            let h = if regs.is_empty() {
                H::Unknown
            } else {
                return pbt::fail("lost", "the harness lost track");
            };
            regs = sel.iter().map(|&(a, c)| Reg { a, c, h }).collect();
        }
        let view = View {
            t: &t,
            starts: &starts,
            height,
        };
        let kind = s.weighted(&[10, 8, 3, 1, 1, 1, 4, 6, 3, 3, 1]);
        let was_drag = drag.take();
        let was_still = std::mem::replace(&mut still, false);
        match kind {
            0 | 1 => {
                still = true;
                let modify = kind == 1;
                let name = if modify {
                    *s.pick(cmds::MODIFY)
                } else {
                    *s.pick(cmds::MOVES)
                };
                if name.contains("document") && s.chance(3, 4) {
                    drag = was_drag;
                    still = was_still;
                    continue;
                }
                let k = name
                    .trim_end_matches("_and_modify_selection")
                    .trim_start_matches("move_")
                    .trim_start_matches("scroll_");
                s.log(|| {
                    format!(
                        "{:?} {:?} lines {:?} height {}: {}",
                        show(&t),
                        sel,
                        starts,
                        height,
                        name
                    )
                });
                d.edit(&v, name, json!([]));
                let now = d.sel(&v);
                s.log(|| format!("    -> {:?}", now));
                let want: Vec<Option<(usize, H)>> =
                    regs.iter().map(|&r| view.go(k, r, modify)).collect();
                let full: Option<Vec<Reg>> = want
                    .iter()
                    .zip(regs.iter())
                    .map(|(w, r)| {
                        w.map(|(p, h)| Reg {
                            a: if modify { r.a } else { p },
                            c: p,
                            h: if h == H::Unknown { r.h } else { h },
                        })
                    })
                    .collect();
                let fwd = [
                    "right",
                    "forward",
                    "word_right",
                    "to_end_of_paragraph",
                    "to_right_end_of_line",
                    "to_end_of_document",
                    "down",
                    "page_down",
                ]
                .contains(&k);
                let sig = format!("move-{}", k);
                if let Some(full) = full {
                    let j = joined(full.iter().map(|r| (r.a, r.c)).collect());
                    let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
                    ensure_eq!(have, j, &sig, "{} from {:?}", name, regs);
                    if j.len() == full.len() {
                        // remembered columns can carry one caret past another
                        let mut full = full;
                        full.sort_by_key(|r| span((r.a, r.c)));
                        let w: Vec<_> = full.iter().map(|r| (r.a, r.c)).collect();
                        ensure_eq!(now, w, &sig, "{} from {:?}", name, regs);
                        regs = full;
                    } else {
                        regs = now
                            .iter()
                            .map(|&(a, c)| {
                                full.iter()
                                    .find(|r| {
                                        (r.a, r.c) == (a, c)
                                            && full
                                                .iter()
                                                .filter(|q| {
                                                    span((q.a, q.c)).0 <= c
                                                        && c <= span((q.a, q.c)).1
                                                })
                                                .count()
                                                == 1
                                    })
                                    .copied()
                                    .unwrap_or(Reg {
                                        a,
                                        c,
                                        h: H::Unknown,
                                    })
                            })
                            .collect();
                    }
                } else {
                    regs = now
                        .iter()
                        .map(|&(a, c)| Reg {
                            a,
                            c,
                            h: H::Unknown,
                        })
                        .collect();
                }
                // in its direction
                let (a, b) = (
                    sel.iter().map(|r| r.1).max().unwrap(),
                    now.iter().map(|r| r.1).max().unwrap(),
                );
                let (x, y) = (
                    sel.iter().map(|r| r.1).min().unwrap(),
                    now.iter().map(|r| r.1).min().unwrap(),
                );
                if modify && now.len() == sel.len() {
                    ensure!(
                        if fwd { b >= a } else { y <= x },
                        "direction",
                        "{} took carets from {:?} to {:?}",
                        name,
                        sel,
                        now
                    );
                }
                if sel != now
                    && (sel.len() > 1
                        || [
                            "up",
                            "down",
                            "page_up",
                            "page_down",
                            "word_left",
                            "word_right",
                        ]
                        .contains(&k))
                {
                    s.nontrivial();
                }
            }
            2 => {
                let up = s.bool();
                let name = if up {
                    "add_selection_above"
                } else {
                    "add_selection_below"
                };
                s.log(|| format!("{:?} {:?} lines {:?}: {}", show(&t), regs, starts, name));
                d.edit(&v, name, json!([]));
                let now = d.sel(&v);
                s.log(|| format!("    -> {:?}", now));
                let want: Option<Vec<usize>> = regs.iter().map(|&r| view.exact(r, up)).collect();
                if let Some(w) = want {
                    let mut all: Vec<(usize, usize)> = vec![];
                    for (r, p) in regs.iter().zip(w.iter()) {
                        all.push((r.a, r.c));
                        all.push((*p, *p));
                    }
                    let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
                    ensure_eq!(have, joined(all), name, "from {:?}", regs);
                    s.nontrivial();
                }
                regs = now
                    .iter()
                    .map(|&(a, c)| Reg {
                        a,
                        c,
                        h: H::Unknown,
                    })
                    .collect();
            }
            3 => {
                d.edit(&v, "select_all", json!([]));
                ensure_eq!(d.sel(&v), vec![(0, t.len())], "select-all");
                regs = vec![Reg {
                    a: 0,
                    c: t.len(),
                    h: H::Free,
                }];
            }
            4 => {
                d.edit(&v, "collapse_selections", json!([]));
                let now = d.sel(&v);
                ensure_eq!(now, vec![(sel[0].1, sel[0].1)], "collapse", "{:?}", sel);
                regs = vec![Reg {
                    a: now[0].0,
                    c: now[0].1,
                    h: H::Unknown,
                }];
            }
            5 => {
                d.edit(&v, "selection_into_lines", json!([]));
                let now = d.sel(&v);
                s.log(|| format!("{:?} {:?} into lines {:?}", show(&t), sel, now));
                let mut want = vec![];
                for &r in &sel {
                    let (a, b) = span(r);
                    let mut p = a;
                    if a == b {
                        want.push((a, a));
                    }
                    while p < b {
                        let e = t[p..b].find('\n').map(|i| p + i + 1);
                        want.push((p, e.map(|e| prev_g(&t, e).unwrap_or(0).max(p)).unwrap_or(b)));
                        p = e.unwrap_or(b);
                    }
                }
                let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
                ensure_eq!(have, joined(want), "into-lines", "{:?}", sel);
                regs = now
                    .iter()
                    .map(|&(a, c)| Reg {
                        a,
                        c,
                        h: H::Unknown,
                    })
                    .collect();
            }
            6 | 7 => {
                let multi = kind == 7;
                let g = *s.pick(&["point", "point", "point", "word", "line"]);
                let (p, l, c) = place(s, &view);
                s.log(|| {
                    format!(
                        "{:?} {:?} lines {:?}: select {} multi {} at {} ({}, {})",
                        show(&t),
                        sel,
                        starts,
                        g,
                        multi,
                        p,
                        l,
                        c
                    )
                });
                d.edit(&v, "gesture", json!({"line": l, "col": c, "ty": {"select": {"granularity": g, "multi": multi}}}));
                let now = d.sel(&v);
                s.log(|| format!("    -> {:?}", now));
                let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
                let touching = |r: &(usize, usize)| span(*r).0 <= p && p <= span(*r).1;
                let rest: Vec<_> = sel
                    .iter()
                    .copied()
                    .filter(|r| !touching(r))
                    .map(span)
                    .collect();
                if sel.len() > 1 {
                    s.nontrivial();
                }
                if multi && g == "point" && rest.len() < sel.len() && !rest.is_empty() {
                    ensure_eq!(have, rest, "toggle", "at {} from {:?}", p, sel);
                    still = true;
                } else {
                    let base: Vec<_> = if multi {
                        sel.iter().map(|&r| span(r)).collect()
                    } else {
                        vec![]
                    };
                    let (a, b) = match view.unit(p, g) {
                        Unit::Is(a, b) => (a, b),
                        Unit::NoWord if !multi => {
                            ensure!(
                                now.len() == 1 && no_word(&t, p, now[0].0, now[0].1),
                                "select-word",
                                "{:?} at {}",
                                now,
                                p
                            );
                            span(now[0])
                        }
                        _ => {
                            regs = now
                                .iter()
                                .map(|&(a, c)| Reg {
                                    a,
                                    c,
                                    h: H::Unknown,
                                })
                                .collect();
                            continue;
                        }
                    };
                    let mut all = base.clone();
                    all.push((a, b));
                    ensure_eq!(
                        have,
                        joined(all),
                        &format!("select-{}", g),
                        "at {} from {:?}",
                        p,
                        sel
                    );
                    drag = Some((base, (a, b), g));
                }
                regs = now
                    .iter()
                    .map(|&(a, c)| Reg {
                        a,
                        c,
                        h: if multi { H::Unknown } else { H::Free },
                    })
                    .collect();
            }
            8 | 9 => {
                let (base, from, g) = if kind == 8 {
                    let g = *s.pick(&["point", "point", "word", "line"]);
                    // the anchor of the last region stays
                    let (last, rest) = sel.split_last().unwrap();
                    (
                        rest.iter().map(|&r| span(r)).collect::<Vec<_>>(),
                        (last.0, last.0),
                        g,
                    )
                } else {
                    match was_drag {
                        Some(x) => x,
                        None => {
                            if was_still {
                                still = true;
                                let (p, l, c) = place(s, &view);
                                s.log(|| format!("{:?} {:?}: drag to {} without a click", show(&t), sel, p));
                                d.edit(&v, "gesture", json!({"line": l, "col": c, "ty": "drag"}));
                                ensure_eq!(d.sel(&v), sel, "drag-alone", "drag to {} without a click", p);
                            }
                            continue;
                        }
                    }
                };
                let (p, l, c) = place(s, &view);
                s.log(|| {
                    format!(
                        "{:?} {:?} lines {:?}: {} {} to {} ({}, {})",
                        show(&t),
                        sel,
                        starts,
                        if kind == 8 { "extend" } else { "drag" },
                        g,
                        p,
                        l,
                        c
                    )
                });
                let ty = if kind == 8 {
                    json!({"select_extend": {"granularity": g}})
                } else {
                    json!("drag")
                };
                d.edit(&v, "gesture", json!({"line": l, "col": c, "ty": ty}));
                let now = d.sel(&v);
                s.log(|| format!("    -> {:?}", now));
                if let Unit::Is(a, b) = view.unit(p, g) {
                    let r = if p >= from.0 {
                        (from.0, b)
                    } else {
                        (from.1, a)
                    };
                    let mut all = base.clone();
                    all.push(r);
                    let have: Vec<_> = now.iter().map(|&r| span(r)).collect();
                    ensure_eq!(
                        have,
                        joined(all.clone()),
                        if kind == 8 { "extend" } else { "drag" },
                        "{} at {} from {:?}",
                        g,
                        p,
                        from
                    );
                    if all.len() == now.len() {
                        ensure!(
                            now.contains(&r),
                            "extend-direction",
                            "{:?} has no {:?}",
                            now,
                            r
                        );
                    }
                    s.nontrivial();
                }
                drag = Some((base, from, g));
                regs = now
                    .iter()
                    .map(|&(a, c)| Reg {
                        a,
                        c,
                        h: H::Unknown,
                    })
                    .collect();
            }
            _ => {
                let l = s.range(0, starts.len() + 2);
                d.edit(&v, "goto_line", json!({ "line": l }));
                let now = d.sel(&v);
                let p = view.at(l, 0);
                ensure_eq!(now, vec![(p, p)], "goto-line", "line {} of {:?}", l, starts);
                regs = vec![Reg {
                    a: p,
                    c: p,
                    h: H::Free,
                }];
            }
        }
        for &(a, c) in d.sel(&v).iter() {
            // (a line may break between a space and a mark on it)
            let old = |p: usize| starts.contains(&p) || sel.iter().any(|r| r.0 == p || r.1 == p);
            ensure!(
                (is_g(&t, a) || old(a)) && (is_g(&t, c) || old(c)),
                "split-character",
                "{:?} in {}",
                (a, c),
                show(&t)
            );
        }
    }
    Ok(())
}

fn place(s: &mut Src, v: &View) -> (usize, u64, u64) {
    let (l, c) = if s.chance(1, 8) {
        cmds::pos(s, v.starts.len())
    } else {
        let l = s.range(0, v.last());
        let c = s.range(0, v.max_col(l) + 1);
        (l as u64, c as u64)
    };
    (v.at(l as usize, c as usize), l, c)
}
