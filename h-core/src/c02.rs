//! C02: selections, against a plain list of intervals.
use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use std::ops::Deref;
use xi_core_lib::selection::{Affinity, InsertDrift, SelRegion, Selection};
use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta};

pub fn check() -> Check {
    Check::new("C02", "at least one join, removal or edit changed the set")
        .arm("history", 500_000, 6_000_000, history)
        .arm("edit", 300_000, 4_000_000, edited)
}

fn meets(a: (usize, usize), b: (usize, usize)) -> bool {
    let caret = a.0 == a.1 || b.0 == b.1;
    if caret {
        a.0 <= b.1 && b.0 <= a.1
    } else {
        a.0 < b.1 && b.0 < a.1
    }
}

/// adds with joining, by repeated search
fn add(m: &mut Vec<(usize, usize)>, r: (usize, usize)) -> bool {
    let mut cur = r;
    let mut joined = false;
    // a caret is absorbed by whatever it meets; everything else is joined until nothing meets
    while let Some(i) = m.iter().position(|&x| meets(x, cur)) {
        let x = m.remove(i);
        cur = (x.0.min(cur.0), x.1.max(cur.1));
        joined = true;
    }
    m.push(cur);
    m.sort();
    joined
}

fn flat(s: &Selection) -> Vec<(usize, usize)> {
    s.deref().iter().map(|r| (r.min(), r.max())).collect()
}

/// the touching boundary a caret falls on may be joined into either side: compare by coverage
fn invariant(s: &Selection) -> R {
    let v = flat(s);
    for w in v.windows(2) {
        ensure!(w[0].1 <= w[1].0, "unsorted", "{:?}", v);
        ensure!(
            w[0].1 < w[1].0 || (w[0].0 < w[0].1 && w[1].0 < w[1].1),
            "caret-touches",
            "{:?}",
            v
        );
    }
    Ok(())
}

fn region(s: &mut Src, n: usize) -> SelRegion {
    let a = s.range(0, n);
    let b = match s.below(4) {
        0 => a,
        1 => (a + s.range(0, 3)).min(n),
        2 => a.saturating_sub(s.range(0, 3)),
        _ => s.range(0, n),
    };
    let mut r = SelRegion::new(a, b);
    if s.chance(1, 6) {
        r = r.with_affinity(Affinity::Upstream);
    }
    if s.chance(1, 6) {
        r = r.with_horiz(Some(s.range(0, 9)));
    }
    r
}

fn history(s: &mut Src) -> R {
    let n = *s.pick(&[6usize, 12, 30, 100]);
    let mut sel = Selection::new();
    let mut m: Vec<(usize, usize)> = vec![];
    let steps = s.range(1, 24);
    for _ in 0..steps {
        match s.weighted(&[10, 3, 3, 2, 1]) {
            0 => {
                let r = region(s, n);
                s.log(|| format!("add {}", r));
                let before: Vec<SelRegion> = sel.to_vec();
                sel.add_region(r);
                if add(&mut m, (r.min(), r.max())) {
                    s.nontrivial();
                } else {
                    ensure!(
                        sel.iter().any(|x| *x == r),
                        "added-altered",
                        "{:?} not in {:?}",
                        r,
                        sel
                    );
                }
                for b in before {
                    if !meets((b.min(), b.max()), (r.min(), r.max()))
                        && m.contains(&(b.min(), b.max()))
                    {
                        ensure!(
                            sel.iter().any(|x| *x == b),
                            "bystander-altered",
                            "{:?} not in {:?}",
                            b,
                            sel
                        );
                    }
                }
            }
            1 => {
                let (a, b) = (s.range(0, n), s.range(0, n));
                let (a, b) = (a.min(b), a.max(b));
                let adj = s.bool();
                s.log(|| format!("delete {}..{} adjacent {}", a, b, adj));
                sel.delete_range(a, b, adj);
                let l = m.len();
                m.retain(|&(x, y)| {
                    if adj {
                        y < a || x > b
                    } else {
                        y <= a || x >= b
                    }
                });
                if m.len() != l {
                    s.nontrivial();
                }
            }
            2 => {
                let (a, b) = (s.range(0, n), s.range(0, n));
                let (a, b) = (a.min(b), a.max(b));
                let got: Vec<_> = sel
                    .regions_in_range(a, b)
                    .iter()
                    .map(|r| (r.min(), r.max()))
                    .collect();
                let want: Vec<_> = m
                    .iter()
                    .copied()
                    .filter(|&(x, y)| y >= a && x <= b)
                    .collect();
                ensure_eq!(
                    got,
                    want,
                    "in-range",
                    "regions_in_range({}, {}) of {:?}",
                    a,
                    b,
                    m
                );
            }
            3 => {
                let r = region(s, n);
                s.log(|| format!("add distinct {}", r));
                let q = (r.min(), r.max());
                // the set may hold carets at q's edges, which do not conflict with a region
                let clash = |x: &(usize, usize)| {
                    if *x == q {
                        true
                    } else {
                        x.0 < q.1 && q.0 < x.1
                    }
                };
                let hits: Vec<_> = m.iter().copied().filter(|x| clash(x)).collect();
                let carets = m.iter().any(|x| x.0 == x.1 && q.0 <= x.0 && x.0 <= q.1)
                    || (q.0 == q.1 && m.iter().any(|x| x.0 <= q.0 && q.0 <= x.1));
                if carets && !(hits.len() == 1 && hits[0] == q) {
                    continue; // distinct ranges are only defined among non-empty matches
                }
                let got = sel.add_range_distinct(r);
                let earlier = hits.iter().find(|x| x.0 <= q.0);
                if let Some(e) = earlier {
                    ensure_eq!(got, *e, "distinct-kept");
                } else {
                    ensure_eq!(got, q, "distinct-added");
                    m.retain(|x| !clash(x));
                    m.push(q);
                    m.sort();
                }
                s.nontrivial();
            }
            _ => {
                if !m.is_empty() && s.chance(1, 4) {
                    let first = sel[0];
                    sel.collapse();
                    ensure_eq!(sel.len(), 1, "collapse-one");
                    ensure_eq!(sel[0].end, first.end, "collapse-caret");
                    m = vec![(first.end, first.end)];
                } else if s.chance(1, 8) {
                    sel.clear();
                    m.clear();
                }
            }
        }
        invariant(&sel)?;
        let got = flat(&sel);
        ensure_eq!(got, m, "set", "selection differs from the model");
        for p in 0..=n {
            let want = m.iter().position(|r| r.1 >= p).unwrap_or(m.len());
            ensure_eq!(sel.search(p), want, "search", "search({}) in {:?}", p, m);
        }
    }
    Ok(())
}

pub fn delta(s: &mut Src, t: &str) -> (RopeDelta, Vec<((usize, usize), String)>) {
    let mut b = DeltaBuilder::new(t.len());
    let mut reps: Vec<((usize, usize), String)> = vec![];
    let mut at = 0;
    for _ in 0..s.range(0, 4) {
        if at > t.len() {
            break;
        }
        let a = s.range(at, t.len());
        let e = if s.bool() {
            a
        } else {
            (a + s.range(0, 6)).min(t.len())
        };
        let (a, e) = (bound(t, a), bound(t, e));
        if a < at {
            continue;
        }
        let ins = if a == e || s.bool() {
            ascii(s, 4)
        } else {
            String::new()
        };
        if a == e && ins.is_empty() {
            continue;
        }
        if ins.is_empty() {
            b.delete(Interval::new(a, e));
        } else {
            b.replace(Interval::new(a, e), Rope::from(ins.as_str()));
        }
        reps.push(((a, e), ins));
        at = e + 1;
    }
    (b.build(), reps)
}

/// where offset p goes, given after: past text inserted exactly there
pub fn moved(reps: &[((usize, usize), String)], p: usize, after: bool) -> usize {
    let mut shift: isize = 0;
    for ((a, e), ins) in reps {
        if p < *a {
            break;
        }
        if p > *e {
            shift += ins.len() as isize - (e - a) as isize;
            continue;
        }
        // a <= p <= e
        return if a == e {
            (p as isize + shift) as usize + if after { ins.len() } else { 0 }
        } else {
            usize::MAX // position replaced or at the edge of it: two answers, see allowed()
        };
    }
    (p as isize + shift) as usize
}

/// every new offset an old one may sensibly have
pub fn allowed(reps: &[((usize, usize), String)], p: usize, after: bool) -> Vec<usize> {
    let q = moved(reps, p, after);
    if q != usize::MAX {
        return vec![q];
    }
    let mut shift: isize = 0;
    for ((a, e), ins) in reps {
        if p > *e {
            shift += ins.len() as isize - (e - a) as isize;
            continue;
        }
        let lo = (*a as isize + shift) as usize;
        let hi = lo + ins.len();
        // inside: collapses to where the text was, on the side `after` says; the edge
        // of the deleted text that keeps its own neighbour may stay outside
        return if *a < p && p < *e {
            vec![lo, hi]
        } else if p == *a {
            vec![lo, hi]
        } else {
            vec![hi, lo]
        };
    }
    unreachable!()
}

fn edited(s: &mut Src) -> R {
    let t = ascii(s, 24);
    let n = t.len();
    let mut sel = Selection::new();
    for _ in 0..s.range(1, 6) {
        sel.add_region(region(s, n));
    }
    let (d, reps) = delta(s, &t);
    let after = s.bool();
    let drift = s.below(3);
    s.log(|| {
        format!(
            "text {:?} selection {:?} edits {:?} after {} drift {}",
            t,
            flat(&sel),
            reps,
            after,
            drift
        )
    });
    let mk = || match drift {
        0 => InsertDrift::Inside,
        1 => InsertDrift::Outside,
        _ => InsertDrift::Default,
    };
    let got = sel.apply_delta(&d, after, mk());
    invariant(&got)?;
    // each region alone must land on allowed ends, in the direction the drift asks for
    let mut want: Vec<(usize, usize)> = vec![];
    let mut exact = true;
    for r in sel.iter() {
        let one = Selection::new_simple(*r).apply_delta(&d, after, mk());
        ensure_eq!(one.len(), 1, "one-region");
        let q = one[0];
        let (sa, ea) = if r.is_caret() || drift == 2 {
            (after, after)
        } else {
            let inside = drift == 0;
            let fwd = r.start < r.end;
            (inside != fwd, inside == fwd)
        };
        let (ws, we) = (allowed(&reps, r.start, sa), allowed(&reps, r.end, ea));
        ensure!(
            ws.contains(&q.start),
            "end-moved",
            "start {} of {} became {}, allowed {:?}",
            r.start,
            r,
            q.start,
            ws
        );
        ensure!(
            we.contains(&q.end),
            "end-moved",
            "end {} of {} became {}, allowed {:?}",
            r.end,
            r,
            q.end,
            we
        );
        if ws.len() > 1 || we.len() > 1 {
            exact = false;
        }
        if q.start != r.start || q.end != r.end {
            s.nontrivial();
        }
        ensure_eq!(
            q.affinity == Affinity::Upstream,
            r.affinity == Affinity::Upstream,
            "affinity"
        );
        add(&mut want, (q.min(), q.max()));
    }
    let _ = exact;
    // joining all of them gives the result
    ensure_eq!(flat(&got), want, "joined");
    Ok(())
}
