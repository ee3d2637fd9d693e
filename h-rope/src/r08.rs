//! R08: replicas that merge converge.
use pbt::{ensure, ensure_eq, Check, Src, R};
use std::collections::{BTreeMap, BTreeSet};
use xi_rope::delta::Builder;
use xi_rope::engine::{Engine, RevId};
use xi_rope::{DeltaBuilder, Interval, Rope, RopeInfo};

struct Rep {
    e: Engine,
    /// edits known here
    knows: BTreeSet<usize>,
    revs: Vec<(RevId, String)>,
}

struct Op {
    ins: Vec<char>,
    del: Vec<char>,
}

fn head(r: &Rep) -> String {
    String::from(r.e.get_head())
}

fn sym(n: usize) -> char {
    let n = n as u32;
    if n < 26 {
        (b'a' + n as u8) as char
    } else {
        std::char::from_u32(0x4e00 + n).unwrap()
    }
}

struct Cfg {
    peers: (usize, usize),
    ops: usize,
    stale: bool,
    prios: usize,
    del: u32,
    deep_merge: bool,
}

fn run(s: &mut Src, c: Cfg) -> R {
    let n = s.range(c.peers.0, c.peers.1);
    let mut reps: Vec<Rep> = vec![];
    let mut sess: Vec<(u64, u32)> = vec![];
    for i in 0..n {
        let mut e = Engine::empty();
        let id = (s.range(1, 6) as u64, i as u32 * 7 % 5 + 1);
        let id = if sess.contains(&id) {
            (10 + i as u64, 0)
        } else {
            id
        };
        sess.push(id);
        e.set_session_id(id);
        reps.push(Rep {
            e,
            knows: BTreeSet::new(),
            revs: vec![],
        });
    }
    s.log(|| format!("sessions {:?}", sess));
    let mut next = 0;
    let mut ops: Vec<Op> = vec![];
    // the common state: an initial text made by one replica
    let init: String = (0..s.range(0, 6))
        .map(|_| {
            next += 1;
            sym(next - 1)
        })
        .collect();
    if !init.is_empty() {
        let base = reps[0].e.get_head_rev_id().token();
        let mut b: Builder<RopeInfo> = DeltaBuilder::new(0);
        b.replace(Interval::new(0, 0), Rope::from(&init));
        reps[0].e.edit_rev(1, 0, base, b.build());
        reps[0].knows.insert(0);
        ops.push(Op {
            ins: init.chars().collect(),
            del: vec![],
        });
        let (a, rest) = reps.split_at_mut(1);
        for r in rest {
            r.e.merge(&a[0].e);
            r.knows.insert(0);
        }
    }
    for r in reps.iter_mut() {
        r.revs.push((r.e.get_head_rev_id(), init.clone()));
    }
    s.log(|| format!("common text {:?}", init));
    let prios: Vec<usize> = (0..n).map(|_| s.range(0, c.prios)).collect();
    let mut seen: Vec<String> = vec![];
    let mut concurrent = false;
    for _ in 0..s.range(1, c.ops) {
        if s.chance(3, 5) {
            let p = s.idx(n);
            let (rev, base) = if c.stale && s.chance(1, 4) {
                s.pick(&reps[p].revs).clone()
            } else {
                (reps[p].e.get_head_rev_id(), head(&reps[p]))
            };
            let bounds: Vec<usize> = base
                .char_indices()
                .map(|x| x.0)
                .chain(Some(base.len()))
                .collect();
            let k = if s.chance(1, 4) { 2 } else { 1 };
            let mut cuts: Vec<usize> = (0..2 * k).map(|_| *s.pick(&bounds)).collect();
            cuts.sort();
            let mut b: Builder<RopeInfo> = DeltaBuilder::new(base.len());
            let mut op = Op {
                ins: vec![],
                del: vec![],
            };
            for i in 0..k {
                let (x, mut y) = (cuts[2 * i], cuts[2 * i + 1]);
                let kind = s.weighted(&[6, c.del, c.del]);
                if kind == 0 {
                    y = x;
                }
                op.del.extend(base[x..y].chars());
                if kind == 1 {
                    b.delete(Interval::new(x, y));
                } else {
                    let t: String = (0..s.range(1, 2))
                        .map(|_| {
                            next += 1;
                            sym(next - 1)
                        })
                        .collect();
                    op.ins.extend(t.chars());
                    b.replace(Interval::new(x, y), Rope::from(&t));
                }
            }
            let d = b.build();
            s.log(|| {
                format!(
                    "peer {} (priority {}) edits {:?}: {:#?}",
                    p, prios[p], base, d
                )
            });
            reps[p].e.edit_rev(prios[p], ops.len() + 1, rev.token(), d);
            reps[p].knows.insert(ops.len());
            ops.push(op);
        } else {
            let (a, b) = (s.idx(n), s.idx(n));
            if a == b {
                continue;
            }
            merge(s, &mut reps, a, b)?;
        }
        let p = s.idx(n);
        let t = head(&reps[p]);
        let id = reps[p].e.get_head_rev_id();
        reps[p].revs.push((id, t.clone()));
        for r in &reps {
            content(r, &ops)?;
            seen.push(head(r));
        }
        if !reps.iter().all(|r| r.knows.is_subset(&reps[0].knows))
            && !reps[0].knows.iter().all(|k| reps[1].knows.contains(k))
        {
            concurrent = true;
        }
    }
    if concurrent {
        s.nontrivial();
    }
    // everyone receives everything, along a random path
    let all: BTreeSet<usize> = (0..ops.len()).collect();
    let mut guard = 0;
    while !reps.iter().all(|r| r.knows == all) {
        let (a, b) = (s.idx(n), s.idx(n));
        guard += 1;
        let (a, b) = if guard > 40 {
            (guard % n, (guard / n) % n)
        } else {
            (a, b)
        };
        if a != b && (c.deep_merge || !reps[b].knows.is_subset(&reps[a].knows)) {
            merge(s, &mut reps, a, b)?;
            content(&reps[a], &ops)?;
            seen.push(head(&reps[a]));
            // replicas with the same edits have the same text
            for x in 0..n {
                for y in 0..x {
                    if reps[x].knows == reps[y].knows {
                        ensure_eq!(
                            head(&reps[x]),
                            head(&reps[y]),
                            "diverged",
                            "replicas {} and {} have received the same edits",
                            x,
                            y
                        );
                    }
                }
            }
        }
    }
    let want = head(&reps[0]);
    for (i, r) in reps.iter().enumerate() {
        ensure_eq!(head(r), want, "diverged", "replica {}", i);
    }
    // merging again changes nothing
    let (a, b) = (s.idx(n), s.idx(n));
    if a != b {
        merge(s, &mut reps, a, b)?;
        ensure_eq!(
            head(&reps[a]),
            want,
            "merge-again",
            "merging a peer with nothing new"
        );
    }
    // relative order of surviving characters never changed
    let pos: BTreeMap<char, usize> = want.chars().enumerate().map(|(i, c)| (c, i)).collect();
    for t in &seen {
        let p: Vec<usize> = t.chars().filter_map(|c| pos.get(&c).cloned()).collect();
        ensure!(
            p.windows(2).all(|w| w[0] < w[1]),
            "order-changed",
            "{:?} was read before, final text is {:?}",
            t,
            want
        );
    }
    Ok(())
}

fn merge(s: &mut Src, reps: &mut Vec<Rep>, a: usize, b: usize) -> R {
    s.log(|| {
        format!(
            "peer {} {:?} merges peer {} {:?}",
            a,
            head(&reps[a]),
            b,
            head(&reps[b])
        )
    });
    let (x, y) = if a < b {
        let (l, r) = reps.split_at_mut(b);
        (&mut l[a], &r[0])
    } else {
        let (l, r) = reps.split_at_mut(a);
        (&mut r[0], &l[b])
    };
    let nothing = y.knows.is_subset(&x.knows);
    let before = head(x);
    x.e.merge(&y.e);
    if nothing {
        ensure_eq!(
            head(x),
            before,
            "merge-again",
            "merging a peer with nothing new"
        );
    }
    x.knows.extend(y.knows.iter().cloned());
    Ok(())
}

fn content(r: &Rep, ops: &[Op]) -> R {
    let mut want: BTreeSet<char> = BTreeSet::new();
    for k in &r.knows {
        want.extend(ops[*k].ins.iter());
    }
    for k in &r.knows {
        for c in &ops[*k].del {
            want.remove(c);
        }
    }
    let t = head(r);
    let got: BTreeSet<char> = t.chars().collect();
    ensure!(got.len() == t.chars().count(), "applied-twice", "{:?}", t);
    ensure!(
        got == want,
        "lost-or-undeleted",
        "{:?}, should hold {:?}",
        t,
        want
    );
    Ok(())
}

fn pair(s: &mut Src) -> R {
    run(
        s,
        Cfg {
            peers: (2, 2),
            ops: 10,
            stale: false,
            prios: 2,
            del: 2,
            deep_merge: true,
        },
    )
}
fn inserts(s: &mut Src) -> R {
    run(
        s,
        Cfg {
            peers: (2, 4),
            ops: 10,
            stale: false,
            prios: 0,
            del: 0,
            deep_merge: true,
        },
    )
}
fn many(s: &mut Src) -> R {
    run(
        s,
        Cfg {
            peers: (3, 4),
            ops: 14,
            stale: false,
            prios: 2,
            del: 2,
            deep_merge: true,
        },
    )
}
fn stale(s: &mut Src) -> R {
    run(
        s,
        Cfg {
            peers: (2, 3),
            ops: 12,
            stale: true,
            prios: 1,
            del: 1,
            deep_merge: true,
        },
    )
}

pub fn check() -> Check {
    Check::new(
        "R08",
        "a history in which two replicas each held an edit the other lacked",
    )
    .arm("pair", 60_000, 600_000, pair)
    .arm("inserts", 60_000, 600_000, inserts)
    .arm("many", 60_000, 600_000, many)
    .arm("stale", 30_000, 300_000, stale)
}
