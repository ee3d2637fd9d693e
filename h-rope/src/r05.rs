//! R05 (concurrent edits), R06 (undo sets), R07 (gc) against a character-level model
//! of the union string.
use pbt::{ensure, ensure_eq, Check, Src, R};
use std::collections::BTreeSet;
use xi_rope::delta::{Builder, DeltaElement};
use xi_rope::engine::{Engine, Error, RevId};
use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta, RopeInfo};

type Groups = BTreeSet<usize>;

#[derive(Clone, Debug, PartialEq)]
enum Fate {
    Live(usize), // decided by the group's current state
    On,          // collected while active
    Off,         // collected while undone
}

#[derive(Clone, Debug)]
struct Ch {
    c: char,
    rev: usize,
    ins: Fate,
    dels: Vec<(usize, Fate)>,
}

struct Model {
    union: Vec<Ch>,
    revs: Vec<Rev>,
    undone: Groups,
    next: u32,
    /// revisions before this index may not be used as bases any more
    floor: usize,
}

struct Rev {
    id: RevId,
    undone: Groups,
    priority: usize,
    edit: bool,
}

fn active(f: &Fate, undone: &Groups) -> bool {
    match f {
        Fate::Live(g) => !undone.contains(g),
        Fate::On => true,
        Fate::Off => false,
    }
}

impl Model {
    fn shown(&self, c: &Ch, r: usize) -> bool {
        let u = &self.revs[r].undone;
        c.rev <= r && active(&c.ins, u) && !c.dels.iter().any(|(dr, f)| *dr <= r && active(f, u))
    }
    fn text(&self, r: usize) -> String {
        self.union
            .iter()
            .filter(|c| self.shown(c, r))
            .map(|c| c.c)
            .collect()
    }
    fn head(&self) -> usize {
        self.revs.len() - 1
    }
    /// multiplicity of deletion is at most one for every character known at r
    fn simple(&self, r: usize) -> bool {
        let u = &self.revs[r].undone;
        self.union.iter().all(|c| {
            c.rev > r
                || (!active(&c.ins, u)) as usize
                    + c.dels
                        .iter()
                        .filter(|(dr, f)| *dr <= r && active(f, u))
                        .count()
                    <= 1
        })
    }
    /// Apply a delta (over the text of revision `b`) as a concurrent edit.
    fn edit(&mut self, b: usize, d: &RopeDelta, group: usize, priority: usize, id: RevId) {
        let newrev = self.revs.len();
        // union positions of the base text's characters, with byte offsets
        let vis: Vec<usize> = (0..self.union.len())
            .filter(|i| self.shown(&self.union[*i], b))
            .collect();
        let mut off = vec![0];
        for i in &vis {
            off.push(off.last().unwrap() + self.union[*i].c.len_utf8());
        }
        let ix = |o: usize| off.iter().position(|x| *x == o).unwrap();
        let mut ins: Vec<(usize, String)> = vec![]; // index in vis, text
        let mut keep = vec![false; vis.len()];
        let mut e1 = 0;
        for e in &d.els {
            match e {
                DeltaElement::Copy(x, y) => {
                    for k in ix(*x)..ix(*y) {
                        keep[k] = true;
                    }
                    e1 = ix(*y);
                }
                DeltaElement::Insert(n) => ins.push((e1, String::from(n))),
            }
        }
        for (k, i) in vis.iter().enumerate() {
            if !keep[k] {
                self.union[*i].dels.push((newrev, Fate::Live(group)));
            }
        }
        // place each insertion: `right` is the union element it stands directly before at the
        // current stage (None = end), `left` the one directly before it, among elements with rev <= stage
        let mut at: Vec<(usize, String)> = vec![];
        for (k, t) in ins {
            let mut slot = if k < vis.len() {
                vis[k]
            } else {
                self.union.len()
            }; // in union coordinates; directly before the base char, after older tombstones
               // walk later revisions
            let mut stage = b;
            // left neighbour among rev<=stage
            let known = |c: &Ch, st: usize| c.rev <= st;
            let mut left: Option<usize> = (0..slot).rev().find(|i| known(&self.union[*i], stage));
            let mut right: Option<usize> =
                (slot..self.union.len()).find(|i| known(&self.union[*i], stage));
            while stage + 1 < newrev {
                stage += 1;
                let lo = left.map_or(0, |l| l + 1);
                let hi = right.unwrap_or(self.union.len());
                let fresh: Vec<usize> = (lo..hi).filter(|i| self.union[*i].rev == stage).collect();
                if !fresh.is_empty() {
                    let after = priority >= self.revs[stage].priority;
                    if after {
                        left = fresh.last().cloned();
                    } else {
                        right = fresh.first().cloned();
                    }
                }
            }
            slot = right.unwrap_or(self.union.len());
            // everything strictly between left and right is unknown: nothing
            at.push((slot, t));
        }
        for (slot, t) in at.into_iter().rev() {
            let cs: Vec<Ch> = t
                .chars()
                .map(|c| Ch {
                    c,
                    rev: newrev,
                    ins: Fate::Live(group),
                    dels: vec![],
                })
                .collect();
            self.union.splice(slot..slot, cs);
        }
        self.revs.push(Rev {
            id,
            undone: self.undone.clone(),
            priority,
            edit: true,
        });
    }
    fn undo(&mut self, g: Groups, id: RevId) {
        self.undone = g.clone();
        self.revs.push(Rev {
            id,
            undone: g,
            priority: 0,
            edit: false,
        });
    }
    fn gc(&mut self, g: &Groups) {
        let last = self.head();
        let u = self.undone.clone();
        let fix = |rev: usize, f: &mut Fate| {
            if let Fate::Live(x) = f {
                if g.contains(x) && rev != last {
                    *f = if u.contains(x) { Fate::Off } else { Fate::On };
                }
            }
        };
        for c in self.union.iter_mut() {
            fix(c.rev, &mut c.ins);
            for (r, f) in c.dels.iter_mut() {
                fix(*r, f);
            }
        }
        self.floor = last;
    }
}

fn fresh(s: &mut Src, m: &mut Model, max: usize) -> String {
    let n = s.range(1, max);
    (0..n)
        .map(|_| {
            m.next += 1;
            if m.next % 7 == 3 {
                std::char::from_u32(0xc0 + m.next % 0x100).unwrap()
            } else if m.next % 29 == 5 {
                std::char::from_u32(0x4e00 + m.next).unwrap()
            } else {
                (b'!' + (m.next % 90) as u8) as char
            }
        })
        .collect()
}

fn gen_delta(s: &mut Src, m: &mut Model, base: &str) -> RopeDelta {
    let n = if s.chance(1, 3) { s.range(1, 3) } else { 1 };
    let bounds: Vec<usize> = base
        .char_indices()
        .map(|x| x.0)
        .chain(Some(base.len()))
        .collect();
    let mut cuts: Vec<usize> = (0..2 * n)
        .map(|_| match s.weighted(&[6, 1, 1]) {
            0 => *s.pick(&bounds),
            1 => 0,
            _ => base.len(),
        })
        .collect();
    cuts.sort();
    let mut b: Builder<RopeInfo> = DeltaBuilder::new(base.len());
    for i in 0..n {
        let (x, mut y) = (cuts[2 * i], cuts[2 * i + 1]);
        let kind = s.weighted(&[5, 3, 2]);
        if kind == 0 {
            y = x;
        }
        if kind == 1 {
            b.delete(Interval::new(x, y));
        } else {
            let t = fresh(s, m, 3);
            b.replace(Interval::new(x, y), Rope::from(&t));
        }
    }
    b.build()
}

struct Mode {
    undo: u32,
    gc: u32,
    bad: u32,
    stale: (u64, u64),
    ops: usize,
}

fn groups(s: &mut Src, max: usize) -> Groups {
    let n = s.range(0, 3);
    (0..n).map(|_| s.range(1, max)).collect()
}

fn check_all(s: &mut Src, e: &Engine, m: &Model, deep: bool) -> R {
    let h = m.head();
    let want = m.text(h);
    ensure_eq!(String::from(e.get_head()), want, "head");
    let hid = e.get_head_rev_id();
    ensure_eq!(hid, m.revs[h].id, "head-id");
    ensure_eq!(
        e.get_rev(hid.token()).map(|r| String::from(&r)),
        Some(want.clone()),
        "get_rev-head"
    );
    for r in m.floor..h {
        if !deep && s.chance(1, 2) {
            continue;
        }
        let tok = m.revs[r].id.token();
        let t = m.text(r);
        let got = e.get_rev(tok).map(|x| String::from(&x));
        ensure_eq!(got, Some(t.clone()), "get_rev", "revision {} of {}", r, h);
        let d = match e.try_delta_rev_head(tok) {
            Ok(d) => d,
            Err(x) => return pbt::fail("delta_rev_head", format!("revision {}: {:?}", r, x)),
        };
        ensure_eq!(
            d.base_len,
            t.len(),
            "delta_rev_head base_len",
            "revision {}",
            r
        );
        ensure_eq!(
            String::from(&d.apply(&Rope::from(&t))),
            want,
            "delta_rev_head",
            "revision {} delta {:?}",
            r,
            d
        );
        // what survives is copied, not deleted and inserted again
        let both: usize = m
            .union
            .iter()
            .filter(|c| m.shown(c, r) && m.shown(c, h))
            .map(|c| c.c.len_utf8())
            .sum();
        ensure_eq!(
            d.new_document_len() - d.inserts_len(),
            both,
            "delta_rev_head survivors",
            "revision {} delta {:?}",
            r,
            d
        );
    }
    if h > m.floor {
        let (a, b) = (s.range(m.floor, h), s.range(m.floor, h));
        let eq = m.union.iter().all(|c| m.shown(c, a) == m.shown(c, b));
        let got = e.is_equivalent_revision(m.revs[a].id, m.revs[b].id);
        if !eq || (m.simple(a) && m.simple(b)) {
            ensure_eq!(
                got,
                eq,
                "is_equivalent_revision",
                "revisions {} and {}",
                a,
                b
            );
        }
    }
    Ok(())
}

fn history(s: &mut Src, mode: Mode) -> R {
    let init: String = {
        let n = s.range(0, 8);
        (0..n).map(|i| (b'A' + i as u8) as char).collect()
    };
    let mut e = Engine::new(Rope::from(&init));
    let mut m = Model {
        union: vec![],
        revs: vec![],
        undone: Groups::new(),
        next: 0,
        floor: 0,
    };
    // revision 0 is the empty document
    let first = if init.is_empty() {
        e.get_head_rev_id()
    } else {
        RevIdProbe::zero()
    };
    m.revs.push(Rev {
        id: first,
        undone: Groups::new(),
        priority: 0,
        edit: false,
    });
    if !init.is_empty() {
        for c in init.chars() {
            m.union.push(Ch {
                c,
                rev: 1,
                ins: Fate::Live(0),
                dels: vec![],
            });
        }
        m.revs.push(Rev {
            id: e.get_head_rev_id(),
            undone: Groups::new(),
            priority: 0,
            edit: true,
        });
    }
    s.log(|| format!("start {:?}", init));
    check_all(s, &e, &m, true)?;
    let (mut stale, mut undos, mut gcs) = (0, 0, 0);
    let nops = s.range(1, mode.ops);
    let mut maxg = 1;
    let mut dead: Groups = Groups::new();
    for _ in 0..nops {
        match s.weighted(&[10, mode.undo, mode.gc, mode.bad]) {
            0 => {
                let h = m.head();
                let b = if h > m.floor && s.chance(mode.stale.0, mode.stale.1) {
                    s.range(m.floor, h - 1)
                } else {
                    h
                };
                let base = m.text(b);
                let d = gen_delta(s, &mut m, &base);
                let mut g = if s.chance(1, 3) {
                    s.range(1, maxg)
                } else {
                    maxg + 1
                };
                if dead.contains(&g) {
                    g = maxg + 1;
                }
                maxg = maxg.max(g);
                let p = *s.pick(&[1usize, 0, 2, 1]);
                s.log(|| {
                    format!(
                        "edit base r{} {:?} group {} priority {} {:#?}",
                        b, base, g, p, d
                    )
                });
                if let Err(x) = e.try_edit_rev(p, g, m.revs[b].id.token(), d.clone()) {
                    return pbt::fail("edit-refused", format!("{:?}", x));
                }
                m.edit(b, &d, g, p, e.get_head_rev_id());
                if b != h && (b + 1..=h).any(|r| m.revs[r].edit) {
                    stale += 1;
                }
            }
            1 => {
                let g = if s.chance(1, 4) {
                    Groups::new()
                } else {
                    groups(s, maxg)
                };
                s.log(|| format!("undo {:?}", g));
                e.undo(g.clone());
                m.undo(g, e.get_head_rev_id());
                undos += 1;
            }
            2 => {
                let g = groups(s, maxg);
                s.log(|| format!("gc {:?}", g));
                e.gc(&g);
                m.gc(&g);
                dead.extend(g.iter().cloned());
                gcs += 1;
            }
            _ => {
                let bad_base = s.bool();
                let h = m.head();
                let b = s.range(m.floor, h);
                let base = m.text(b);
                let before = e.max_undo_group_id();
                let r = if bad_base {
                    let d = gen_delta(s, &mut m, &base);
                    let mut tok = m.revs[b].id.token() ^ (1 << s.range(0, 63));
                    while m.revs.iter().any(|r| r.id.token() == tok) {
                        tok ^= 2;
                    }
                    let r = e.try_edit_rev(1, maxg + 7, tok, d);
                    ensure!(
                        matches!(r, Err(Error::MissingRevision(t)) if t == tok),
                        "unknown-revision",
                        "{:?}",
                        r
                    );
                    ensure!(
                        e.get_rev(tok).is_none() && e.try_delta_rev_head(tok).is_err(),
                        "unknown-revision",
                        "token accepted"
                    );
                    r
                } else {
                    let mut wrong = base.clone();
                    for _ in 0..s.range(1, 3) {
                        if s.bool() || wrong.is_empty() {
                            wrong.push('q');
                        } else {
                            wrong.pop();
                        }
                    }
                    if wrong.len() == base.len() {
                        wrong.push('q');
                    }
                    let d = gen_delta(s, &mut m, &wrong);
                    let r = e.try_edit_rev(1, maxg + 7, m.revs[b].id.token(), d);
                    let ok = match &r {
                        Err(Error::MalformedDelta { rev_len, delta_len }) => {
                            *rev_len == base.len() && *delta_len == wrong.len()
                        }
                        _ => false,
                    };
                    ensure!(
                        ok,
                        "wrong-length",
                        "{:?} for a delta of base {} over a text of {}",
                        r,
                        wrong.len(),
                        base.len()
                    );
                    r
                };
                s.log(|| format!("refused edit {:?}", r));
                ensure_eq!(
                    e.max_undo_group_id(),
                    before,
                    "refused edit changed max group"
                );
                s.label("refused");
            }
        }
        check_all(s, &e, &m, false)?;
        ensure!(
            e.max_undo_group_id() <= maxg,
            "max_undo_group_id",
            "{} > {}",
            e.max_undo_group_id(),
            maxg
        );
    }
    check_all(s, &e, &m, true)?;
    if mode.gc > 0 {
        if gcs > 0 && undos > 0 {
            s.nontrivial();
        }
    } else if mode.undo > 0 {
        if undos > 1 {
            s.nontrivial();
        }
    } else if stale > 0 {
        s.nontrivial();
    }
    Ok(())
}

struct RevIdProbe;
impl RevIdProbe {
    /// the identity of the empty revision every document starts from
    fn zero() -> RevId {
        Engine::empty().get_head_rev_id()
    }
}

fn concurrent(s: &mut Src) -> R {
    history(
        s,
        Mode {
            undo: 0,
            gc: 0,
            bad: 2,
            stale: (3, 5),
            ops: 12,
        },
    )
}
fn concurrent_undo(s: &mut Src) -> R {
    history(
        s,
        Mode {
            undo: 3,
            gc: 0,
            bad: 1,
            stale: (1, 2),
            ops: 12,
        },
    )
}
fn undo(s: &mut Src) -> R {
    history(
        s,
        Mode {
            undo: 8,
            gc: 0,
            bad: 0,
            stale: (1, 6),
            ops: 16,
        },
    )
}
fn gc(s: &mut Src) -> R {
    history(
        s,
        Mode {
            undo: 6,
            gc: 3,
            bad: 0,
            stale: (1, 4),
            ops: 18,
        },
    )
}
fn long(s: &mut Src) -> R {
    history(
        s,
        Mode {
            undo: 6,
            gc: 0,
            bad: 1,
            stale: (1, 3),
            ops: 80,
        },
    )
}
fn gc_long(s: &mut Src) -> R {
    history(
        s,
        Mode {
            undo: 6,
            gc: 1,
            bad: 1,
            stale: (1, 3),
            ops: 80,
        },
    )
}

/// the order of undo requests does not matter, redo restores exactly
fn undo_order(s: &mut Src) -> R {
    let mut m = Model {
        union: vec![],
        revs: vec![],
        undone: Groups::new(),
        next: 0,
        floor: 0,
    };
    let mut e = Engine::new(Rope::from("ABCDE"));
    let mut toks = vec![(e.get_head_rev_id(), "ABCDE".to_string())];
    let n = s.range(2, 8);
    for g in 1..=n {
        let i = if s.chance(1, 3) {
            s.idx(toks.len())
        } else {
            toks.len() - 1
        };
        let (id, base) = toks[i].clone();
        let d = gen_delta(s, &mut m, &base);
        s.log(|| format!("edit base {} group {} {:#?}", i, g, d));
        e.edit_rev(1, g, id.token(), d);
        toks.push((e.get_head_rev_id(), String::from(e.get_head())));
    }
    let full = toks.last().unwrap().1.clone();
    let target: Groups = (1..=n).filter(|_| s.bool()).collect();
    let walk = |s: &mut Src, e: &mut Engine, from: &Groups, target: &Groups| {
        // arbitrary path to the target set
        let mut cur = from.clone();
        for _ in 0..s.range(0, 4) {
            cur = (1..=n).filter(|_| s.bool()).collect();
            e.undo(cur.clone());
        }
        let mut todo: Vec<usize> = cur.symmetric_difference(target).cloned().collect();
        while !todo.is_empty() {
            let i = s.idx(todo.len());
            let g = todo.remove(i);
            if !cur.remove(&g) {
                cur.insert(g);
            }
            e.undo(cur.clone());
        }
        String::from(e.get_head())
    };
    let a = walk(s, &mut e, &Groups::new(), &target);
    let ida = e.get_head_rev_id();
    let none = walk(s, &mut e, &target, &Groups::new());
    ensure_eq!(
        none,
        full,
        "redo-all",
        "redoing every group does not restore the text"
    );
    let b = walk(s, &mut e, &Groups::new(), &target);
    ensure_eq!(
        b,
        a,
        "undo-order",
        "the same undone set {:?} gives different texts",
        target
    );
    ensure!(
        e.is_equivalent_revision(ida, e.get_head_rev_id()),
        "undo-equivalent",
        "same undone set, not an equivalent revision"
    );
    if !target.is_empty() && a != full {
        s.nontrivial();
    }
    Ok(())
}

/// the editor's own policy: linear edits and undo/redo, collecting the oldest groups
fn policy(s: &mut Src) -> R {
    let mut m = Model {
        union: vec![],
        revs: vec![],
        undone: Groups::new(),
        next: 0,
        floor: 0,
    };
    let mut a = Engine::new(Rope::from("start"));
    let mut b = Engine::new(Rope::from("start"));
    let keep = s.range(2, 5);
    let mut live: Vec<usize> = vec![];
    let mut cur = 0;
    let mut collected = 0;
    for g in 1..=s.range(4, 30) {
        match s.weighted(&[5, 3, 2]) {
            0 => {
                live.truncate(cur);
                live.push(g);
                cur += 1;
                let base = String::from(a.get_head());
                let d = gen_delta(s, &mut m, &base);
                s.log(|| format!("edit {} {:#?}", g, d));
                let (ta, tb) = (a.get_head_rev_id().token(), b.get_head_rev_id().token());
                a.edit_rev(1, g, ta, d.clone());
                b.edit_rev(1, g, tb, d);
                if live.len() > keep {
                    // the oldest group leaves the undo list and is collected from a
                    let old: Groups = live.drain(0..1).collect();
                    cur -= 1;
                    s.log(|| format!("gc {:?}", old));
                    a.gc(&old);
                    collected += 1;
                }
            }
            1 if cur > 0 => {
                cur -= 1;
                let u: Groups = live[cur..].iter().cloned().collect();
                s.log(|| format!("undo {:?}", u));
                a.undo(u.clone());
                b.undo(u);
            }
            _ if cur < live.len() => {
                cur += 1;
                let u: Groups = live[cur..].iter().cloned().collect();
                s.log(|| format!("undo {:?}", u));
                a.undo(u.clone());
                b.undo(u);
            }
            _ => {}
        }
        ensure_eq!(
            String::from(a.get_head()),
            String::from(b.get_head()),
            "gc-differs",
            "with and without collection"
        );
    }
    if collected > 0 {
        s.nontrivial();
    }
    Ok(())
}

pub fn check5() -> Check {
    Check::new(
        "R05",
        "a history with at least one edit against a revision older than some later edit",
    )
    .arm("concurrent", 40_000, 800_000, concurrent)
    .arm("with-undo", 20_000, 400_000, concurrent_undo)
    .arm("long", 300, 20_000, long)
}
pub fn check6() -> Check {
    Check::new("R06", "a history with at least two undo requests (order arm: a proper subset undone that changes the text)")
        .arm("undo", 30_000, 600_000, undo)
        .arm("order", 15_000, 300_000, undo_order)
        .arm("long", 300, 20_000, long)
}
pub fn check7() -> Check {
    Check::new(
        "R07",
        "a history with at least one collection and one undo (policy arm: at least one collection)",
    )
    .arm("gc", 30_000, 600_000, gc)
    .arm("long", 300, 20_000, gc_long)
    .arm("policy", 15_000, 300_000, policy)
}
