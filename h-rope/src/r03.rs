use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_rope::delta::{Builder, DeltaElement, Transformer};
use xi_rope::multiset::{CountMatcher, SubsetBuilder};
use xi_rope::{Delta, DeltaBuilder, Interval, Rope, RopeDelta, RopeInfo};

#[derive(Debug, Clone)]
pub struct Ed {
    pub a: usize,
    pub b: usize,
    pub ins: String,
}

pub fn edits(s: &mut Src, m: &str, max: usize) -> Vec<Ed> {
    let n = s.range(0, max);
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| offset(s, m)).collect();
    cuts.sort();
    let mut v: Vec<Ed> = Vec::new();
    for i in 0..n {
        let (mut a, mut b) = (cuts[2 * i], cuts[2 * i + 1]);
        if let Some(p) = v.last() {
            if s.chance(1, 5) {
                a = p.b;
            }
        }
        if s.chance(1, 4) {
            b = a;
        }
        if b < a {
            b = a;
        }
        let ins = if s.chance(1, 3) {
            String::new()
        } else if s.chance(1, 12) {
            piece(s)
        } else {
            short(s, 4)
        };
        v.push(Ed { a, b, ins });
    }
    v
}

pub fn build(m: &str, v: &[Ed]) -> RopeDelta {
    let mut b: Builder<RopeInfo> = DeltaBuilder::new(m.len());
    for e in v {
        if e.ins.is_empty() {
            b.delete(Interval::new(e.a, e.b));
        } else {
            b.replace(Interval::new(e.a, e.b), Rope::from(&e.ins));
        }
    }
    b.build()
}

pub fn splice(m: &str, v: &[Ed]) -> String {
    let mut o = String::new();
    let mut p = 0;
    for e in v {
        o.push_str(&m[p..e.a]);
        o.push_str(&e.ins);
        p = e.b;
    }
    o.push_str(&m[p..]);
    o
}

/// A gap of the delta: base range removed, text inserted there, offset in the new text.
struct Gap {
    a: usize,
    b: usize,
    ins: usize,
    at: usize,
}

fn gaps(d: &RopeDelta) -> Vec<Gap> {
    let mut v: Vec<Gap> = Vec::new();
    let (mut p, mut q) = (0, 0);
    let mut ins = 0;
    let mut els: Vec<(usize, usize, usize)> = vec![];
    for e in &d.els {
        match e {
            DeltaElement::Copy(a, b) => {
                els.push((ins, *a, *b));
                ins = 0;
            }
            DeltaElement::Insert(n) => ins += n.len(),
        }
    }
    els.push((ins, d.base_len, d.base_len));
    for (ins, a, b) in els {
        if a > p || ins > 0 {
            v.push(Gap {
                a: p,
                b: a,
                ins,
                at: q,
            });
        }
        q += ins + (b - a);
        p = b;
    }
    v
}

fn case(s: &mut Src) -> (Rope, String, Vec<Ed>, RopeDelta) {
    let (r, m) = if s.chance(1, 6) {
        layout(s, 4)
    } else {
        let m = short(s, 24);
        (Rope::from(&m), m)
    };
    let v = edits(s, &m, 5);
    let d = build(&m, &v);
    s.log(|| {
        format!(
            "base {} edits {:?} delta {:?}",
            show(&m),
            v.iter()
                .map(|e| (e.a, e.b, show(&e.ins)))
                .collect::<Vec<_>>(),
            d
        )
    });
    if v.iter().filter(|e| e.b > e.a || !e.ins.is_empty()).count() > 1 {
        s.nontrivial();
    }
    (r, m, v, d)
}

fn txt(r: &Rope) -> String {
    String::from(r)
}

fn effect(s: &mut Src) -> R {
    let (r, m, v, d) = case(s);
    let want = splice(&m, &v);
    let got = d.apply(&r);
    ensure!(
        txt(&got) == want,
        "apply",
        "apply gives {} want {}",
        show(&txt(&got)),
        show(&want)
    );
    ensure!(txt(&r) == m, "apply-mutates", "base changed by apply");
    ensure_eq!(d.new_document_len(), want.len(), "new_document_len");
    ensure_eq!(
        d.inserts_len(),
        v.iter().map(|e| e.ins.len()).sum::<usize>(),
        "inserts_len"
    );
    // summary
    let (iv, n) = d.summary();
    ensure!(
        iv.start() <= iv.end() && iv.end() <= m.len(),
        "summary-range",
        "summary {:?} {}",
        iv,
        n
    );
    ensure_eq!(
        m.len() - (iv.end() - iv.start()) + n,
        want.len(),
        "summary-len",
        "summary {:?} {}",
        iv,
        n
    );
    let back = RopeDelta::simple_edit(
        iv,
        got.subseq(Interval::new(iv.start(), iv.start() + n)),
        m.len(),
    );
    ensure!(
        txt(&back.apply(&r)) == want,
        "summary",
        "summary {:?} {} does not describe the change",
        iv,
        n
    );
    // a summary is not looser than the edits named
    let clean = v.iter().all(|e| e.b > e.a || !e.ins.is_empty());
    if let (Some(f), Some(l), true) = (
        v.iter().find(|e| e.b > e.a || !e.ins.is_empty()),
        v.iter().rev().find(|e| e.b > e.a || !e.ins.is_empty()),
        clean,
    ) {
        ensure!(
            iv.start() >= f.a && iv.end() <= l.b,
            "summary-loose",
            "summary {:?}, edits span {}..{}",
            iv,
            f.a,
            l.b
        );
    }
    // predicates
    let gs = gaps(&d);
    // an edit that replaces nothing by nothing may hide the simple shape, never fake it
    ensure!(
        d.is_identity() == gs.is_empty() || (!clean && !d.is_identity()),
        "is_identity",
        "is_identity {} gaps {}",
        d.is_identity(),
        gs.len()
    );
    if d.is_identity() {
        ensure!(want == m, "is_identity", "identity delta changes text");
    }
    let dels = gs.iter().filter(|g| g.b > g.a).count();
    let inss = gs.iter().filter(|g| g.ins > 0).count();
    let sd = dels == 1 && inss == 0;
    ensure!(
        d.is_simple_delete() == sd || (!clean && !d.is_simple_delete()),
        "is_simple_delete",
        "got {} want {}",
        d.is_simple_delete(),
        sd
    );
    let n_ins_els = d
        .els
        .iter()
        .filter(|e| matches!(e, DeltaElement::Insert(_)))
        .count();
    let want_si = dels == 0 && n_ins_els == 1;
    let got_si = d.as_simple_insert().map(|n| txt(n));
    ensure!(
        got_si.is_some() == want_si || (!clean && got_si.is_none()),
        "as_simple_insert",
        "got {:?} want {}",
        got_si,
        want_si
    );
    if let Some(t) = got_si {
        let g = &gs[0];
        ensure_eq!(
            t,
            want[g.at..g.at + g.ins].to_string(),
            "as_simple_insert text"
        );
    }
    // iterators
    let ins: Vec<_> = d
        .iter_inserts()
        .map(|x| (x.old_offset, x.new_offset, x.len))
        .collect();
    // each reported insert lies in a gap, they tile the inserted text in order
    let mut want_tiles: Vec<(usize, usize)> = vec![];
    let mut q = 0;
    for e in &d.els {
        match e {
            DeltaElement::Copy(a, b) => q += b - a,
            DeltaElement::Insert(n) => {
                want_tiles.push((q, n.len()));
                q += n.len()
            }
        }
    }
    ensure_eq!(
        ins.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(),
        want_tiles,
        "iter_inserts new_offset"
    );
    for (old, new, len) in &ins {
        let g = gs
            .iter()
            .find(|g| g.ins > 0 && g.at <= *new && *new < g.at + g.ins)
            .unwrap();
        ensure!(
            g.a <= *old && *old <= g.b,
            "iter_inserts old_offset",
            "insert reported at old offset {} (new {}, len {}), but the gap is {}..{}",
            old,
            new,
            len,
            g.a,
            g.b
        );
    }
    let del: Vec<_> = d
        .iter_deletions()
        .map(|x| (x.old_offset, x.new_offset, x.len))
        .collect();
    let want_del: Vec<(usize, usize)> = gs
        .iter()
        .filter(|g| g.b > g.a)
        .map(|g| (g.a, g.b - g.a))
        .collect();
    ensure_eq!(
        del.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>(),
        want_del,
        "iter_deletions",
        "delta {:?}",
        d
    );
    for (old, new, _) in &del {
        let g = gs.iter().find(|g| g.a == *old && g.b > g.a).unwrap();
        ensure!(
            g.at <= *new && *new <= g.at + g.ins,
            "iter_deletions new_offset",
            "deletion at {} reported at new offset {}, gap starts at {} with {} inserted",
            old,
            new,
            g.at,
            g.ins
        );
    }
    Ok(())
}

fn mapping(s: &mut Src) -> R {
    let (_r, m, v, d) = case(s);
    let gs = gaps(&d);
    let want = splice(&m, &v);
    let mut t = Transformer::new(&d);
    // pos of every surviving byte
    let mut pos: Vec<Option<usize>> = vec![None; m.len()];
    let mut q = 0;
    for e in &d.els {
        match e {
            DeltaElement::Copy(a, b) => {
                for i in *a..*b {
                    pos[i] = Some(q);
                    q += 1;
                }
            }
            DeltaElement::Insert(n) => q += n.len(),
        }
    }
    let step = (m.len() / 64).max(1);
    let mut last = [0, 0];
    let mut ix = 0;
    while ix <= m.len() {
        let before = t.transform(ix, false);
        let after = t.transform(ix, true);
        ensure!(
            before <= after && after <= want.len(),
            "map-order",
            "offset {}: before {} after {}",
            ix,
            before,
            after
        );
        ensure!(
            before >= last[0] && after >= last[1],
            "map-monotone",
            "offset {} maps to {}/{} after {:?}",
            ix,
            before,
            after,
            last
        );
        last = [before, after];
        if ix < m.len() {
            if let Some(p) = pos[ix] {
                ensure_eq!(after, p, "map-after", "offset {}", ix);
            }
        } else if gs.last().map_or(true, |g| g.b < m.len()) || true {
            ensure_eq!(after, want.len(), "map-end", "offset {}", ix);
        }
        if ix > 0 {
            if let Some(p) = pos[ix - 1] {
                ensure_eq!(before, p + 1, "map-before", "offset {}", ix);
            }
        } else {
            ensure_eq!(before, 0, "map-before", "offset 0");
        }
        if let Some(g) = gs.iter().find(|g| g.a <= ix && ix <= g.b) {
            ensure!(
                g.at <= before && after <= g.at + g.ins,
                "map-gap",
                "offset {} in gap {}..{} maps to {}/{}, gap text is {}..{}",
                ix,
                g.a,
                g.b,
                before,
                after,
                g.at,
                g.at + g.ins
            );
        }
        ix += step;
    }
    for _ in 0..4 {
        let (a, b) = range(s, &m);
        if t.interval_untouched(Interval::new(a, b)) {
            s.label("untouched");
            let na = t.transform(a, true);
            ensure!(
                a == b
                    || (na + b - a <= want.len()
                        && want.as_bytes()[na..na + b - a] == m.as_bytes()[a..b]
                        && pos[a..b]
                            .iter()
                            .enumerate()
                            .all(|(i, p)| *p == Some(na + i))),
                "untouched",
                "interval {}..{} called untouched",
                a,
                b
            );
        }
    }
    Ok(())
}

fn factor(s: &mut Src) -> R {
    let (r, m, v, d) = case(s);
    let want = splice(&m, &v);
    let (ins, del) = d.clone().factor();
    ensure_eq!(del.len(), m.len(), "factor del len");
    let ins_set = ins.inserted_subset();
    let union = ins.apply(&r);
    let us = txt(&union);
    ensure!(
        ins_set.len() == us.len(),
        "inserted_subset-len",
        "{} vs {}",
        ins_set.len(),
        us.len()
    );
    ensure!(
        ins_set.delete_from_string(&us) == m,
        "inserted_subset",
        "deleting inserted_subset does not give the base"
    );
    ensure!(
        txt(&ins_set.delete_from(&union)) == m,
        "inserted_subset",
        "deleting inserted_subset does not give the base"
    );
    let del2 = del.transform_expand(&ins_set);
    ensure!(
        txt(&del2.delete_from(&union)) == want,
        "factor",
        "insert then delete gives {} want {}",
        show(&txt(&del2.delete_from(&union))),
        show(&want)
    );
    // text after delete first
    let surv = del.delete_from_string(&m);
    let gs = gaps(&d);
    let mut x = String::new();
    let mut p = 0;
    for g in &gs {
        x.push_str(&m[p..g.a]);
        p = g.b;
    }
    x.push_str(&m[p..]);
    ensure!(
        surv == x,
        "factor-del",
        "deletions leave {} want {}",
        show(&surv),
        show(&x)
    );
    // synthesize: forwards and inverse
    let tomb = ins_set.complement().delete_from(&union);
    let f = Delta::synthesize(&tomb, &ins_set, &del2);
    ensure!(
        txt(&f.apply(&r)) == want,
        "synthesize",
        "synthesize gives {} want {}",
        show(&txt(&f.apply(&r))),
        show(&want)
    );
    ensure_eq!(f.base_len, m.len(), "synthesize base_len");
    let tomb = del2.complement().delete_from(&union);
    let inv = Delta::synthesize(&tomb, &del2, &ins_set);
    ensure!(
        txt(&inv.apply(&Rope::from(&want))) == m,
        "synthesize-inverse",
        "inverse gives {}",
        show(&txt(&inv.apply(&Rope::from(&want))))
    );
    Ok(())
}

/// synthesize between two arbitrary deletion sets of one union text
fn synth(s: &mut Src) -> R {
    let u = if s.chance(1, 10) {
        layout(s, 3).1
    } else {
        short(s, 30)
    };
    let mk = |s: &mut Src| {
        let mut b = SubsetBuilder::new();
        let mut p = 0;
        let mut bits = vec![false; u.len()];
        for _ in 0..s.range(0, 5) {
            let (x, y) = range(s, &u);
            if x >= p && y > x {
                let c = s.range(1, 2);
                b.add_range(x, y, c);
                for i in x..y {
                    bits[i] = true;
                }
                p = y;
            }
        }
        b.pad_to_len(u.len());
        (b.build(), bits)
    };
    let (f, fb) = mk(s);
    let (t, tb) = mk(s);
    s.log(|| format!("union {} from {:?} to {:?}", show(&u), f, t));
    if !f.is_empty() && !t.is_empty() {
        s.nontrivial();
    }
    let pickb = |bits: &[bool], keep: bool| -> String {
        String::from_utf8(
            u.bytes()
                .zip(bits)
                .filter(|(_, b)| **b != keep)
                .map(|(c, _)| c)
                .collect(),
        )
        .unwrap()
    };
    let from = pickb(&fb, true);
    let to = pickb(&tb, true);
    let tomb = pickb(&fb, false);
    let d: RopeDelta = Delta::synthesize(&Rope::from(&tomb), &f, &t);
    ensure_eq!(d.base_len, from.len(), "synth base_len");
    let got = txt(&d.apply(&Rope::from(&from)));
    ensure!(
        got == to,
        "synth",
        "gives {} want {} delta {:?}",
        show(&got),
        show(&to),
        d
    );
    // characters in both texts are copied, not re-inserted
    let both: usize = fb.iter().zip(&tb).filter(|(a, b)| !**a && !**b).count();
    let copied: usize = d
        .els
        .iter()
        .map(|e| match e {
            DeltaElement::Copy(a, b) => b - a,
            _ => 0,
        })
        .sum();
    ensure_eq!(copied, both, "synth-copies", "delta {:?}", d);
    let mut p = 0;
    for e in &d.els {
        if let DeltaElement::Copy(a, b) = e {
            ensure!(
                *a >= p && a < b && *b <= from.len(),
                "synth-monotone",
                "delta {:?}",
                d
            );
            p = *b;
        }
    }
    Ok(())
}

/// InsertDelta coordinate transforms against a slot model
fn xform(s: &mut Src) -> R {
    // union text of n letters; deletion set over it; base = the survivors
    let n = s.range(0, 16);
    let bits: Vec<bool> = (0..n).map(|_| s.chance(2, 5)).collect();
    let mut b = SubsetBuilder::new();
    for x in &bits {
        b.push_segment(1, if *x { s.range(1, 2) } else { 0 });
    }
    let set = b.build();
    let union: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
    let base: String = union
        .chars()
        .zip(&bits)
        .filter(|(_, d)| !**d)
        .map(|(c, _)| c)
        .collect();
    // insertion at slots of base
    let mut slots: Vec<Option<String>> = vec![None; base.len() + 1];
    let mut tag = 0;
    for sl in slots.iter_mut() {
        if s.chance(1, 3) {
            *sl = Some(
                (0..s.range(1, 3))
                    .map(|_| {
                        tag += 1;
                        (b'0' + (tag % 10) as u8) as char
                    })
                    .collect(),
            );
        }
    }
    let mk = |slots: &[Option<String>], len: usize| {
        let mut b: Builder<RopeInfo> = DeltaBuilder::new(len);
        for (i, sl) in slots.iter().enumerate() {
            if let Some(t) = sl {
                b.replace(Interval::new(i, i), Rope::from(t));
            }
        }
        b.build().factor().0
    };
    let d = mk(&slots, base.len());
    let after = s.bool();
    s.log(|| {
        format!(
            "union {} set {:#?} base {} inserts {:?} after {}",
            union, set, base, slots, after
        )
    });
    if bits.iter().any(|b| *b) && slots.iter().any(|x| x.is_some()) {
        s.nontrivial();
    }
    let x = d.transform_expand(&set, after);
    // model: slot i of base is in the union between survivor i-1 and survivor i;
    // before => directly after survivor i-1; after => directly before survivor i
    let idx: Vec<usize> = (0..n).filter(|i| !bits[*i]).collect();
    let mut us: Vec<Option<String>> = vec![None; n + 1];
    for (i, sl) in slots.iter().enumerate() {
        if let Some(t) = sl {
            let at = if after {
                if i < idx.len() {
                    idx[i]
                } else {
                    n
                }
            } else if i == 0 {
                0
            } else {
                idx[i - 1] + 1
            };
            us[at] = Some(us[at].clone().unwrap_or_default() + t);
        }
    }
    let render = |slots: &[Option<String>], t: &str| -> String {
        let mut o = String::new();
        for (i, sl) in slots.iter().enumerate() {
            if let Some(t) = sl {
                o.push_str(t);
            }
            if let Some(c) = t[i.min(t.len())..].chars().next() {
                o.push(c);
            }
        }
        o
    };
    let want = render(&us, &union);
    let got = txt(&x.apply(&Rope::from(&union)));
    ensure_eq!(got, want, "transform_expand", "after={}", after);
    ensure_eq!(x.base_len, n, "transform_expand base_len");
    // shrinking back gives the same insertions on the survivors
    let back = x.transform_shrink(&set);
    ensure_eq!(
        txt(&back.apply(&Rope::from(&base))),
        render(&slots, &base),
        "transform_shrink back"
    );
    // shrink of arbitrary union insertions
    let mut us: Vec<Option<String>> = vec![None; n + 1];
    for sl in us.iter_mut() {
        if s.chance(1, 4) {
            *sl = Some("+".repeat(s.range(1, 2)) + &s.range(0, 9).to_string());
        }
    }
    let d = mk(&us, n);
    let got = txt(&d.transform_shrink(&set).apply(&Rope::from(&base)));
    let mut want = String::new();
    for i in 0..=n {
        if let Some(t) = &us[i] {
            want.push_str(t);
        }
        if i < n && !bits[i] {
            want.push(union.as_bytes()[i] as char);
        }
    }
    ensure_eq!(got, want, "transform_shrink", "inserts {:?}", us);
    let _ = CountMatcher::All;
    Ok(())
}

fn json(s: &mut Src) -> R {
    let (r, m, v, d) = case(s);
    let want = splice(&m, &v);
    let j = serde_json::to_value(&d).unwrap();
    // documented shape
    let els: Vec<serde_json::Value> = d
        .els
        .iter()
        .map(|e| match e {
            DeltaElement::Copy(a, b) => serde_json::json!({ "copy": [a, b] }),
            DeltaElement::Insert(n) => serde_json::json!({ "insert": txt(n) }),
        })
        .collect();
    ensure_eq!(
        j,
        serde_json::json!({"els": els, "base_len": m.len()}),
        "json shape"
    );
    let st = serde_json::to_string(&d).unwrap();
    let back: RopeDelta = match serde_json::from_str(&st) {
        Ok(x) => x,
        Err(e) => return pbt::fail("json parse", format!("{} on {}", e, st)),
    };
    ensure!(txt(&back.apply(&r)) == want, "json effect", "{}", st);
    ensure_eq!(back.els.len(), d.els.len(), "json els");
    ensure_eq!(back.base_len, d.base_len, "json base_len");
    let back: RopeDelta = match serde_json::from_value(j.clone()) {
        Ok(x) => x,
        Err(e) => return pbt::fail("json value parse", format!("{} on {}", e, st)),
    };
    ensure!(txt(&back.apply(&r)) == want, "json effect", "{}", st);
    ensure_eq!(serde_json::to_value(&back).unwrap(), j, "json stable");
    // ropes
    let rj = serde_json::to_string(&r).unwrap();
    ensure!(
        rj == serde_json::to_string(&m).unwrap(),
        "rope json",
        "{}",
        rj
    );
    let rb: Rope = serde_json::from_str(&rj).unwrap();
    ensure!(txt(&rb) == m, "rope json", "{}", rj);
    // deletion sets survive too
    let (_, del) = d.factor();
    let dj = serde_json::to_string(&del).unwrap();
    let db: xi_rope::multiset::Subset = serde_json::from_str(&dj).unwrap();
    ensure!(db == del, "subset json", "{}", dj);
    Ok(())
}

pub fn check() -> Check {
    Check::new(
        "R03",
        "a delta with at least two effective edits (or, for the set arms, both sets non-empty)",
    )
    .arm("effect", 120_000, 2_000_000, effect)
    .arm("mapping", 60_000, 1_000_000, mapping)
    .arm("factor", 60_000, 1_000_000, factor)
    .arm("synth", 60_000, 1_000_000, synth)
    .arm("xform", 80_000, 1_500_000, xform)
    .arm("json", 30_000, 500_000, json)
}
