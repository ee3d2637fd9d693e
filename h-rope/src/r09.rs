use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_rope::delta::{Builder, Transformer};
use xi_rope::spans::{Spans, SpansBuilder};
use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta, RopeInfo};

type V = Vec<Option<u32>>; // annotation per unit

fn gen(s: &mut Src, len: usize, tag: &mut u32) -> (Spans<u32>, Vec<(usize, usize, u32)>) {
    let mut v = vec![];
    let style = s.below(4);
    let mut p = 0;
    let mut r = s.bulk_rng();
    let cap = match style {
        0 => s.range(0, 4),
        1 => s.range(60, 68),
        2 => s.range(120, 200),
        _ => 2000,
    };
    let unit = (len / (cap + 1)).max(1);
    while v.len() < cap {
        let gap = match r.next() % 3 {
            0 => 0,
            _ => (r.next() as usize) % (unit + 1),
        };
        let l = 1 + (r.next() as usize) % (unit.max(2));
        let a = p + gap;
        let b = a + l;
        if b > len {
            break;
        }
        *tag += 1;
        v.push((a, b, *tag));
        p = b;
    }
    (build(len, &v), v)
}
fn build(len: usize, v: &[(usize, usize, u32)]) -> Spans<u32> {
    let mut b = SpansBuilder::new(len);
    for (x, y, t) in v {
        b.add_span(Interval::new(*x, *y), *t);
    }
    b.build()
}
fn flat(len: usize, v: &[(usize, usize, u32)]) -> V {
    let mut o = vec![None; len];
    for (x, y, t) in v {
        for i in *x..*y {
            o[i] = Some(*t);
        }
    }
    o
}
fn read(sp: &Spans<u32>) -> Vec<(usize, usize, u32)> {
    sp.iter()
        .map(|(iv, d)| (iv.start(), iv.end(), *d))
        .collect()
}
fn wellformed(sp: &Spans<u32>, len: usize, what: &'static str) -> R {
    ensure_eq!(sp.len(), len, "length", "{}", what);
    let mut p = 0;
    for (a, b, _) in read(sp) {
        ensure!(
            a >= p && a < b && b <= len,
            "malformed",
            "{}: interval {}..{} after {} in length {}",
            what,
            a,
            b,
            p,
            len
        );
        p = b;
    }
    Ok(())
}
/// first differing unit of the annotation maps
fn cmp(got: &V, want: &V, what: &'static str) -> R {
    ensure_eq!(got.len(), want.len(), what, "length");
    for i in 0..got.len() {
        ensure!(
            got[i] == want[i],
            what,
            "unit {}: got {:?} want {:?} (around: got {:?} want {:?})",
            i,
            got[i],
            want[i],
            &got[i.saturating_sub(3)..(i + 4).min(got.len())],
            &want[i.saturating_sub(3)..(i + 4).min(got.len())]
        );
    }
    Ok(())
}

fn delta(s: &mut Src, len: usize) -> (RopeDelta, Vec<(usize, usize, usize)>) {
    let n = s.range(0, 3);
    let mut cuts: Vec<usize> = (0..2 * n)
        .map(|_| match s.weighted(&[6, 1, 1]) {
            0 => s.range(0, len),
            1 => 0,
            _ => len,
        })
        .collect();
    cuts.sort();
    let mut b: Builder<RopeInfo> = DeltaBuilder::new(len);
    let mut v = vec![];
    for i in 0..n {
        let (a, mut e) = (cuts[2 * i], cuts[2 * i + 1]);
        if s.chance(1, 3) {
            e = a;
        }
        let k = if s.chance(1, 4) { 0 } else { s.range(1, 5) };
        if k == 0 {
            b.delete(Interval::new(a, e));
        } else {
            b.replace(Interval::new(a, e), Rope::from("x".repeat(k)));
        }
        v.push((a, e, k));
    }
    (b.build(), v)
}

fn history(s: &mut Src) -> R {
    let mut len = match s.below(3) {
        0 => s.range(0, 12),
        1 => s.range(0, 300),
        _ => s.range(300, 3000),
    };
    let mut tag = 0;
    let (mut sp, v) = gen(s, len, &mut tag);
    s.log(|| {
        format!(
            "length {} intervals {}",
            len,
            if v.len() < 20 {
                format!("{:?}", v)
            } else {
                format!("{}", v.len())
            }
        )
    });
    wellformed(&sp, len, "built")?;
    ensure!(
        read(&sp) == v,
        "build",
        "built from {:?} reads {:?}",
        &v[..v.len().min(80)],
        &read(&sp)[..read(&sp).len().min(80)]
    );
    let mut m = flat(len, &v);
    if v.len() > 1 {
        s.nontrivial();
    }
    if v.len() > 64 {
        s.label("several-leaves");
    }
    let snapshot = (sp.clone(), m.clone());
    for _ in 0..s.range(1, 8) {
        match s.below(5) {
            0 | 1 => {
                let (d, es) = delta(s, len);
                s.log(|| format!("apply_shape {:?}", es));
                sp.apply_shape(&d);
                let mut o = vec![];
                let mut p = 0;
                for (a, e, k) in es {
                    o.extend_from_slice(&m[p..a]);
                    o.extend(vec![None; k]);
                    p = e;
                }
                o.extend_from_slice(&m[p..]);
                m = o;
                len = m.len();
            }
            2 => {
                let (a, b) = (s.range(0, len), s.range(0, len));
                let (a, b) = (a.min(b), a.max(b));
                let l = if s.bool() { b - a } else { s.range(0, 100) };
                let (new, nv) = gen(s, l, &mut tag);
                s.log(|| {
                    format!(
                        "replace {}..{} by length {} intervals {:?}",
                        a,
                        b,
                        l,
                        &nv[..nv.len().min(10)]
                    )
                });
                sp.edit(Interval::new(a, b), new);
                m.splice(a..b, flat(l, &nv));
                len = m.len();
            }
            3 => {
                let (a, b) = (s.range(0, len), s.range(0, len));
                let (a, b) = (a.min(b), a.max(b));
                s.log(|| format!("clear {}..{}", a, b));
                sp.edit(Interval::new(a, b), SpansBuilder::new(b - a).build());
                for x in &mut m[a..b] {
                    *x = None;
                }
            }
            _ => {
                // discard from a range onwards
                let (a, b) = (s.range(0, len), s.range(0, len));
                let (a, b) = (a.min(b), a.max(b));
                if s.chance(1, 2) {
                    s.log(|| format!("delete_after {}..{}", a, b));
                    let before = read(&sp);
                    sp.delete_after(Interval::new(a, b));
                    let keep: Vec<_> = before.iter().filter(|x| x.1 <= a).cloned().collect();
                    ensure!(
                        read(&sp) == keep,
                        "delete_after",
                        "after {}..{} of {:?}: {:?}",
                        a,
                        b,
                        &before[..before.len().min(20)],
                        &read(&sp)[..read(&sp).len().min(20)]
                    );
                    m = flat(len, &keep);
                } else {
                    let sub = sp.subseq(Interval::new(a, b));
                    wellformed(&sub, b - a, "slice")?;
                    cmp(&flat(b - a, &read(&sub)), &m[a..b].to_vec(), "slice")?;
                }
            }
        }
        wellformed(&sp, len, "after edit")?;
        cmp(&flat(len, &read(&sp)), &m, "edited")?;
    }
    cmp(
        &flat(snapshot.1.len(), &read(&snapshot.0)),
        &snapshot.1,
        "snapshot",
    )?;
    Ok(())
}

fn transform(s: &mut Src) -> R {
    let total = if s.bool() {
        s.range(0, 16)
    } else {
        s.range(0, 600)
    };
    let (a, b) = (s.range(0, total), s.range(0, total));
    let (a, b) = (a.min(b), a.max(b));
    let mut tag = 0;
    let (sp, v) = gen(s, b - a, &mut tag);
    let (d, es) = delta(s, total);
    s.log(|| {
        format!(
            "text {} range {}..{} intervals {:?} edits {:?}",
            total,
            a,
            b,
            &v[..v.len().min(20)],
            es
        )
    });
    if !v.is_empty() && es.iter().any(|e| e.1 > e.0 || e.2 > 0) {
        s.nontrivial();
    }
    let mut t = Transformer::new(&d);
    let ns = t.transform(a, false);
    let ne = t.transform(b, true);
    let got = sp.transform(a, b, &mut t);
    wellformed(&got, ne - ns, "transform")?;
    let g = flat(ne - ns, &read(&got));
    // where each old unit went, and the text of the new document by origin
    let mut origin: Vec<Option<usize>> = vec![]; // new unit -> old unit
    let mut p = 0;
    for (x, y, k) in &es {
        origin.extend((p..*x).map(Some));
        origin.extend(vec![None; *k]);
        p = *y;
    }
    origin.extend((p..total).map(Some));
    let m = flat(b - a, &v);
    let ann = |o: usize| if o >= a && o < b { m[o - a] } else { None };
    for (n, o) in origin.iter().enumerate() {
        let have = if n >= ns && n < ne { g[n - ns] } else { None };
        match o {
            Some(o) => ensure!(
                have == ann(*o),
                "transform",
                "character {} (now {}) carried {:?}, now {:?}",
                o,
                n,
                ann(*o),
                have
            ),
            None => {
                // inserted: strictly inside an interval if the nearest survivors on both sides carry it
                let l = origin[..n].iter().rev().find_map(|x| *x).and_then(ann);
                let r = origin[n..].iter().find_map(|x| *x).and_then(ann);
                if l.is_some() && l == r {
                    ensure!(
                        have == l,
                        "transform-inside",
                        "character {} inserted inside interval {:?} carries {:?}",
                        n,
                        l,
                        have
                    );
                } else {
                    ensure!(
                        have.is_none()
                            || have == r
                            || have == l
                            || v.iter().any(|x| Some(x.2) == have),
                        "transform-outside",
                        "inserted character {} carries {:?}",
                        n,
                        have
                    );
                }
            }
        }
    }
    // order is kept
    let tags: Vec<u32> = read(&got).iter().map(|x| x.2).collect();
    ensure!(
        tags.windows(2).all(|w| w[0] < w[1]),
        "transform-order",
        "{:?}",
        tags
    );
    Ok(())
}

fn merge(s: &mut Src) -> R {
    let len = if s.bool() {
        s.range(0, 14)
    } else {
        s.range(0, 800)
    };
    let mut tag = 0;
    let (x, xv) = gen(s, len, &mut tag);
    tag += 100_000;
    let (y, yv) = gen(s, len, &mut tag);
    s.log(|| {
        format!(
            "length {} red {:?} blue {:?}",
            len,
            &xv[..xv.len().min(20)],
            &yv[..yv.len().min(20)]
        )
    });
    let (fx, fy) = (flat(len, &xv), flat(len, &yv));
    if fx.iter().zip(&fy).any(|(a, b)| a.is_some() && b.is_some()) {
        s.nontrivial();
    }
    let got: Spans<(u32, Option<u32>)> = x.merge(&y, |a, b| (*a, b.cloned()));
    let mut p = 0;
    let mut map: Vec<Option<(Option<u32>, Option<u32>)>> = vec![None; len];
    let mut pieces = 0;
    ensure_eq!(got.len(), len, "merge length");
    for (iv, (a, b)) in got.iter() {
        ensure!(
            iv.start() >= p && iv.start() < iv.end() && iv.end() <= len,
            "merge malformed",
            "{:?} after {}",
            iv,
            p
        );
        p = iv.end();
        pieces += 1;
        let pair = match b {
            Some(b) => {
                ensure!(*a < 100_000 && *b > 100_000, "merge sides", "{} {}", a, b);
                (Some(*a), Some(*b))
            }
            None => {
                if *a > 100_000 {
                    (None, Some(*a))
                } else {
                    (Some(*a), None)
                }
            }
        };
        for i in iv.start()..iv.end() {
            map[i] = Some(pair);
        }
    }
    for i in 0..len {
        let want = if fx[i].is_none() && fy[i].is_none() {
            None
        } else {
            Some((fx[i], fy[i]))
        };
        ensure!(
            map[i] == want,
            "merge",
            "unit {}: got {:?} want {:?}",
            i,
            map[i],
            want
        );
    }
    // no needless splitting: one piece per maximal run of one pair
    let mut want = 0;
    for i in 0..len {
        let cur = (fx[i], fy[i]);
        if cur != (None, None) && (i == 0 || (fx[i - 1], fy[i - 1]) != cur) {
            want += 1;
        }
    }
    ensure_eq!(pieces, want, "merge pieces");
    Ok(())
}

pub fn check() -> Check {
    Check::new(
        "R09",
        "more than one interval (history), an effective edit (transform), an overlap (merge)",
    )
    .arm("history", 20_000, 400_000, history)
    .arm("transform", 40_000, 800_000, transform)
    .arm("merge", 20_000, 400_000, merge)
}
