use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_rope::breaks::{BreakBuilder, Breaks, BreaksBaseMetric, BreaksMetric};
use xi_rope::tree::TreeBuilder;
use xi_rope::{Cursor, Interval};

#[derive(Clone)]
struct M {
    len: usize,
    v: Vec<usize>, // increasing, in 1..=len
}

fn gen(s: &mut Src) -> (Breaks, M) {
    let mut b = BreakBuilder::new();
    let mut m = M { len: 0, v: vec![] };
    let n = match s.below(4) {
        0 => s.range(0, 5),
        1 => s.range(60, 68),
        2 => s.range(0, 300),
        _ => s.range(0, 20),
    };
    let maxw = *s.pick(&[1usize, 3, 20]);
    let mut r = s.bulk_rng();
    for _ in 0..n {
        let k = 1 + (r.next() as usize) % maxw;
        if r.next() % 5 == 0 {
            b.add_no_break(k);
            m.len += k;
        } else {
            b.add_break(k);
            m.len += k;
            m.v.push(m.len);
        }
    }
    if s.bool() {
        let k = s.range(0, 9);
        b.add_no_break(k);
        m.len += k;
    }
    (b.build(), m)
}

fn slice(m: &M, a: usize, b: usize) -> M {
    M {
        len: b - a,
        v: m.v
            .iter()
            .filter(|x| **x > a && **x <= b)
            .map(|x| x - a)
            .collect(),
    }
}
fn splice(m: &mut M, a: usize, b: usize, n: &M) {
    let mut v: Vec<usize> = m.v.iter().filter(|x| **x <= a).cloned().collect();
    v.extend(n.v.iter().map(|x| x + a));
    v.extend(m.v.iter().filter(|x| **x > b).map(|x| x - b + a + n.len));
    m.v = v;
    m.len = m.len - (b - a) + n.len;
}

fn same(s: &mut Src, n: &Breaks, m: &M) -> R {
    ensure_eq!(n.len(), m.len, "length");
    ensure_eq!(n.measure::<BreaksMetric>(), m.v.len(), "number of breaks");
    let mut c = Cursor::new(n, 0);
    let all: Vec<usize> = c.iter::<BreaksMetric>().collect();
    ensure!(
        all == m.v,
        "iteration",
        "iterates {:?} want {:?}",
        &all[..all.len().min(40)],
        &m.v[..m.v.len().min(40)]
    );
    for _ in 0..4 {
        let o = if !m.v.is_empty() && s.chance(2, 3) {
            let x = *s.pick(&m.v);
            (x + s.range(0, 2)).saturating_sub(1).min(m.len)
        } else {
            s.range(0, m.len)
        };
        ensure_eq!(
            n.count::<BreaksMetric>(o),
            m.v.iter().filter(|x| **x <= o).count(),
            "line of offset",
            "offset {}",
            o
        );
        if !m.v.is_empty() {
            let k = s.range(1, m.v.len());
            ensure_eq!(
                n.count_base_units::<BreaksMetric>(k),
                m.v[k - 1],
                "nth break",
                "{}",
                k
            );
        }
        ensure_eq!(n.count_base_units::<BreaksMetric>(0), 0, "nth break", "0");
        let mut c = Cursor::new(n, o);
        ensure_eq!(
            c.is_boundary::<BreaksMetric>(),
            m.v.contains(&o),
            "is_boundary",
            "{}",
            o
        );
        ensure_eq!(
            Cursor::new(n, o).is_boundary::<BreaksBaseMetric>(),
            m.v.contains(&o),
            "base is_boundary",
            "{}",
            o
        );
        ensure_eq!(
            Cursor::new(n, o).next::<BreaksMetric>(),
            m.v.iter().cloned().find(|x| *x > o),
            "next",
            "from {}",
            o
        );
        ensure_eq!(
            Cursor::new(n, o).prev::<BreaksMetric>(),
            m.v.iter().rev().cloned().find(|x| *x < o),
            "prev",
            "from {}",
            o
        );
        ensure_eq!(
            Cursor::new(n, o).at_or_next::<BreaksMetric>(),
            m.v.iter().cloned().find(|x| *x >= o),
            "at_or_next",
            "from {}",
            o
        );
        ensure_eq!(
            Cursor::new(n, o).at_or_prev::<BreaksMetric>(),
            m.v.iter().rev().cloned().find(|x| *x <= o),
            "at_or_prev",
            "from {}",
            o
        );
        // one cursor in both directions
        let mut c = Cursor::new(n, o);
        let mut p = o;
        for _ in 0..s.range(0, 12) {
            let fwd = s.bool();
            let (got, want) = if fwd {
                (
                    c.next::<BreaksMetric>(),
                    m.v.iter().cloned().find(|x| *x > p),
                )
            } else {
                (
                    c.prev::<BreaksMetric>(),
                    m.v.iter().rev().cloned().find(|x| *x < p),
                )
            };
            ensure_eq!(got, want, "cursor walk", "from {} forward {}", p, fwd);
            match want {
                Some(x) => p = x,
                None => break,
            }
        }
    }
    Ok(())
}

fn history(s: &mut Src) -> R {
    let (mut n, mut m) = gen(s);
    s.log(|| format!("length {} breaks {:?}", m.len, &m.v[..m.v.len().min(30)]));
    same(s, &n, &m)?;
    let snap = (n.clone(), m.clone());
    let mut big = m.v.len() > 64;
    for _ in 0..s.range(1, 7) {
        let (a, b) = (s.range(0, m.len), s.range(0, m.len));
        let pickb = |s: &mut Src, x: usize| {
            if m.v.is_empty() || s.bool() {
                x
            } else {
                *s.pick(&m.v)
            }
        };
        let (a, b) = (pickb(s, a), pickb(s, b));
        let (a, b) = (a.min(b), a.max(b));
        match s.below(6) {
            0 => {
                let sub = n.subseq(Interval::new(a, b));
                s.log(|| format!("slice {}..{}", a, b));
                same(s, &sub, &slice(&m, a, b))?;
                if s.bool() {
                    n = sub;
                    m = slice(&m, a, b);
                }
            }
            1 => {
                let (o, om) = gen(s);
                s.log(|| format!("append length {} breaks {}", om.len, om.v.len()));
                n = xi_rope::tree::Node::concat(n, o);
                let at = m.len;
                splice(&mut m, at, at, &om);
            }
            2 => {
                let (o, om) = gen(s);
                s.log(|| format!("prepend length {} breaks {}", om.len, om.v.len()));
                let mut b = TreeBuilder::new();
                b.push(o);
                b.push(n);
                n = b.build();
                splice(&mut m, 0, 0, &om);
            }
            3 => {
                let l = s.range(0, 9);
                s.log(|| format!("edit {}..{} by length {} without breaks", a, b, l));
                n.edit(Interval::new(a, b), Breaks::new_no_break(l));
                splice(&mut m, a, b, &M { len: l, v: vec![] });
            }
            _ => {
                let (o, om) = gen(s);
                s.log(|| {
                    format!(
                        "edit {}..{} by length {} breaks {:?}",
                        a,
                        b,
                        om.len,
                        &om.v[..om.v.len().min(20)]
                    )
                });
                n.edit(Interval::new(a, b), o);
                splice(&mut m, a, b, &om);
            }
        }
        big |= m.v.len() > 64;
        same(s, &n, &m)?;
    }
    ensure!(
        Cursor::new(&snap.0, 0)
            .iter::<BreaksMetric>()
            .eq(snap.1.v.iter().cloned()),
        "snapshot",
        "an edit changed an earlier copy"
    );
    if big {
        s.nontrivial();
    }
    Ok(())
}

pub fn check() -> Check {
    Check::new(
        "R10",
        "a history whose set has more breaks than one leaf holds at some point",
    )
    .arm("history", 30_000, 600_000, history)
}
