//! The generic tree instantiated with very small leaves, so that a few hundred
//! elements already give many levels.  Model: a Vec.
use pbt::{ensure, ensure_eq, Src, R};
use xi_rope::tree::{Cursor, DefaultMetric, Leaf, Metric, Node, NodeInfo, TreeBuilder};
use xi_rope::Interval;

const MIN: usize = 2;
const MAX: usize = 4;

#[derive(Clone, Default, Debug)]
pub struct Tl(pub Vec<u8>);
#[derive(Clone, Debug)]
pub struct Ti(usize);

impl Leaf for Tl {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_ok_child(&self) -> bool {
        self.0.len() >= MIN
    }
    fn push_maybe_split(&mut self, o: &Tl, iv: Interval) -> Option<Tl> {
        self.0.extend_from_slice(&o.0[iv.start()..iv.end()]);
        if self.0.len() <= MAX {
            None
        } else {
            let sp = MAX.min(self.0.len() - MIN);
            Some(Tl(self.0.split_off(sp)))
        }
    }
}
impl NodeInfo for Ti {
    type L = Tl;
    fn accumulate(&mut self, o: &Self) {
        self.0 += o.0
    }
    fn compute_info(l: &Tl) -> Ti {
        Ti(l.0.iter().filter(|x| **x == 1).count())
    }
}
/// base units
#[derive(Clone, Copy)]
pub struct Bm;
/// elements equal to 1, trailing boundary
#[derive(Clone, Copy)]
pub struct Om;
impl DefaultMetric for Ti {
    type DefaultMetric = Bm;
}
impl Metric<Ti> for Bm {
    fn measure(_: &Ti, len: usize) -> usize {
        len
    }
    fn to_base_units(_: &Tl, m: usize) -> usize {
        m
    }
    fn from_base_units(_: &Tl, m: usize) -> usize {
        m
    }
    fn is_boundary(_: &Tl, _: usize) -> bool {
        true
    }
    fn prev(_: &Tl, o: usize) -> Option<usize> {
        if o == 0 {
            None
        } else {
            Some(o - 1)
        }
    }
    fn next(l: &Tl, o: usize) -> Option<usize> {
        if o >= l.0.len() {
            None
        } else {
            Some(o + 1)
        }
    }
    fn can_fragment() -> bool {
        false
    }
}
impl Metric<Ti> for Om {
    fn measure(i: &Ti, _: usize) -> usize {
        i.0
    }
    fn to_base_units(l: &Tl, m: usize) -> usize {
        if m == 0 {
            return 0;
        }
        l.0.iter()
            .enumerate()
            .filter(|x| *x.1 == 1)
            .nth(m - 1)
            .expect("to_base_units")
            .0
            + 1
    }
    fn from_base_units(l: &Tl, m: usize) -> usize {
        l.0[..m].iter().filter(|x| **x == 1).count()
    }
    fn is_boundary(l: &Tl, o: usize) -> bool {
        o > 0 && l.0[o - 1] == 1
    }
    fn prev(l: &Tl, o: usize) -> Option<usize> {
        (1..o).rev().find(|x| l.0[*x - 1] == 1)
    }
    fn next(l: &Tl, o: usize) -> Option<usize> {
        (o + 1..=l.0.len()).find(|x| l.0[*x - 1] == 1)
    }
    fn can_fragment() -> bool {
        true
    }
}
pub type Tn = Node<Ti>;

fn elems(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.skew(max);
    let dense = s.below(3);
    let mut r = s.bulk_rng();
    (0..n)
        .map(|_| match dense {
            0 => (r.next() % 2) as u8,
            1 => (r.next() % 40 == 0) as u8,
            _ => (2 + r.next() % 200) as u8,
        })
        .collect()
}
fn from_elems(s: &mut Src, v: &[u8]) -> Tn {
    let mut b = TreeBuilder::new();
    let mut i = 0;
    let style = s.below(3);
    let mut r = s.bulk_rng();
    while i < v.len() {
        let k = match style {
            0 => MAX,
            1 => MIN,
            _ => 1 + (r.next() % MAX as u64) as usize,
        };
        let e = (i + k).min(v.len());
        if style == 2 && r.next() % 4 == 0 {
            b.push_leaf_slice(&Tl(v[i..e].to_vec()), Interval::new(0, e - i));
        } else {
            b.push_leaf(Tl(v[i..e].to_vec()));
        }
        i = e;
    }
    b.build()
}
pub fn contents(n: &Tn) -> Vec<u8> {
    let mut v = Vec::new();
    let mut c = Cursor::new(n, 0);
    if let Some((l, _)) = c.get_leaf() {
        v.extend_from_slice(&l.0);
    }
    while let Some((l, _)) = c.next_leaf() {
        v.extend_from_slice(&l.0);
    }
    v
}
fn rev_contents(n: &Tn) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let mut c = Cursor::new(n, n.len());
    let mut parts = Vec::new();
    if let Some((l, _)) = c.get_leaf() {
        parts.push(l.0.clone());
    }
    while let Some((l, o)) = c.prev_leaf() {
        assert_eq!(o, 0, "prev_leaf does not go to the start of the leaf");
        parts.push(l.0.clone());
    }
    for p in parts.iter().rev() {
        v.extend_from_slice(p);
    }
    v
}

fn gen(s: &mut Src) -> (Tn, Vec<u8>) {
    let max = if s.chance(1, 12) { 6000 } else { 300 };
    let mut m = elems(s, max);
    let mut n = from_elems(s, &m);
    for _ in 0..s.range(0, 8) {
        let a = s.range(0, m.len());
        let b = if s.bool() {
            (a + s.range(0, 5)).min(m.len())
        } else {
            s.range(a, m.len())
        };
        match s.below(4) {
            0 => {
                let v = elems(s, 60);
                let x = from_elems(s, &v);
                n.edit(a..b, x);
                m.splice(a..b, v);
            }
            1 => {
                n = n.subseq(a..b);
                m = m[a..b].to_vec();
            }
            2 => {
                let v = elems(s, 200);
                let x = from_elems(s, &v);
                if s.bool() {
                    n = Node::concat(n, x);
                    m.extend(v);
                } else {
                    n = Node::concat(x, n);
                    m = [v, m].concat();
                }
            }
            _ => {
                let sub = n.subseq(a..b);
                let mut bd = TreeBuilder::new();
                bd.push(n.clone());
                bd.push(sub);
                n = bd.build();
                let t = m[a..b].to_vec();
                m.extend(t);
            }
        }
    }
    (n, m)
}

pub fn history(s: &mut Src) -> R {
    let (n, m) = gen(s);
    let snap = n.clone();
    let keep = m.clone();
    let mut n = n;
    let mut m = m;
    s.log(|| format!("start {} elements", m.len()));
    for _ in 0..s.range(1, 12) {
        let a = s.range(0, m.len());
        let b = if s.bool() {
            (a + s.range(0, 5)).min(m.len())
        } else {
            s.range(a, m.len())
        };
        let v = elems(s, 30);
        let x = from_elems(s, &v);
        s.log(|| format!("edit {}..{} with {} elements", a, b, v.len()));
        n.edit(a..b, x);
        m.splice(a..b, v);
        ensure_eq!(n.len(), m.len(), "length");
        ensure_eq!(contents(&n), m, "content");
        ensure_eq!(rev_contents(&n), m, "reverse content");
        ensure_eq!(
            n.measure::<Om>(),
            m.iter().filter(|x| **x == 1).count(),
            "measure"
        );
    }
    ensure_eq!(contents(&snap), keep, "snapshot");
    if m.len() > 40 {
        s.nontrivial();
    }
    Ok(())
}

fn next1(m: &[u8], o: usize) -> Option<usize> {
    (o + 1..=m.len()).find(|x| m[*x - 1] == 1)
}
fn prev1(m: &[u8], o: usize) -> Option<usize> {
    (1..o).rev().find(|x| m[*x - 1] == 1)
}

pub fn cursor(s: &mut Src) -> R {
    let (n, m) = gen(s);
    s.log(|| format!("{} elements: {:?}", m.len(), &m[..m.len().min(80)]));
    ensure_eq!(n.len(), m.len(), "length");
    let ones = m.iter().filter(|x| **x == 1).count();
    ensure_eq!(n.measure::<Om>(), ones, "measure");
    if m.len() > 40 {
        s.nontrivial();
    }
    let mut pos = s.range(0, m.len());
    let mut c = Cursor::new(&n, pos);
    for _ in 0..s.range(1, 40) {
        let mut valid = true;
        let isb = pos > 0 && m[pos - 1] == 1;
        let op = s.below(13);
        s.log(|| format!("at {} op {}", pos, op));
        match op {
            0 => {
                pos = s.range(0, m.len());
                c.set(pos);
            }
            1 => {
                let w = next1(&m, pos);
                ensure_eq!(c.next::<Om>(), w, "tiny next", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            2 => {
                let w = prev1(&m, pos);
                ensure_eq!(c.prev::<Om>(), w, "tiny prev", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            3 => {
                ensure_eq!(c.is_boundary::<Om>(), isb, "tiny is_boundary", "at {}", pos);
            }
            4 => {
                let w = if isb { Some(pos) } else { next1(&m, pos) };
                ensure_eq!(c.at_or_next::<Om>(), w, "tiny at_or_next", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            5 => {
                let w = if isb { Some(pos) } else { prev1(&m, pos) };
                ensure_eq!(c.at_or_prev::<Om>(), w, "tiny at_or_prev", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            6 => {
                let w = if pos < m.len() { Some(pos + 1) } else { None };
                ensure_eq!(c.next::<Bm>(), w, "tiny next base", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            7 => {
                let w = if pos > 0 { Some(pos - 1) } else { None };
                ensure_eq!(c.prev::<Bm>(), w, "tiny prev base", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            8 | 9 => {
                let (l, o) = c.get_leaf().map(|(l, o)| (l.0.len(), o)).unwrap();
                let w = if pos - o + l < m.len() {
                    Some(pos - o + l)
                } else {
                    None
                };
                let got = c.next_leaf().map(|(_, o)| o);
                ensure_eq!(got, w.map(|_| 0), "tiny next_leaf", "from {}", pos);
                pos = w.unwrap_or_else(|| {
                    valid = false;
                    pos
                });
            }
            10 | 11 => {
                let (l, o) = c.get_leaf().map(|(l, o)| (l.0.clone(), o)).unwrap();
                let st = pos - o;
                match c.prev_leaf().map(|(p, o)| (p.0.clone(), o)) {
                    Some((p, po)) => {
                        ensure!(
                            st > 0 && po == 0,
                            "tiny prev_leaf",
                            "from {} (leaf at {}): offset {}",
                            pos,
                            st,
                            po
                        );
                        ensure!(
                            m[..st].ends_with(&p) && m[st..].starts_with(&l),
                            "tiny prev_leaf",
                            "wrong leaf before {}",
                            st
                        );
                        pos = st - p.len();
                    }
                    None => {
                        ensure_eq!(st, 0, "tiny prev_leaf", "from {}", pos);
                        valid = false;
                    }
                }
            }
            _ => {
                let k = s.range(0, ones);
                let w = if k == 0 {
                    0
                } else {
                    m.iter()
                        .enumerate()
                        .filter(|x| *x.1 == 1)
                        .nth(k - 1)
                        .unwrap()
                        .0
                        + 1
                };
                ensure_eq!(
                    n.count_base_units::<Om>(k),
                    w,
                    "tiny count_base_units",
                    "{}",
                    k
                );
                let o = s.range(0, m.len());
                ensure_eq!(
                    n.count::<Om>(o),
                    m[..o].iter().filter(|x| **x == 1).count(),
                    "tiny count",
                    "{}",
                    o
                );
            }
        }
        if !valid {
            pos = s.range(0, m.len());
            c.set(pos);
        }
        ensure_eq!(c.pos(), pos, "tiny pos");
        match c.get_leaf() {
            Some((l, o)) => ensure!(
                pos >= o && m[pos - o..].starts_with(&l.0) && (o < l.0.len() || pos == m.len()),
                "tiny leaf",
                "wrong leaf at {}",
                pos
            ),
            None => return pbt::fail("tiny leaf", "cursor lost its leaf"),
        }
    }
    Ok(())
}

/// Trees with more levels than the cursor caches: every leaf in both directions, and
/// single steps over every leaf boundary.
pub fn deep(s: &mut Src) -> R {
    let n = s.range(2000, 40_000);
    let mut r = s.bulk_rng();
    let dense = 1 + s.below(60);
    let mut m: Vec<u8> = (0..n)
        .map(|_| {
            if r.next() % dense == 0 {
                1
            } else {
                (2 + r.next() % 200) as u8
            }
        })
        .collect();
    let mut t = from_elems(s, &m);
    for _ in 0..s.range(0, 3) {
        let a = s.range(0, m.len());
        let b = s.range(a, m.len());
        match s.below(3) {
            0 => {
                t = Node::concat(t.subseq(b..m.len()), t.subseq(0..b));
                m.rotate_left(b);
            }
            1 => {
                t.edit(a..b, Tn::default());
                m.drain(a..b);
            }
            _ => {
                let x = t.subseq(a..b);
                t.edit(b..b, x);
                let v = m[a..b].to_vec();
                m.splice(b..b, v);
            }
        }
    }
    s.log(|| format!("{} elements, one in {} is a mark", m.len(), dense));
    ensure_eq!(t.len(), m.len(), "length");
    // all leaves forwards
    let mut starts = Vec::new();
    let mut at = 0;
    let mut c = Cursor::new(&t, 0);
    let mut leaf = c.get_leaf();
    while let Some((l, o)) = leaf {
        ensure_eq!(
            (o, c.pos()),
            (0, at),
            "deep next_leaf",
            "leaf {}",
            starts.len()
        );
        ensure!(
            m[at..].starts_with(&l.0),
            "deep next_leaf",
            "wrong leaf at {}",
            at
        );
        starts.push(at);
        at += l.0.len();
        leaf = c.next_leaf();
    }
    ensure_eq!(at, m.len(), "deep next_leaf", "stopped early");
    if m.is_empty() {
        return Ok(());
    }
    if starts.len() > 4096 {
        s.nontrivial();
    }
    // and backwards
    let mut c = Cursor::new(&t, m.len());
    for (i, st) in starts.iter().enumerate().rev().skip(1) {
        let got = c.prev_leaf();
        ensure!(
            got.is_some(),
            "deep prev_leaf",
            "no leaf before {}",
            starts[i + 1]
        );
        let (l, o) = got.unwrap();
        ensure_eq!((o, c.pos()), (0, *st), "deep prev_leaf", "leaf {}", i);
        ensure!(
            l.0[..] == m[*st..starts[i + 1]],
            "deep prev_leaf",
            "wrong leaf at {}",
            st
        );
    }
    ensure!(
        c.prev_leaf().is_none(),
        "deep prev_leaf",
        "a leaf before the first"
    );
    // steps of marks, over all of the tree
    let marks: Vec<usize> = (1..=m.len()).filter(|x| m[*x - 1] == 1).collect();
    let mut c = Cursor::new(&t, 0);
    for w in &marks {
        ensure_eq!(c.next::<Om>(), Some(*w), "deep next");
    }
    ensure_eq!(c.next::<Om>(), None, "deep next", "at the end");
    let mut c = Cursor::new(&t, m.len());
    for w in marks.iter().rev().filter(|w| **w < m.len()) {
        ensure_eq!(c.prev::<Om>(), Some(*w), "deep prev");
    }
    ensure_eq!(c.prev::<Om>(), None, "deep prev", "at the start");
    // turning round at a leaf boundary
    for _ in 0..60 {
        let i = s.idx(starts.len());
        let st = starts[i];
        let mut c = Cursor::new(&t, st);
        ensure_eq!(
            c.is_boundary::<Om>(),
            st > 0 && m[st - 1] == 1,
            "deep is_boundary",
            "at {}",
            st
        );
        ensure_eq!(c.pos(), st, "deep pos");
        let fwd = s.bool();
        let w = if fwd {
            c.next_leaf().map(|(_, o)| o)
        } else {
            c.prev_leaf().map(|(_, o)| o)
        };
        let wi = if fwd {
            Some(i + 1).filter(|i| *i < starts.len())
        } else {
            i.checked_sub(1)
        };
        ensure_eq!(
            w,
            wi.map(|_| 0),
            "deep leaf step",
            "from leaf {} forward {}",
            i,
            fwd
        );
        if let Some(wi) = wi {
            ensure_eq!(
                c.pos(),
                starts[wi],
                "deep leaf step",
                "from leaf {} forward {}",
                i,
                fwd
            );
            let a = starts[wi];
            match s.below(3) {
                0 => ensure_eq!(
                    c.prev::<Bm>(),
                    a.checked_sub(1),
                    "deep prev after a leaf step",
                    "from {}",
                    a
                ),
                1 => ensure_eq!(
                    c.next::<Bm>(),
                    Some(a + 1),
                    "deep next after a leaf step",
                    "from {}",
                    a
                ),
                _ => {
                    let w = prev1(&m, a);
                    ensure_eq!(
                        c.prev::<Om>(),
                        w,
                        "deep prev after a leaf step",
                        "from {}",
                        a
                    );
                }
            }
        }
    }
    Ok(())
}
