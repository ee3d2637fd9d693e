use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_rope::multiset::{CountMatcher, Subset, SubsetBuilder};
use xi_rope::{Interval, Rope};

/// Build a subset with the given multiplicities by one of several routes.
fn build(s: &mut Src, v: &[usize]) -> Subset {
    let mut b = SubsetBuilder::new();
    match s.below(4) {
        0 => {
            for c in v {
                b.push_segment(1, *c);
            }
        }
        1 => {
            let mut i = 0;
            while i < v.len() {
                let mut j = i;
                while j < v.len() && v[j] == v[i] {
                    j += 1;
                }
                if v[i] > 0 {
                    b.add_range(i, j, v[i]);
                }
                i = j;
            }
            b.pad_to_len(v.len());
        }
        2 => {
            let mut i = 0;
            while i < v.len() {
                let mut j = i;
                while j < v.len() && v[j] == v[i] && (j == i || s.chance(2, 3)) {
                    j += 1;
                }
                if v[i] > 0 || s.bool() {
                    b.add_range(i, j, v[i]);
                }
                if s.chance(1, 8) {
                    b.add_range(j, j, 3);
                }
                i = j;
            }
            b.pad_to_len(v.len());
            b.pad_to_len(v.len());
        }
        _ => {
            let mut i = 0;
            while i < v.len() {
                let mut j = i;
                while j < v.len() && v[j] == v[i] && (j == i || s.chance(2, 3)) {
                    j += 1;
                }
                b.push_segment(j - i, v[i]);
                i = j;
            }
            b.pad_to_len(v.len());
        }
    }
    b.build()
}

fn counts(s: &mut Src, n: usize) -> Vec<usize> {
    let style = s.below(3);
    let mut v = Vec::new();
    while v.len() < n {
        let k = match style {
            0 => 1,
            1 => s.range(1, 5),
            _ => s.skew(200).max(1),
        };
        let c = match s.weighted(&[5, 4, 1, 1]) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => s.range(3, 9),
        };
        for _ in 0..k {
            if v.len() < n {
                v.push(c);
            }
        }
    }
    v
}

/// counts read off a subset through its public iterators
fn read(x: &Subset) -> Vec<usize> {
    let n = x.len();
    let st = format!("{:#?}", x);
    if n == st.len() {
        st.bytes()
            .map(|b| match b {
                b'-' => 0,
                b'#' => 1,
                b'+' => 99,
                d => (d - b'0') as usize,
            })
            .collect()
    } else {
        vec![12345]
    }
}
fn clip(v: &[usize]) -> Vec<usize> {
    v.iter().map(|c| if *c > 9 { 99 } else { *c }).collect()
}

fn ranges(v: &[usize], f: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    // maximal runs of equal count, filtered (the iterator reports segments)
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        if f(v[i]) {
            o.push((i, j));
        }
        i = j;
    }
    o
}

fn same(s: &mut Src, x: &Subset, v: &[usize], what: &'static str) -> R {
    ensure_eq!(read(x), clip(v), what, "{:?}", x);
    ensure_eq!(x.len(), v.len(), what, "len");
    let z = v.iter().filter(|c| **c == 0).count();
    ensure_eq!(x.count(CountMatcher::Zero), z, what, "count zero");
    ensure_eq!(x.len_after_delete(), z, what, "len_after_delete");
    ensure_eq!(
        x.count(CountMatcher::NonZero),
        v.len() - z,
        what,
        "count nonzero"
    );
    ensure_eq!(x.count(CountMatcher::All), v.len(), what, "count all");
    ensure_eq!(x.is_empty(), z == v.len(), what, "is_empty");
    let other = build(s, v);
    ensure!(
        *x == other,
        "equal-content",
        "{}: {:?} and {:?} describe the same characters but differ",
        what,
        x,
        other
    );
    ensure_eq!(
        x.range_iter(CountMatcher::Zero).collect::<Vec<_>>(),
        ranges(v, |c| c == 0),
        what,
        "zero ranges"
    );
    ensure_eq!(
        x.complement_iter().collect::<Vec<_>>(),
        ranges(v, |c| c == 0),
        what,
        "complement ranges"
    );
    ensure_eq!(
        x.range_iter(CountMatcher::NonZero).collect::<Vec<_>>(),
        ranges(v, |c| c != 0),
        what,
        "nonzero ranges"
    );
    ensure_eq!(
        x.range_iter(CountMatcher::All).collect::<Vec<_>>(),
        ranges(v, |_| true),
        what,
        "all ranges"
    );
    Ok(())
}

fn algebra(s: &mut Src) -> R {
    let n = s.skew(40);
    let av = counts(s, n);
    let bv = counts(s, n);
    let a = build(s, &av);
    let b = build(s, &bv);
    s.log(|| format!("a {:?} b {:?}", a, b));
    if av.iter().zip(&bv).any(|(x, y)| *x > 0 && *y > 0)
        && av.iter().zip(&bv).any(|(x, y)| (*x > 0) != (*y > 0))
    {
        s.nontrivial();
    }
    same(s, &a, &av, "build")?;
    let z = |f: fn(usize, usize) -> usize| -> Vec<usize> {
        av.iter().zip(&bv).map(|(x, y)| f(*x, *y)).collect()
    };
    let u = a.union(&b);
    same(s, &u, &z(|x, y| x + y), "union")?;
    same(s, &a.bitxor(&b), &z(|x, y| x ^ y), "bitxor")?;
    ensure!(a.bitxor(&b).bitxor(&b) == a, "xor-inverse", "a^b^b != a");
    same(s, &u.subtract(&b), &av, "subtract")?;
    ensure!(u.subtract(&a) == b, "subtract", "(a+b)-a != b");
    ensure!(b.union(&a) == u, "union-commutes", "a+b != b+a");
    let c: Vec<usize> = av.iter().map(|x| (*x == 0) as usize).collect();
    same(s, &a.complement(), &c, "complement")?;
    same(s, &Subset::new(n), &vec![0; n], "new")?;
    // transforms: expand a set over the survivors of b
    let zn = bv.iter().filter(|c| **c == 0).count();
    let cv = counts(s, zn);
    let cset = build(s, &cv);
    let mut it = cv.iter();
    let ex: Vec<usize> = bv
        .iter()
        .map(|y| if *y == 0 { *it.next().unwrap() } else { 0 })
        .collect();
    let e = cset.transform_expand(&b);
    same(s, &e, &ex, "transform_expand")?;
    let un: Vec<usize> = bv.iter().zip(&ex).map(|(y, x)| x + y).collect();
    same(s, &cset.transform_union(&b), &un, "transform_union")?;
    ensure!(
        e.union(&b) == cset.transform_union(&b),
        "transform_union",
        "expand+union differs"
    );
    ensure!(
        e.transform_shrink(&b) == cset,
        "shrink-expand",
        "shrink after expand is not the identity: {:?}",
        e.transform_shrink(&b)
    );
    let sh: Vec<usize> = av
        .iter()
        .zip(&bv)
        .filter(|(_, y)| **y == 0)
        .map(|(x, _)| *x)
        .collect();
    same(s, &a.transform_shrink(&b), &sh, "transform_shrink")?;
    Ok(())
}

fn text(s: &mut Src) -> R {
    let n = s.skew(60);
    let t: String = (0..n).map(|i| (b'!' + (i % 90) as u8) as char).collect();
    let av = counts(s, n);
    let a = build(s, &av);
    s.log(|| format!("set {:?} len {}", a, n));
    if !a.is_empty() && a.len_after_delete() > 0 {
        s.nontrivial();
    }
    let want: String = t
        .bytes()
        .zip(&av)
        .filter(|(_, c)| **c == 0)
        .map(|(b, _)| b as char)
        .collect();
    ensure_eq!(a.delete_from_string(&t), want, "delete_from_string");
    ensure_eq!(
        String::from(&a.delete_from(&Rope::from(&t))),
        want,
        "delete_from"
    );
    // mapping coordinates in non-decreasing order
    for (k, f) in [
        (0, CountMatcher::Zero),
        (1, CountMatcher::NonZero),
        (2, CountMatcher::All),
    ] {
        let hit = |c: usize| match k {
            0 => c == 0,
            1 => c != 0,
            _ => true,
        };
        let mut m = a.mapper(f);
        let mut i = 0;
        loop {
            let want = av[..i.min(n)].iter().filter(|c| hit(**c)).count();
            ensure_eq!(
                m.doc_index_to_subset(i),
                want,
                "mapper",
                "matcher {} index {}",
                k,
                i
            );
            if s.chance(1, 4) {
                ensure_eq!(
                    m.doc_index_to_subset(i),
                    want,
                    "mapper",
                    "matcher {} index {} again",
                    k,
                    i
                );
            }
            i += s.range(1, 4);
            if i > n {
                break;
            }
        }
        // past the end
        let last = av.iter().filter(|c| hit(**c)).count();
        ensure_eq!(m.doc_index_to_subset(i + 3), last, "mapper end");
    }
    // splitting the text by the set and by its complement loses nothing
    let other = a.complement().delete_from_string(&t);
    ensure_eq!(other.len() + want.len(), n, "complement split");
    let b = build(s, &av);
    let mut c = Rope::from("");
    for (x, y) in b.range_iter(CountMatcher::All) {
        c = c + Rope::from(&t).subseq(Interval::new(x, y));
    }
    ensure_eq!(String::from(&c), t, "ranges tile");
    Ok(())
}

pub fn check() -> Check {
    Check::new("R04", "sets where some characters are in both and some in exactly one (text arm: neither empty nor everything)")
        .arm("algebra", 80_000, 1_500_000, algebra)
        .arm("text", 80_000, 1_500_000, text)
}
