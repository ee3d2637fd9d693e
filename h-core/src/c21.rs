//! C21: sets of ranges, against a set of integers.
use crate::c02::delta;
use crate::text::ascii;
use pbt::{ensure, ensure_eq, Check, Src, R};
use std::collections::BTreeSet;
use xi_core_lib::index_set::{remove_n_at, IndexSet};

pub fn check() -> Check {
    Check::new("C21", "an addition or removal overlapped an existing range")
        .arm("history", 500_000, 6_000_000, history)
        .arm("remove", 10_000, 100_000, removal)
}

fn gaps(m: &BTreeSet<usize>, a: usize, b: usize) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = vec![];
    for i in a..b {
        if !m.contains(&i) {
            match out.last_mut() {
                Some(l) if l.1 == i => l.1 = i + 1,
                _ => out.push((i, i + 1)),
            }
        }
    }
    out
}

fn history(s: &mut Src) -> R {
    let n = *s.pick(&[8usize, 20, 60]);
    let mut x = IndexSet::new();
    let mut m: BTreeSet<usize> = BTreeSet::new();
    let mut len = n;
    for _ in 0..s.range(1, 20) {
        let (a, b) = (s.range(0, len), s.range(0, len));
        let (a, b) = (a.min(b), a.max(b));
        match s.weighted(&[8, 6, 1, 2]) {
            0 => {
                if a == b {
                    continue; // ranges added are non-empty
                }
                s.log(|| format!("add {}..{}", a, b));
                if (a..b).any(|i| m.contains(&i)) {
                    s.nontrivial();
                }
                x.union_one_range(a, b);
                m.extend(a..b);
            }
            1 => {
                s.log(|| format!("remove {}..{}", a, b));
                if (a..b).any(|i| m.contains(&i)) {
                    s.nontrivial();
                }
                x.delete_range(a, b);
                m = m.into_iter().filter(|i| *i < a || *i >= b).collect();
            }
            2 => {
                if s.chance(1, 6) {
                    x.clear();
                    m.clear();
                }
            }
            _ => {
                // members move with their characters; what is inserted inside a range joins it
                let t: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let (d, reps) = delta(s, &t);
                s.log(|| format!("edit {:?}", reps));
                let mut out = BTreeSet::new();
                let mut pos = 0;
                let mut q = 0;
                let mut unsure = false;
                for ((ra, re), ins) in &reps {
                    while pos < *ra {
                        if m.contains(&pos) {
                            out.insert(q);
                        }
                        pos += 1;
                        q += 1;
                    }
                    let left = *ra > 0 && m.contains(&(ra - 1));
                    let right = m.contains(re);
                    let all = (*ra..*re).all(|i| m.contains(&i));
                    // an edge touching replaced text: only the plain cases are judged
                    if !ins.is_empty() && ra == re && left != right {
                        unsure = true;
                    }
                    if !ins.is_empty()
                        && ra != re
                        && (!all || !left || !right)
                        && (left || right || (*ra..*re).any(|i| m.contains(&i)))
                    {
                        unsure = true;
                    }
                    if left && right && all {
                        out.extend(q..q + ins.len());
                    }
                    q += ins.len();
                    pos = *re;
                }
                while pos < len {
                    if m.contains(&pos) {
                        out.insert(q);
                    }
                    pos += 1;
                    q += 1;
                }
                if unsure {
                    continue;
                }
                x = x.apply_delta(&d);
                m = out;
                len = q;
            }
        }
        let want = gaps(&m, 0, len + 2);
        ensure_eq!(
            x.minus_one_range(0, len + 2).collect::<Vec<_>>(),
            want,
            "members",
            "complement of the set"
        );
        let mut back: Vec<_> = x.minus_one_range(0, len + 2).rev().collect();
        back.reverse();
        ensure_eq!(
            back,
            want,
            "members-back",
            "complement of the set, from the end"
        );
        let (a, b) = (s.range(0, len + 2), s.range(0, len + 2));
        let (a, b) = (a.min(b), a.max(b));
        let want = gaps(&m, a, b);
        ensure_eq!(
            x.minus_one_range(a, b).collect::<Vec<_>>(),
            want,
            "minus",
            "{}..{}",
            a,
            b
        );
        let mut back: Vec<_> = x.minus_one_range(a, b).rev().collect();
        back.reverse();
        ensure_eq!(back, want, "minus-back", "{}..{}", a, b);
        // from both ends at once
        let mut it = x.minus_one_range(a, b);
        let (mut f, mut r) = (vec![], vec![]);
        for _ in 0..=len {
            let o = if s.bool() {
                it.next().map(|v| f.push(v))
            } else {
                it.next_back().map(|v| r.push(v))
            };
            if o.is_none() {
                break;
            }
        }
        r.reverse();
        f.extend(r);
        ensure_eq!(f, want, "minus-both", "{}..{}", a, b);
    }
    Ok(())
}

fn removal(s: &mut Src) -> R {
    let t = ascii(s, 12);
    let mut v: Vec<char> = t.chars().collect();
    let i = s.range(0, v.len());
    let k = s.range(0, v.len() - i);
    let mut w = v.clone();
    w.drain(i..i + k);
    if k > 0 {
        s.nontrivial();
    }
    remove_n_at(&mut v, i, k);
    ensure!(
        v == w,
        "remove-n",
        "remove_n_at({}, {}) of {:?} gave {:?}",
        i,
        k,
        t,
        v
    );
    Ok(())
}
