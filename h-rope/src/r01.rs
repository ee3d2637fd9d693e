use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_rope::tree::TreeBuilder;
use xi_rope::{DeltaBuilder, Interval, Rope};

fn check_member(i: usize, r: &Rope, m: &str, what: &str) -> R {
    ensure_eq!(r.len(), m.len(), "length", "{} of member {}", what, i);
    let t = String::from(r);
    ensure!(
        t == m,
        "text",
        "{}: member {} reads {:?} expected {:?}",
        what,
        i,
        show(&t),
        show(m)
    );
    Ok(())
}

fn history(s: &mut Src) -> R {
    let mut pool: Vec<(Rope, String)> = Vec::new();
    let (r, m) = layout(s, 5);
    s.log(|| format!("start {} chunks {:?}", show(&m), chunks(&r)));
    pool.push((r, m));
    let steps = s.range(1, 24);
    let cap = if s.thorough { 200_000 } else { 40_000 };
    let mut big = false;
    for _ in 0..steps {
        let i = s.idx(pool.len());
        let op = s.weighted(&[2, 6, 5, 4, 3, 2, 3, 2, 2]);
        let mut new: Option<(Rope, String)> = None;
        let what: &'static str;
        match op {
            0 => {
                what = "new";
                let p = piece(s);
                new = Some((Rope::from(&p), p));
            }
            1 => {
                what = "edit";
                let (a, b) = range(s, &pool[i].1);
                let p = if s.bool() { piece(s) } else { short(s, 4) };
                s.log(|| format!("edit member {} {}..{} with {}", i, a, b, show(&p)));
                if s.bool() {
                    // in place (may share structure with other members)
                    let (r, m) = &mut pool[i];
                    match s.below(4) {
                        0 => r.edit(a..b, p.as_str()),
                        1 => r.edit(Interval::new(a, b), Rope::from(&p)),
                        2 if b > a => r.edit(a..=b - 1, p.as_str()),
                        _ => {
                            if b == m.len() {
                                r.edit(a.., p.as_str())
                            } else if a == 0 {
                                r.edit(..b, p.as_str())
                            } else {
                                r.edit(a..b, p.as_str())
                            }
                        }
                    }
                    m.replace_range(a..b, &p);
                    let (r, m) = &pool[i];
                    check_member(i, r, m, "after edit")?;
                } else {
                    let (mut r, mut m) = pool[i].clone();
                    r.edit(a..b, p.as_str());
                    m.replace_range(a..b, &p);
                    new = Some((r, m));
                }
            }
            2 => {
                what = "slice";
                let (a, b) = range(s, &pool[i].1);
                s.log(|| format!("slice member {} {}..{}", i, a, b));
                let r = if s.bool() {
                    pool[i].0.slice(a..b)
                } else {
                    pool[i].0.subseq(a..b)
                };
                new = Some((r, pool[i].1[a..b].to_string()));
            }
            3 => {
                what = "concat";
                let j = s.idx(pool.len());
                s.log(|| format!("concat members {} {}", i, j));
                let r = if s.bool() {
                    pool[i].0.clone() + pool[j].0.clone()
                } else {
                    xi_rope::tree::Node::concat(pool[i].0.clone(), pool[j].0.clone())
                };
                new = Some((r, format!("{}{}", pool[i].1, pool[j].1)));
            }
            4 => {
                what = "builder";
                let mut b = TreeBuilder::new();
                let mut m = String::new();
                let n = s.range(0, 5);
                for _ in 0..n {
                    match s.below(4) {
                        0 => {
                            let j = s.idx(pool.len());
                            s.log(|| format!("builder push member {}", j));
                            b.push(pool[j].0.clone());
                            m.push_str(&pool[j].1);
                        }
                        1 => {
                            let p = piece(s);
                            s.log(|| format!("builder push_str {}", show(&p)));
                            b.push_str(&p);
                            m.push_str(&p);
                        }
                        2 => {
                            let p = short(s, 4);
                            if !p.is_empty() {
                                s.log(|| format!("builder push_leaf {}", show(&p)));
                                b.push_leaf(p.clone());
                                m.push_str(&p);
                            }
                        }
                        _ => {
                            let p = piece(s);
                            let p = p[..bound(&p, 1024)].to_string();
                            let (x, y) = range(s, &p);
                            s.log(|| format!("builder push_leaf_slice {} {}..{}", show(&p), x, y));
                            b.push_leaf_slice(&p, Interval::new(x, y));
                            m.push_str(&p[x..y]);
                        }
                    }
                }
                new = Some((b.build(), m));
            }
            5 => {
                what = "clone";
                new = Some(pool[i].clone());
            }
            6 => {
                what = "delta";
                let m0 = &pool[i].1;
                let mut cuts: Vec<usize> = (0..s.range(0, 6)).map(|_| offset(s, m0)).collect();
                cuts.sort();
                let mut b = DeltaBuilder::new(m0.len());
                let mut m = String::new();
                let mut last = 0;
                for w in cuts.chunks(2) {
                    let (x, y) = (w[0], *w.last().unwrap());
                    let p = short(s, 3);
                    m.push_str(&m0[last..x]);
                    m.push_str(&p);
                    last = y;
                    b.replace(x..y, Rope::from(&p));
                }
                m.push_str(&m0[last..]);
                s.log(|| format!("delta on member {} cuts {:?}", i, cuts));
                let r = b.build().apply(&pool[i].0);
                new = Some((r, m));
            }
            7 => {
                what = "mutate-shared";
                // many small edits to a clone sharing structure with the pool
                let (mut r, mut m) = pool[i].clone();
                let n = s.range(1, 30);
                for _ in 0..n {
                    let (a, b) = range(s, &m);
                    let b = bound(&m, b.min(a + 40)).max(a);
                    let p = short(s, 2);
                    r.edit(a..b, p.as_str());
                    m.replace_range(a..b, &p);
                }
                s.log(|| format!("{} small edits on a copy of member {}", n, i));
                new = Some((r, m));
            }
            _ => {
                what = "drop";
                if pool.len() > 1 {
                    pool.remove(i);
                }
            }
        }
        if let Some((r, m)) = new {
            if m.len() <= cap {
                check_member(pool.len(), &r, &m, what)?;
                if m.len() > 1100 {
                    big = true;
                }
                if pool.len() < 6 {
                    pool.push((r, m));
                } else {
                    let j = s.idx(6);
                    pool[j] = (r, m);
                }
            }
        }
        // persistence of a snapshot
        let j = s.idx(pool.len());
        check_member(j, &pool[j].0, &pool[j].1, "snapshot")?;
    }
    for (j, (r, m)) in pool.iter().enumerate() {
        check_member(j, r, m, "final")?;
        ensure_eq!(r.is_empty(), m.is_empty(), "is_empty");
        ensure!(
            format!("{}", r) == *m,
            "display",
            "Display differs for member {}",
            j
        );
        ensure!(
            format!("{:?}", r) == format!("Rope({:?})", m),
            "debug",
            "Debug differs for member {}",
            j
        );
        ensure!(
            serde_json::to_value(r).unwrap() == serde_json::json!(m),
            "json",
            "json differs for member {}",
            j
        );
        // iter_chunks over a sub-range is the sub-string, and slice_to_cow too
        let (a, b) = range(s, m);
        ensure_eq!(r.slice_to_cow(a..b), m[a..b], "slice_to_cow");
        let cat: String = r.iter_chunks(a..b).collect();
        ensure_eq!(cat, m[a..b], "iter_chunks");
        if !m.is_empty() {
            let k = s.idx(m.len());
            ensure_eq!(r.byte_at(k), m.as_bytes()[k], "byte_at", "offset {}", k);
        }
    }
    if big {
        s.nontrivial();
    }
    Ok(())
}

/// few, very large texts: tree heights beyond the cursor cache
fn tall(s: &mut Src) -> R {
    let unit = piece(s);
    let mut r = Rope::from(&unit);
    let mut m = unit.clone();
    let goal = if s.thorough { 3_000_000 } else { 700_000 };
    while m.len() < goal {
        match s.below(3) {
            0 => {
                r = r.clone() + r;
                m = m.repeat(2);
            }
            1 => {
                let p = piece(s);
                r = Rope::from(&p) + r.clone() + r;
                m = format!("{}{}{}", p, m, m);
            }
            _ => {
                let p = piece(s);
                let mut b = TreeBuilder::new();
                b.push(r.clone());
                b.push_str(&p);
                b.push(r);
                r = b.build();
                m = format!("{}{}{}", m, p, m);
            }
        }
        if m.is_empty() {
            m.push('x');
            r = Rope::from("x");
        }
    }
    s.log(|| format!("text of {} bytes, {} chunks", m.len(), chunks(&r).len()));
    for _ in 0..s.range(3, 12) {
        let (a, b) = range(s, &m);
        let p = piece(s);
        match s.below(3) {
            0 => {
                r.edit(a..b, p.as_str());
                m.replace_range(a..b, &p);
            }
            1 => {
                let b = bound(&m, b.min(a + 3000)).max(a);
                r.edit(a..b, p.as_str());
                m.replace_range(a..b, &p);
            }
            _ => {
                let sl = r.slice(a..b);
                check_member(1, &sl, &m[a..b], "slice")?;
                let c = sl + r.clone();
                if c.len() < 4_000_000 {
                    m = format!("{}{}", &m[a..b], m);
                    r = c;
                }
            }
        }
        check_member(0, &r, &m, "tall")?;
    }
    s.nontrivial();
    Ok(())
}

pub fn check() -> Check {
    Check::new(
        "R01",
        "histories of build/edit/slice/concat/builder/delta operations over a pool of live texts, each compared with a String after every step; non-trivial: some member exceeded one leaf (1.1 kB)",
    )
    .arm("history", 150_000, 3_000_000, history)
    .arm("tiny", 60_000, 800_000, crate::tiny::history)
    .arm("tall", 48, 800, tall)
    .assume("String operations of the Rust standard library are the reference")
}
