use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_rope::delta::DeltaElement;
use xi_rope::diff::{Diff, LineHashDiff};
use xi_rope::{Rope, RopeDelta};

fn line(s: &mut Src) -> String {
    let lead = *s.pick(&["", " ", "    ", "\t", "  \t"]);
    let body = *s.pick(&[
        "abcdefghijklmnopqrstuvwxyz0123456789",
        "abcdefghijklmnopqrstuvwxyz012345678",
        "xabcdefghijklmnopqrstuvwxyz0123456789",
        "the quick brown fox jumps over the lazy dog",
        "the quick brown fox jumps over the lazy cat",
        "déjà vu déjà vu déjà vu déjà vu déjà vu",
        "dèjà vu déjà vu déjà vu déjà vu déjà vu",
        "漢字漢字漢字漢字漢字漢字漢字漢字",
        "漢宇漢字漢字漢字漢字漢字漢字漢字",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
        "short",
        "",
        "}",
        "é",
    ]);
    let tail = *s.pick(&["\n", "\n", "\n", "\r\n", " \n", ""]);
    format!("{}{}{}", lead, body, tail)
}

fn doc(s: &mut Src, max: usize) -> Vec<String> {
    let n = s.range(0, max);
    (0..n).map(|_| line(s)).collect()
}

fn mutate(s: &mut Src, base: &[String]) -> Vec<String> {
    let mut v = base.to_vec();
    for _ in 0..s.range(0, 5) {
        if v.is_empty() {
            v.push(line(s));
            continue;
        }
        let i = s.idx(v.len());
        let j = s.idx(v.len());
        match s.below(8) {
            0 => {
                v.remove(i);
            }
            1 => {
                let l = line(s);
                v.insert(i, l);
            }
            2 => v.swap(i, j),
            3 => {
                let l = v[i].clone();
                v.insert(j, l);
            }
            4 => {
                let (a, b) = (i.min(j), i.max(j));
                let block: Vec<String> = v.drain(a..=b).collect();
                let at = s.range(0, v.len());
                v.splice(at..at, block);
            }
            5 => {
                let (x, y) = range(s, &v[i]);
                let t = short(s, 3);
                v[i].replace_range(x..y, &t);
            }
            6 => {
                let t = *s.pick(&[" ", "    ", "\t", ""]);
                v[i] = format!(
                    "{}{}",
                    t,
                    v[i].trim_start_matches(|c| c == ' ' || c == '\t')
                );
            }
            _ => {
                let (a, b) = (i.min(j), i.max(j));
                v[a..=b].reverse();
            }
        }
    }
    v
}

fn as_rope(s: &mut Src, v: &[String]) -> Rope {
    match s.below(3) {
        0 => Rope::from(v.concat()),
        1 => v.iter().fold(Rope::default(), |a, l| a + Rope::from(l)),
        _ => {
            let t = v.concat();
            let k = offset(s, &t);
            let mut r = Rope::from(&t[k..]);
            r.edit(0..0, Rope::from(&t[..k]));
            r
        }
    }
}

fn diff(s: &mut Src, base: &Rope, target: &Rope) -> R {
    let (b, t) = (String::from(base), String::from(target));
    s.log(|| format!("base {} target {}", show(&b), show(&t)));
    let d: RopeDelta = LineHashDiff::compute_delta(base, target);
    ensure_eq!(d.base_len, b.len(), "base_len");
    // a difference is an edit description: it copies forward through the first text
    let mut p = 0;
    let mut copied = 0;
    for e in &d.els {
        if let DeltaElement::Copy(x, y) = e {
            ensure!(
                x <= y && *y <= b.len(),
                "copy-range",
                "copies {}..{} of {}",
                x,
                y,
                b.len()
            );
            ensure!(
                *x >= p,
                "copy-backwards",
                "copies {}..{} after having copied up to {}: not an edit of the first text ({:?})",
                x,
                y,
                p,
                d
            );
            p = *y;
            copied += y - x;
        }
    }
    let got = String::from(&d.apply(base));
    ensure!(got == t, "wrong-target", "gives {}", show(&got));
    if copied > 0 && d.els.len() > 2 {
        s.nontrivial();
    }
    // and it works as an edit of a document with history
    if s.chance(1, 8) {
        let mut e = xi_rope::engine::Engine::new(base.clone());
        let id = e.get_head_rev_id().token();
        ensure!(
            e.try_edit_rev(1, 1, id, d).is_ok(),
            "not-an-edit",
            "refused as an edit"
        );
        ensure!(
            String::from(e.get_head()) == t,
            "edit-differs",
            "as an edit gives {}",
            show(&String::from(e.get_head()))
        );
    }
    Ok(())
}

fn lines(s: &mut Src) -> R {
    let b = doc(s, 14);
    let t = if s.chance(1, 5) {
        doc(s, 14)
    } else {
        mutate(s, &b)
    };
    let (b, t) = (as_rope(s, &b), as_rope(s, &t));
    diff(s, &b, &t)
}
/// few distinct lines, so that matches overlap and repeat
fn repeats(s: &mut Src) -> R {
    let pool: Vec<String> = (0..s.range(1, 3)).map(|_| line(s)).collect();
    let mk = |s: &mut Src| -> Vec<String> {
        (0..s.range(0, 10)).map(|_| s.pick(&pool).clone()).collect()
    };
    let b = mk(s);
    let t = if s.bool() { mk(s) } else { mutate(s, &b) };
    let (b, t) = (as_rope(s, &b), as_rope(s, &t));
    diff(s, &b, &t)
}
fn chars(s: &mut Src) -> R {
    let (b, t) = (short(s, 30), short(s, 30));
    let t = if s.bool() {
        let mut x = b.clone();
        let (i, j) = range(s, &x);
        x.replace_range(i..j, &short(s, 3));
        x
    } else {
        t
    };
    diff(s, &Rope::from(b), &Rope::from(t))
}
fn big(s: &mut Src) -> R {
    let n = s.range(20, 300);
    let b: Vec<String> = (0..n)
        .map(|i| {
            if s.chance(1, 6) {
                line(s)
            } else {
                format!(
                    "{}line number {} of a longer document\n",
                    " ".repeat(i % 5),
                    i % 97
                )
            }
        })
        .collect();
    let t = mutate(s, &b);
    let (b, t) = (as_rope(s, &b), as_rope(s, &t));
    diff(s, &b, &t)
}

pub fn check() -> Check {
    Check::new(
        "R11",
        "a difference that copies something and has more than two pieces",
    )
    .arm("lines", 40_000, 800_000, lines)
    .arm("repeats", 30_000, 800_000, repeats)
    .arm("chars", 30_000, 500_000, chars)
    .arm("big", 800, 20_000, big)
}
