use crate::text::*;
use crate::tiny;
use pbt::{ensure, ensure_eq, Check, Src, R};
use unicode_segmentation::GraphemeCursor;
use xi_rope::rope::{BaseMetric, Utf16CodeUnitsMetric};
use xi_rope::{Cursor, LinesMetric, Rope};

fn utf16(t: &str) -> usize {
    t.chars().map(char::len_utf16).sum()
}
fn nl(t: &str) -> usize {
    t.bytes().filter(|b| *b == b'\n').count()
}

pub fn ref_lines_raw(t: &str) -> Vec<&str> {
    t.split_inclusive('\n').collect()
}

fn queries(s: &mut Src) -> R {
    let (r, m) = layout(s, 6);
    s.log(|| format!("text {} chunks {:?}", show(&m), chunks(&r)));
    let ch = chunks(&r);
    if ch.len() > 1 {
        s.nontrivial();
    }
    ensure_eq!(ch.iter().sum::<usize>(), m.len(), "chunk-sum");
    ensure!(
        ch.iter().all(|c| *c > 0),
        "empty-chunk",
        "empty chunk in {:?}",
        ch
    );
    let mut bounds = vec![0];
    for c in &ch {
        bounds.push(bounds.last().unwrap() + c);
    }
    ensure_eq!(r.measure::<LinesMetric>(), nl(&m), "measure lines");
    ensure_eq!(
        r.measure::<Utf16CodeUnitsMetric>(),
        utf16(&m),
        "measure utf16"
    );
    let nlines = nl(&m);
    let n16 = utf16(&m);
    for _ in 0..s.range(4, 24) {
        // offsets biased to chunk boundaries
        let o = if s.chance(3, 5) {
            let b = *s.pick(&bounds);
            let d = s.range(0, 12);
            let o = (b + d).saturating_sub(6);
            bound(&m, o)
        } else {
            offset(s, &m)
        };
        s.log(|| format!("offset {}", o));
        let pre = &m[..o];
        ensure_eq!(
            r.line_of_offset(o),
            nl(pre),
            "line_of_offset",
            "offset {}",
            o
        );
        ensure_eq!(
            r.count::<LinesMetric>(o),
            nl(pre),
            "count lines",
            "offset {}",
            o
        );
        ensure_eq!(
            r.count::<Utf16CodeUnitsMetric>(o),
            utf16(pre),
            "count utf16",
            "offset {}",
            o
        );
        ensure_eq!(
            r.is_codepoint_boundary(o),
            true,
            "is_codepoint_boundary",
            "offset {}",
            o
        );
        ensure_eq!(
            r.next_codepoint_offset(o),
            m[o..].chars().next().map(|c| o + c.len_utf8()),
            "next_codepoint",
            "offset {}",
            o
        );
        ensure_eq!(
            r.prev_codepoint_offset(o),
            pre.chars().next_back().map(|c| o - c.len_utf8()),
            "prev_codepoint",
            "offset {}",
            o
        );
        let g = GraphemeCursor::new(o, m.len(), true)
            .next_boundary(&m, 0)
            .unwrap();
        ensure_eq!(
            r.next_grapheme_offset(o),
            g,
            "next_grapheme",
            "offset {}",
            o
        );
        let g = GraphemeCursor::new(o, m.len(), true)
            .prev_boundary(&m, 0)
            .unwrap();
        ensure_eq!(
            r.prev_grapheme_offset(o),
            g,
            "prev_grapheme",
            "offset {}",
            o
        );
        // any byte offset
        let x = if s.bool() {
            (o + s.range(0, 3)).min(m.len())
        } else {
            s.range(0, m.len())
        };
        let isb = m.is_char_boundary(x);
        ensure_eq!(
            r.is_codepoint_boundary(x),
            isb,
            "is_codepoint_boundary",
            "offset {}",
            x
        );
        let down = bound(&m, x);
        let mut up = x;
        while !m.is_char_boundary(up) {
            up += 1;
        }
        ensure_eq!(
            r.at_or_prev_codepoint_boundary(x),
            Some(down),
            "at_or_prev_codepoint",
            "offset {}",
            x
        );
        ensure_eq!(
            r.at_or_next_codepoint_boundary(x),
            Some(up),
            "at_or_next_codepoint",
            "offset {}",
            x
        );
        // lines
        let l = s.range(0, nlines + 1);
        let want = if l == 0 {
            0
        } else if l == nlines + 1 {
            m.len()
        } else {
            m.match_indices('\n').nth(l - 1).unwrap().0 + 1
        };
        ensure_eq!(r.offset_of_line(l), want, "offset_of_line", "line {}", l);
        if l <= nlines {
            ensure_eq!(r.line_of_offset(want), l, "line round trip", "line {}", l);
        }
        // utf16
        let u = s.range(0, n16);
        let (mut a, mut b) = (0, 0);
        for c in m.chars() {
            if a >= u {
                break;
            }
            a += c.len_utf16();
            b += c.len_utf8();
        }
        ensure_eq!(
            r.count_base_units::<Utf16CodeUnitsMetric>(u),
            b,
            "utf16 to base",
            "units {}",
            u
        );
        // slices and iteration
        let (a, b) = range(s, &m);
        let sub = &m[a..b];
        let lr: Vec<String> = r.lines_raw(a..b).map(|c| c.into_owned()).collect();
        let want = ref_lines_raw(sub);
        ensure!(
            lr == want,
            "lines_raw",
            "lines_raw({}..{}) of {}",
            a,
            b,
            show(&m)
        );
        let ls: Vec<String> = r.lines(a..b).map(|c| c.into_owned()).collect();
        let want: Vec<&str> = want
            .into_iter()
            .map(|l| match l.strip_suffix('\n') {
                Some(x) => x.strip_suffix('\r').unwrap_or(x),
                None => l,
            })
            .collect();
        ensure!(ls == want, "lines", "lines({}..{}) of {}", a, b, show(&m));
        let cs: Vec<&str> = r.iter_chunks(a..b).collect();
        ensure!(
            cs.concat() == sub && cs.iter().all(|c| !c.is_empty()),
            "iter_chunks",
            "iter_chunks({}..{})",
            a,
            b
        );
        ensure!(
            r.slice_to_cow(a..b) == sub,
            "slice_to_cow",
            "slice_to_cow({}..{})",
            a,
            b
        );
        let sl = r.slice(a..b);
        ensure_eq!(sl.measure::<LinesMetric>(), nl(sub), "slice lines");
        ensure_eq!(
            sl.measure::<Utf16CodeUnitsMetric>(),
            utf16(sub),
            "slice utf16"
        );
        if o < m.len() {
            ensure_eq!(r.byte_at(o), m.as_bytes()[o], "byte_at");
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum M {
    Base,
    Lines,
    Utf16,
}

fn is_b(k: M, m: &str, o: usize) -> bool {
    match k {
        M::Lines => o > 0 && m.as_bytes()[o - 1] == b'\n',
        _ => m.is_char_boundary(o),
    }
}
fn ref_next(k: M, m: &str, o: usize) -> Option<usize> {
    (o + 1..=m.len()).find(|x| is_b(k, m, *x))
}
fn ref_prev(k: M, m: &str, o: usize) -> Option<usize> {
    (0..o).rev().find(|x| is_b(k, m, *x))
}

/// one long-lived cursor driven through a random walk
fn cursor_walk(s: &mut Src) -> R {
    let (r, m) = layout(s, 6);
    s.log(|| format!("text {} chunks {:?}", show(&m), chunks(&r)));
    if chunks(&r).len() > 1 {
        s.nontrivial();
    }
    walk(s, &r, &m)
}

fn walk(s: &mut Src, r: &Rope, m: &str) -> R {
    let mut pos = offset(s, m);
    let mut c = Cursor::new(r, pos);
    let ch = chunks(r);
    let mut bounds = vec![0];
    for x in &ch {
        bounds.push(bounds.last().unwrap() + x);
    }
    let steps = s.range(1, 40);
    for _ in 0..steps {
        let k = *s.pick(&[M::Base, M::Lines, M::Utf16]);
        let op = s.below(14);
        s.log(|| format!("at {} op {} metric {:?}", pos, op, k));
        macro_rules! by {
            ($f:ident) => {
                match k {
                    M::Base => c.$f::<BaseMetric>(),
                    M::Lines => c.$f::<LinesMetric>(),
                    M::Utf16 => c.$f::<Utf16CodeUnitsMetric>(),
                }
            };
        }
        let mut valid = true;
        match op {
            0 => {
                pos = if s.bool() {
                    bound(m, *s.pick(&bounds))
                } else {
                    offset(s, m)
                };
                c.set(pos);
            }
            1 | 2 => {
                let w = ref_next(k, m, pos);
                ensure_eq!(by!(next), w, "cursor next", "{:?} from {}", k, pos);
                match w {
                    Some(p) => pos = p,
                    None => valid = false,
                }
            }
            3 | 4 => {
                let w = ref_prev(k, m, pos);
                ensure_eq!(by!(prev), w, "cursor prev", "{:?} from {}", k, pos);
                match w {
                    Some(p) => pos = p,
                    None => valid = false,
                }
            }
            5 => {
                let w = is_b(k, m, pos);
                // the ends of the text are metric dependent only when the metric can fragment
                ensure_eq!(
                    by!(is_boundary),
                    w,
                    "cursor is_boundary",
                    "{:?} at {}",
                    k,
                    pos
                );
            }
            6 => {
                let w = if is_b(k, m, pos) {
                    Some(pos)
                } else {
                    ref_next(k, m, pos)
                };
                ensure_eq!(
                    by!(at_or_next),
                    w,
                    "cursor at_or_next",
                    "{:?} from {}",
                    k,
                    pos
                );
                match w {
                    Some(p) => pos = p,
                    None => valid = false,
                }
            }
            7 => {
                let w = if is_b(k, m, pos) {
                    Some(pos)
                } else {
                    ref_prev(k, m, pos)
                };
                ensure_eq!(
                    by!(at_or_prev),
                    w,
                    "cursor at_or_prev",
                    "{:?} from {}",
                    k,
                    pos
                );
                match w {
                    Some(p) => pos = p,
                    None => valid = false,
                }
            }
            8 => {
                let w = m[pos..].chars().next();
                ensure_eq!(c.peek_next_codepoint(), w, "peek", "at {}", pos);
                ensure_eq!(c.next_codepoint(), w, "next_codepoint char", "from {}", pos);
                match w {
                    Some(ch) => pos += ch.len_utf8(),
                    None => valid = false,
                }
            }
            9 => {
                let w = m[..pos].chars().next_back();
                ensure_eq!(c.prev_codepoint(), w, "prev_codepoint char", "from {}", pos);
                match w {
                    Some(ch) => pos -= ch.len_utf8(),
                    None => valid = false,
                }
            }
            10 => {
                // next_leaf goes to the next chunk boundary
                let w = bounds
                    .iter()
                    .copied()
                    .find(|b| *b > pos)
                    .filter(|b| *b < m.len());
                let got = c.next_leaf().map(|(l, o)| (l.clone(), o));
                ensure_eq!(got.is_some(), w.is_some(), "next_leaf", "from {}", pos);
                match w {
                    Some(p) => {
                        pos = p;
                        let (l, o) = got.unwrap();
                        ensure!(
                            o == 0 && m[pos..].starts_with(l.as_str()),
                            "next_leaf",
                            "wrong leaf at {}",
                            pos
                        );
                    }
                    None => valid = false,
                }
            }
            11 | 12 => {
                // prev_leaf goes to the start of the chunk before the one it is in
                let st = bounds
                    .iter()
                    .rposition(|b| *b <= pos && (*b < m.len() || m.is_empty()))
                    .unwrap_or(0);
                let w = if st == 0 { None } else { Some(bounds[st - 1]) };
                let got = c.prev_leaf().map(|(l, o)| (l.clone(), o));
                ensure_eq!(got.is_some(), w.is_some(), "prev_leaf", "from {}", pos);
                match w {
                    Some(p) => {
                        pos = p;
                        let (l, o) = got.unwrap();
                        ensure!(
                            o == 0 && m[pos..].starts_with(l.as_str()),
                            "prev_leaf",
                            "wrong leaf at {}, offset {}",
                            pos,
                            o
                        );
                    }
                    None => valid = false,
                }
            }
            _ => {
                let n: Vec<usize> = match k {
                    M::Base => c.iter::<BaseMetric>().take(5).collect(),
                    M::Lines => c.iter::<LinesMetric>().take(5).collect(),
                    M::Utf16 => c.iter::<Utf16CodeUnitsMetric>().take(5).collect(),
                };
                let mut w = Vec::new();
                let mut p = pos;
                while w.len() < 5 {
                    match ref_next(k, m, p) {
                        Some(x) => {
                            w.push(x);
                            p = x;
                        }
                        None => break,
                    }
                }
                ensure_eq!(n, w, "cursor iter", "{:?} from {}", k, pos);
                if w.len() == 5 {
                    pos = p;
                } else {
                    valid = false;
                }
            }
        }
        if !valid {
            ensure!(
                c.get_leaf().is_none(),
                "invalid-cursor",
                "cursor should be invalid after a failed move"
            );
            pos = offset(s, m);
            c.set(pos);
        }
        ensure_eq!(c.pos(), pos, "cursor pos");
        if let Some((l, o)) = c.get_leaf() {
            let st = pos - o;
            ensure!(
                m[st..].starts_with(l.as_str()) && (o < l.len() || pos == m.len()),
                "cursor leaf",
                "leaf at {} wrong",
                pos
            );
        } else {
            return pbt::fail("cursor leaf", format!("cursor lost its leaf at {}", pos));
        }
    }
    Ok(())
}

/// walk whole text by grapheme both ways
fn graphemes(s: &mut Src) -> R {
    let (r, m) = layout(s, 3);
    let (r, m) = if m.len() > 6000 {
        let b = bound(&m, 6000);
        (r.slice(..b), m[..b].to_string())
    } else {
        (r, m)
    };
    s.log(|| format!("text {} chunks {:?}", show(&m), chunks(&r)));
    if chunks(&r).len() > 1 {
        s.nontrivial();
    }
    let want: Vec<usize> = {
        let mut c = GraphemeCursor::new(0, m.len(), true);
        let mut v = Vec::new();
        while let Some(x) = c.next_boundary(&m, 0).unwrap() {
            v.push(x);
        }
        v
    };
    let mut o = 0;
    for w in &want {
        let n = r.next_grapheme_offset(o);
        ensure_eq!(n, Some(*w), "next_grapheme", "from {}", o);
        o = *w;
    }
    ensure_eq!(
        r.next_grapheme_offset(m.len()),
        None,
        "next_grapheme",
        "from the end"
    );
    let mut o = m.len();
    for w in want
        .iter()
        .rev()
        .skip(1)
        .chain(if m.is_empty() { None } else { Some(&0usize) })
    {
        let n = r.prev_grapheme_offset(o);
        ensure_eq!(n, Some(*w), "prev_grapheme", "from {}", o);
        o = *w;
    }
    ensure_eq!(
        r.prev_grapheme_offset(0),
        None,
        "prev_grapheme",
        "from the start"
    );
    Ok(())
}

fn tall(s: &mut Src) -> R {
    let p = piece(s);
    let mut r = Rope::from(&p);
    let mut m = p;
    while m.len() < 600_000 {
        let p = format!("{}\n", piece(s));
        r = r.clone() + Rope::from(&p) + r;
        m = format!("{}{}{}", m, p, m);
    }
    s.log(|| format!("{} bytes {} chunks", m.len(), chunks(&r).len()));
    s.nontrivial();
    for _ in 0..4 {
        walk(s, &r, &m)?;
    }
    let nlines = nl(&m);
    for _ in 0..20 {
        let o = offset(s, &m);
        ensure_eq!(r.line_of_offset(o), nl(&m[..o]), "line_of_offset");
        ensure_eq!(
            r.count::<Utf16CodeUnitsMetric>(o),
            utf16(&m[..o]),
            "count utf16"
        );
        let l = s.range(1, nlines);
        let want = m.match_indices('\n').nth(l - 1).unwrap().0 + 1;
        ensure_eq!(r.offset_of_line(l), want, "offset_of_line");
    }
    Ok(())
}

pub fn check() -> Check {
    Check::new(
        "R02",
        "texts assembled from special-character pieces around chunk-boundary lengths by different routes, queried at offsets biased to chunk boundaries; also a generic tree with 2..4 element leaves (many levels) and cursor random walks; non-trivial: more than one chunk",
    )
    .arm("queries", 15_000, 300_000, queries)
    .arm("walk", 30_000, 400_000, cursor_walk)
    .arm("graphemes", 6_000, 100_000, graphemes)
    .arm("tiny", 60_000, 800_000, tiny::cursor)
    .arm("deep", 400, 6_000, tiny::deep)
    .arm("tall", 8, 100, tall)
    .assume("unicode-segmentation applied to the whole contiguous string is the reference for grapheme boundaries")
}
