use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use regex::RegexBuilder;
use xi_rope::compare::{ne_idx, ne_idx_rev, RopeScanner};
use xi_rope::find::{find, find_progress, is_multiline_regex, CaseMatching, FindResult};
use xi_rope::{Cursor, Rope};

fn lower(t: &str) -> Vec<char> {
    t.chars().flat_map(char::to_lowercase).collect()
}

/// first match at a char boundary at or after p
fn scan(text: &str, p: usize, pat: &str, insensitive: bool) -> Option<(usize, usize)> {
    if pat.is_empty() {
        return None;
    }
    if !insensitive {
        return text[p..].find(pat).map(|i| (p + i, p + i + pat.len()));
    }
    let want = lower(pat);
    let tail = &text[p..];
    for (i, _) in tail.char_indices() {
        let mut k = 0;
        'm: for (j, c) in tail[i..].char_indices() {
            for l in c.to_lowercase() {
                if l != want[k] {
                    break 'm;
                }
                k += 1;
                if k == want.len() {
                    return Some((p + i, p + i + j + c.len_utf8()));
                }
            }
        }
    }
    None
}

fn scan_regex(text: &str, p: usize, re: &regex::Regex, multi: bool) -> Option<(usize, usize)> {
    // the whole rest, or one line (with its terminator) after the other
    if p == text.len() {
        return None;
    }
    if multi {
        return re.find(&text[p..]).map(|m| (p + m.start(), p + m.end()));
    }
    // a line is matched as a line, also when the scan begins in the middle of it
    let mut at = p;
    while at < text.len() {
        let b = text[..at].rfind('\n').map_or(0, |i| i + 1);
        let e = text[at..].find('\n').map_or(text.len(), |i| at + i + 1);
        if let Some(m) = re.find_at(&text[b..e], at - b) {
            return Some((b + m.start(), b + m.end()));
        }
        at = e;
    }
    None
}

const LETTERS: &[&str] = &[
    "a", "A", "b", "B", "k", "K", "\u{212a}", "i", "I", "İ", "ı", "é", "É", "e", "E", "ß", "ẞ",
    "σ", "ς", "Σ", "ǆ", "Ǆ", "ǅ", "漢", "😀", "𐐀", "𐐨", " ", "\n", "\r\n", ".", "1", "\u{307}",
    "å", "Å", "Å",
];

fn word(s: &mut Src, max: usize) -> String {
    let n = s.range(0, max);
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(*s.pick(LETTERS));
    }
    o
}

fn flip(s: &mut Src, t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match s.below(3) {
            0 => o.push(c),
            1 => o.extend(c.to_uppercase()),
            _ => o.extend(c.to_lowercase()),
        }
    }
    o
}

/// small leaves: the text put together from pieces, so that candidates straddle them
fn cut_rope(s: &mut Src, t: &str) -> Rope {
    match s.below(3) {
        0 => Rope::from(t),
        1 => {
            let k = offset(s, t);
            Rope::from(&t[..k]) + Rope::from(&t[k..])
        }
        _ => {
            // a large filler in front is cut into leaves at a known place, then removed
            let f = "x".repeat(s.range(480, 1040));
            let mut r = Rope::from(format!("{}{}", f, t));
            r.edit(0..f.len(), "");
            r
        }
    }
}

fn hay(s: &mut Src, pat: &str) -> String {
    let mut t = String::new();
    if s.chance(1, 3) {
        t.push_str(&piece(s));
    }
    for _ in 0..s.range(0, 6) {
        match s.below(5) {
            0 => t.push_str(pat),
            1 => {
                let f = flip(s, pat);
                t.push_str(&f);
            }
            2 => {
                let e = offset(s, pat);
                t.push_str(&pat[..e]);
            }
            3 => {
                let n = s.range(505, 520);
                let f = *s.pick(&["x", "é", "a", "\n"]);
                while t.len() % 512 != n % 512 && t.len() < 6000 {
                    t.push_str(f);
                    if t.len() % 512 > n {
                        break;
                    }
                }
            }
            _ => {
                let w = word(s, 8);
                t.push_str(&w);
            }
        }
    }
    t
}

fn run(
    s: &mut Src,
    t: &str,
    rope: &Rope,
    pat: &str,
    insensitive: bool,
    re: Option<(&regex::Regex, bool)>,
) -> R {
    let cm = if insensitive {
        CaseMatching::CaseInsensitive
    } else {
        CaseMatching::Exact
    };
    let mut p = offset(s, t);
    let steps = s.range(1, 5);
    for _ in 0..6 {
        s.log(|| {
            format!(
                "from {} cm-insensitive {} pattern {:?} regex {:?} in {}",
                p,
                insensitive,
                pat,
                re.map(|r| r.0.as_str()),
                show(t)
            )
        });
        let want = match re {
            None => scan(t, p, pat, insensitive),
            Some((r, multi)) => scan_regex(t, p, r, multi),
        };
        let mut c = Cursor::new(rope, p);
        let mut lines = rope.lines_raw(p..);
        let got = find(&mut c, &mut lines, cm, pat, re.map(|r| r.0)).map(|b| (b, c.pos()));
        ensure!(
            got == want,
            "match",
            "from {}: found {:?}, a scan finds {:?}",
            p,
            got,
            want
        );
        // bounded steps
        let mut c = Cursor::new(rope, p);
        let mut lines = rope.lines_raw(p..);
        let mut last = p;
        let mut turns = 0;
        let got = loop {
            turns += 1;
            ensure!(
                turns < 4 * t.len() + 20,
                "no-progress",
                "no result after {} calls of {} steps",
                turns,
                steps
            );
            match find_progress(&mut c, &mut lines, cm, pat, steps, re.map(|r| r.0)) {
                FindResult::Found(b) => break Some((b, c.pos())),
                FindResult::NotFound => break None,
                FindResult::TryAgain => {
                    ensure!(
                        c.pos() >= last,
                        "step-back",
                        "the cursor went from {} to {}",
                        last,
                        c.pos()
                    );
                    last = c.pos();
                    if let Some((b, _)) = want {
                        ensure!(
                            c.pos() <= b,
                            "past-match",
                            "stopped at {} past the match at {}",
                            c.pos(),
                            b
                        );
                    }
                }
            }
        };
        ensure!(
            got == want,
            "stepped-match",
            "in steps of {}: found {:?}, a scan finds {:?}",
            steps,
            got,
            want
        );
        match want {
            None => break,
            Some((b, e)) => {
                s.nontrivial();
                // next one, from the end of this match, or just after its start
                p = if s.bool() && e > p {
                    e
                } else {
                    b + t[b..].chars().next().map_or(1, char::len_utf8)
                };
                if p > t.len() || !t.is_char_boundary(p) {
                    break;
                }
            }
        }
    }
    Ok(())
}

fn strings(s: &mut Src) -> R {
    let mut pat = word(s, 4);
    if s.chance(1, 6) {
        pat.push_str(&"ab".repeat(s.range(1, 400)));
    }
    let t = hay(s, &pat);
    let rope = cut_rope(s, &t);
    let ins = s.chance(2, 3);
    let pat = if s.chance(1, 3) { flip(s, &pat) } else { pat };
    run(s, &t, &rope, &pat, ins, None)
}

fn regexes(s: &mut Src) -> R {
    let pats = [
        "a",
        "a+",
        "a*",
        "[ab]+",
        "b$",
        "^a",
        "^",
        "$",
        "a|b+",
        "\\w+",
        "\\s+",
        "[^a]+",
        ".",
        ".*",
        "é+",
        "(a|b)\\n",
        "\\n",
        "\\r\\n",
        "[[:space:]]+",
        "a[[:space:]]b",
        "\\bk",
        "漢.",
        "x{3}",
        "İ",
        "k\\n+i",
    ];
    let pat = if s.chance(1, 5) {
        let mut q = word(s, 2);
        q.retain(|c| c.is_alphanumeric());
        q.push_str("+");
        if q == "+" {
            "a+".into()
        } else {
            q
        }
    } else {
        s.pick(&pats).to_string()
    };
    let ins = s.bool();
    let re = RegexBuilder::new(&pat).case_insensitive(ins).build();
    let re = match re {
        Ok(r) => r,
        Err(_) => return Ok(()),
    };
    let t = hay(s, "ab\nkéi");
    let rope = cut_rope(s, &t);
    let multi = pat.contains("\\n") || pat.contains("\\r") || pat.contains("[[:space:]]");
    ensure_eq!(is_multiline_regex(&pat), multi, "multiline");
    run(s, &t, &rope, &pat, ins, Some((&re, multi)))
}

/// Small repetitive texts exactly at a chunk boundary, patterns made of the same few
/// letters: comparisons that fail behind the boundary and matches that start before it.
fn straddle(s: &mut Src) -> R {
    let sets: [&[&str]; 6] = [
        &["a", "b"],
        &["a", "A"],
        &["a", "b", "\n"],
        &["é", "è", "É"],
        &["漢", "字", "a"],
        &["K", "\u{212a}", "k", "i"],
    ];
    let set = *s.pick(&sets);
    let mut word =
        |s: &mut Src, lo, hi| -> String { (0..s.range(lo, hi)).map(|_| *s.pick(set)).collect() };
    let (before, after) = (word(s, 0, 8), word(s, 0, 8));
    let pat = word(s, 1, 7);
    let third = if s.chance(1, 4) {
        Some(word(s, 0, 4))
    } else {
        None
    };
    let pad = "q".repeat(s.range(600, 900));
    let mut b = xi_rope::tree::TreeBuilder::<xi_rope::RopeInfo>::new();
    let mut t = format!("{}{}", pad, before);
    b.push_leaf(t.clone());
    let mut second = format!("{}{}", after, pad);
    if let Some(third) = third {
        second.push_str(&word(s, 0, 4));
        b.push_leaf(second.clone());
        t.push_str(&second);
        second = format!("{}{}", third, pad);
    }
    b.push_leaf(second.clone());
    t.push_str(&second);
    let rope = b.build();
    let insensitive = s.bool();
    let from = pad.len() + bound(&before, s.range(0, before.len()));
    s.log(|| {
        format!(
            "pattern {:?} insensitive {} from {} chunks {:?} text {}",
            pat,
            insensitive,
            from,
            chunks(&rope),
            show(&t)
        )
    });
    let cm = if insensitive {
        CaseMatching::CaseInsensitive
    } else {
        CaseMatching::Exact
    };
    let mut p = from;
    for _ in 0..12 {
        let want = scan(&t, p, &pat, insensitive);
        let mut c = Cursor::new(&rope, p);
        let mut lines = rope.lines_raw(p..);
        let got = find(&mut c, &mut lines, cm, &pat, None).map(|b| (b, c.pos()));
        ensure!(
            got == want,
            "match",
            "from {}: found {:?}, a scan finds {:?}",
            p,
            got,
            want
        );
        match want {
            None => break,
            Some((b, _)) => {
                s.nontrivial();
                p = b + t[b..].chars().next().map_or(1, char::len_utf8);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- comparison
/// a buffer that ends right before, or starts right after, an inaccessible page
struct Guarded {
    base: *mut u8,
    at: usize,
    len: usize,
}
impl Guarded {
    fn new(data: &[u8], at_end: bool) -> Guarded {
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                3 * 4096,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(base as isize != -1);
            assert!(
                libc::mprotect(
                    base.add(4096) as *mut _,
                    4096,
                    libc::PROT_READ | libc::PROT_WRITE
                ) == 0
            );
            let at = if at_end { 8192 - data.len() } else { 4096 };
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(at), data.len());
            Guarded {
                base,
                at,
                len: data.len(),
            }
        }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.at), self.len) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, 3 * 4096);
        }
    }
}

fn bytes(s: &mut Src) -> R {
    let n = s.range(0, 140);
    let m = if s.bool() { n } else { s.range(0, 140) };
    let mut rng = s.bulk_rng();
    let alpha = s.range(1, 3) as u64;
    let mut a: Vec<u8> = (0..n).map(|_| (rng.next() % alpha) as u8 * 0x7f).collect();
    let mut b: Vec<u8> = match s.below(3) {
        0 => (0..m).map(|_| (rng.next() % alpha) as u8 * 0x7f).collect(),
        1 => {
            let mut b = a.clone();
            b.resize(m, 1);
            b
        }
        _ => {
            // common tail
            let mut b: Vec<u8> = vec![3; m];
            let k = n.min(m);
            b[m - k..].copy_from_slice(&a[n - k..]);
            b
        }
    };
    if !b.is_empty() && s.bool() {
        let i = s.idx(b.len());
        b[i] ^= 1 << s.below(8);
    }
    if !a.is_empty() && s.chance(1, 4) {
        let i = s.idx(a.len());
        a[i] ^= 0x80;
    }
    let (g, h) = (Guarded::new(&a, s.bool()), Guarded::new(&b, s.bool()));
    s.log(|| format!("{:?} / {:?}", a, b));
    let want = a.iter().zip(&b).position(|(x, y)| x != y);
    let wantr = a.iter().rev().zip(b.iter().rev()).position(|(x, y)| x != y);
    if want.is_some() && want != wantr {
        s.nontrivial();
    }
    ensure_eq!(ne_idx(g.get(), h.get()), want, "forward");
    ensure_eq!(ne_idx_rev(g.get(), h.get()), wantr, "backward");
    #[cfg(target_arch = "x86_64")]
    unsafe {
        use xi_rope::compare::*;
        if is_x86_feature_detected!("sse4.2") {
            ensure_eq!(ne_idx_sse(g.get(), h.get()), want, "forward-sse");
            ensure_eq!(ne_idx_rev_sse(g.get(), h.get()), wantr, "backward-sse");
        }
        if is_x86_feature_detected!("avx2") {
            ensure_eq!(ne_idx_avx(g.get(), h.get()), want, "forward-avx");
        }
        ensure_eq!(ne_idx_fallback(g.get(), h.get()), want, "forward-plain");
        ensure_eq!(
            ne_idx_rev_fallback(g.get(), h.get()),
            wantr,
            "backward-plain"
        );
    }
    Ok(())
}

/// length of the common prefix / suffix in whole characters
fn prefix(a: &str, b: &str) -> usize {
    a.chars()
        .zip(b.chars())
        .take_while(|(x, y)| x == y)
        .map(|(x, _)| x.len_utf8())
        .sum()
}
fn suffix(a: &str, b: &str) -> usize {
    a.chars()
        .rev()
        .zip(b.chars().rev())
        .take_while(|(x, y)| x == y)
        .map(|(x, _)| x.len_utf8())
        .sum()
}

fn texts(s: &mut Src) -> R {
    let (mut ra, a) = layout(s, 3);
    let mut b = a.clone();
    let near = *s.pick(&[
        "é",
        "è",
        "漢",
        "宇",
        "😀",
        "🙀",
        "ā",
        "\u{100}",
        "a",
        "ᄀ",
        "\u{10000}",
    ]);
    for _ in 0..s.range(0, 2) {
        let (i, j) = range(s, &b);
        let w = if s.bool() {
            near.to_string()
        } else {
            short(s, 2)
        };
        if s.bool() {
            b.replace_range(i..j, &w);
        } else {
            b.insert_str(i, &w);
        }
    }
    let rb = if s.bool() {
        Rope::from(&b)
    } else {
        cut_rope(s, &b)
    };
    if s.chance(1, 4) {
        let at = offset(s, &a);
        ra.edit(at..at, near);
        let mut a2 = a.clone();
        a2.insert_str(at, near);
        return compare(s, &ra, &a2, &rb, &b);
    }
    compare(s, &ra, &a, &rb, &b)
}

fn compare(s: &mut Src, ra: &Rope, a: &str, rb: &Rope, b: &str) -> R {
    s.log(|| {
        format!(
            "{} chunks {:?} / {} chunks {:?}",
            show(a),
            chunks(ra),
            show(b),
            chunks(rb)
        )
    });
    let mut sc = RopeScanner::new(ra, rb);
    for _ in 0..4 {
        let (i, j) = (offset(s, a), offset(s, b));
        let (i, j) = match s.below(4) {
            0 => (0, 0),
            1 => (a.len(), b.len()),
            2 => {
                let k = offset(s, a).min(b.len());
                (bound(a, k), bound(b, k))
            }
            _ => (i, j),
        };
        let (f, r) = (prefix(&a[i..], &b[j..]), suffix(&a[..i], &b[..j]));
        if f > 0 && r > 0 {
            s.nontrivial();
        }
        s.log(|| format!("from {} / {}", i, j));
        ensure_eq!(sc.find_ne_char(i, j, None), f, "prefix", "from {}/{}", i, j);
        ensure_eq!(
            sc.find_ne_char_back(i, j, None),
            r,
            "suffix",
            "from {}/{}",
            i,
            j
        );
        let stop = s.range(0, 2 * f + 2);
        ensure_eq!(
            sc.find_ne_char(i, j, stop),
            f.min(stop),
            "prefix-stop",
            "from {}/{} stop {}",
            i,
            j,
            stop
        );
        let stop = s.range(0, 2 * r + 2);
        ensure_eq!(
            sc.find_ne_char_back(i, j, stop),
            r.min(stop),
            "suffix-stop",
            "from {}/{} stop {}",
            i,
            j,
            stop
        );
    }
    let f = prefix(a, b);
    let r = suffix(&a[f..], &b[f..]);
    ensure_eq!(
        RopeScanner::new(ra, rb).find_min_diff_range(),
        (f, r),
        "diff-range"
    );
    Ok(())
}

pub fn check() -> Check {
    Check::new("R12", "searches that find something; byte strings whose first and last difference are not the same distance in; texts equal around the start position")
        .arm("strings", 30_000, 1_500_000, strings)
        .arm("regexes", 15_000, 700_000, regexes)
        .arm("straddle", 60_000, 3_000_000, straddle)
        .arm("bytes", 40_000, 3_000_000, bytes)
        .arm("texts", 20_000, 800_000, texts)
}
