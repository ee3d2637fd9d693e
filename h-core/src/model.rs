//! Plain-string meaning of positions, movements and edits: the reference for the editor.
use unicode_segmentation::UnicodeSegmentation;

pub type Sel = Vec<(usize, usize)>;
/// replacements in document order, not overlapping
pub type Edits = Vec<(usize, usize, String)>;

pub fn prev_g(t: &str, p: usize) -> Option<usize> {
    if p == 0 {
        return None;
    }
    Some(
        t.grapheme_indices(true)
            .map(|x| x.0)
            .take_while(|&i| i < p)
            .last()
            .unwrap_or(0),
    )
}
pub fn next_g(t: &str, p: usize) -> Option<usize> {
    if p >= t.len() {
        return None;
    }
    Some(
        t.grapheme_indices(true)
            .map(|x| x.0)
            .find(|&i| i > p)
            .unwrap_or(t.len()),
    )
}
/// the last grapheme boundary at or before p
pub fn snap(t: &str, p: usize) -> usize {
    if p >= t.len() {
        return t.len();
    }
    t.grapheme_indices(true)
        .map(|x| x.0)
        .take_while(|&i| i <= p)
        .last()
        .unwrap_or(0)
}
pub fn is_g(t: &str, p: usize) -> bool {
    p == t.len() || t.grapheme_indices(true).any(|x| x.0 == p)
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Class {
    Lf,
    Space,
    Punct,
    Word,
}
pub fn class(c: char) -> Class {
    if c == '\n' {
        Class::Lf
    } else if c <= ' ' {
        Class::Space
    } else if c.is_ascii_punctuation() && c != '_' {
        Class::Punct
    } else {
        Class::Word
    }
}
fn before(t: &str, p: usize) -> Option<Class> {
    t[..p].chars().next_back().map(class)
}
fn after(t: &str, p: usize) -> Option<Class> {
    t[p..].chars().next().map(class)
}
/// a word (or run of punctuation) ends here
pub fn word_end(t: &str, p: usize) -> bool {
    use Class::*;
    match (before(t, p), after(t, p)) {
        (_, None) | (Some(Lf), _) | (_, Some(Lf)) => true,
        (Some(Word), Some(Space)) | (Some(Punct), Some(Space)) | (Some(Word), Some(Punct)) => true,
        _ => false,
    }
}
/// a word (or run of punctuation) starts here
pub fn word_start(t: &str, p: usize) -> bool {
    use Class::*;
    match (before(t, p), after(t, p)) {
        (None, _) | (Some(Lf), _) | (_, Some(Lf)) => true,
        (Some(Space), Some(Word)) | (Some(Space), Some(Punct)) | (Some(Punct), Some(Word)) => true,
        _ => false,
    }
}
/// the end of the next word, without splitting a character
pub fn next_word(t: &str, p: usize) -> usize {
    ceil(
        t,
        (p + 1..=t.len())
            .find(|&q| t.is_char_boundary(q) && word_end(t, q))
            .unwrap_or(t.len()),
    )
}
pub fn prev_word(t: &str, p: usize) -> usize {
    snap(
        t,
        (0..p)
            .rev()
            .find(|&q| t.is_char_boundary(q) && word_start(t, q))
            .unwrap_or(0),
    )
}

/// start of the hard line containing p
pub fn bol(t: &str, p: usize) -> usize {
    t[..p].rfind('\n').map(|i| i + 1).unwrap_or(0)
}
/// end of the hard line containing p, before its newline or CRLF (or the cluster the newline is in)
pub fn eol(t: &str, p: usize) -> usize {
    match t[p..].find('\n') {
        Some(i) => prev_g(t, p + i + 1).unwrap_or(0),
        None => t.len(),
    }
}
pub fn line_no(t: &str, p: usize) -> usize {
    t[..p].matches('\n').count()
}
pub fn line_starts(t: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(t.match_indices('\n').map(|x| x.0 + 1));
    v
}
/// the offset of a line and byte column: on a cluster boundary, not past the line's end
pub fn at_line_col(t: &str, starts: &[usize], line: usize, col: usize) -> usize {
    if line >= starts.len() {
        return t.len();
    }
    let p = starts[line].saturating_add(col);
    if line + 1 == starts.len() {
        return snap(t, p.min(t.len()));
    }
    if p >= starts[line + 1] {
        return prev_g(t, starts[line + 1]).unwrap_or(0);
    }
    snap(t, p)
}
pub fn line_of(starts: &[usize], p: usize) -> usize {
    starts.iter().take_while(|&&s| s <= p).count() - 1
}

pub fn span(r: (usize, usize)) -> (usize, usize) {
    (r.0.min(r.1), r.0.max(r.1))
}

pub fn apply(t: &str, e: &Edits) -> String {
    let mut o = String::new();
    let mut at = 0;
    for (a, b, s) in e {
        assert!(at <= *a && a <= b, "model: edits out of order {:?}", e);
        o.push_str(&t[at..*a]);
        o.push_str(s);
        at = *b;
    }
    o.push_str(&t[at..]);
    o
}

/// union of ranges: overlapping ones joined; empty ones dropped
pub fn union(mut v: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    v.retain(|r| r.0 < r.1);
    v.sort();
    let mut o: Vec<(usize, usize)> = vec![];
    for r in v {
        match o.last_mut() {
            Some(l) if r.0 < l.1 => l.1 = l.1.max(r.1),
            _ => o.push(r),
        }
    }
    o
}

/// where p goes; text put exactly at p stays before it if `past`
pub fn carried(e: &Edits, p: usize, past: bool) -> usize {
    let mut shift: isize = 0;
    for (a, b, s) in e {
        if p < *a || (p == *a && !past) {
            break;
        }
        if p > *b || p == *b {
            shift += s.len() as isize - (b - a) as isize;
            continue;
        }
        return (*a as isize + shift) as usize + if past { s.len() } else { 0 };
    }
    (p as isize + shift) as usize
}

/// regions joined as the editor joins them; order of ends is the first one's
pub fn joined(v: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    let mut m: Vec<(usize, usize)> = vec![];
    let meets = |a: (usize, usize), b: (usize, usize)| {
        if a.0 == a.1 || b.0 == b.1 {
            a.0 <= b.1 && b.0 <= a.1
        } else {
            a.0 < b.1 && b.0 < a.1
        }
    };
    for r in v {
        let mut cur = span(r);
        while let Some(i) = m.iter().position(|&x| meets(x, cur)) {
            let x = m.remove(i);
            cur = (x.0.min(cur.0), x.1.max(cur.1));
        }
        m.push(cur);
        m.sort();
    }
    m
}

/// the first grapheme boundary at or after p
pub fn ceil(t: &str, p: usize) -> usize {
    if is_g(t, p) {
        p
    } else {
        next_g(t, p).unwrap_or(t.len())
    }
}
