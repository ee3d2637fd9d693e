//! Text and layout generators shared by the rope checks.
use pbt::Src;
use xi_rope::tree::TreeBuilder;
use xi_rope::Rope;

pub const SPECIAL: &[&str] = &[
    "a",
    "b",
    "\n",
    " ",
    "\r\n",
    "\r",
    "\t",
    "é",
    "ß",
    "漢",
    "字",
    "😀",
    "👩\u{200d}👧",
    "e\u{301}",
    "\u{301}",
    "\u{200d}",
    "🇫🇷",
    "🇫",
    "👍🏽",
    "\u{fe0f}",
    "한",
    "\u{1100}",
    "\u{1161}",
    "\u{11a8}",
    "\u{2028}",
    "\u{85}",
    "\u{b}",
    "\u{0}",
    "Z",
    "ſ",
    "K",
    "İ",
];

/// a short string over the special alphabet
pub fn short(s: &mut Src, max: usize) -> String {
    let n = s.range(0, max);
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(*s.pick(SPECIAL));
    }
    o
}

/// ascii-ish short string (fast to read)
pub fn ascii(s: &mut Src, max: usize) -> String {
    let n = s.range(0, max);
    (0..n)
        .map(|_| *s.pick(&['a', 'b', 'c', '\n', ' ', 'x']))
        .collect()
}

fn filler_len(s: &mut Src) -> usize {
    match s.weighted(&[4, 3, 3, 2]) {
        0 => s.range(0, 12),
        1 => s.range(500, 522),
        2 => s.range(1012, 1036),
        _ => s.range(13, 1500),
    }
}

/// one piece: special prefix, filler run, special suffix
pub fn piece(s: &mut Src) -> String {
    let mut o = short(s, 3);
    let n = filler_len(s);
    let f: &str = *s.pick(&[
        "a",
        "ab",
        "a\n",
        "é",
        "aaaaaaa\n",
        "漢",
        "\r\n",
        "😀",
        "x y",
        "\u{301}",
        "🇫",
        "👩\u{200d}",
    ]);
    while o.len() < n {
        o.push_str(f);
    }
    let t = short(s, 3);
    o.push_str(&t);
    o
}

pub fn bound(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// a char-boundary offset of `t`, biased to the ends
pub fn offset(s: &mut Src, t: &str) -> usize {
    match s.weighted(&[1, 1, 8]) {
        0 => 0,
        1 => t.len(),
        _ => {
            let i = s.range(0, t.len());
            bound(t, i)
        }
    }
}

pub fn range(s: &mut Src, t: &str) -> (usize, usize) {
    let a = offset(s, t);
    let b = match s.weighted(&[2, 3, 4]) {
        0 => a,
        1 => {
            let d = s.range(0, 6);
            bound(t, a + d)
        }
        _ => offset(s, t),
    };
    (a.min(b), a.max(b))
}

/// Assemble a rope out of pieces through different construction routes.
pub fn layout(s: &mut Src, maxpieces: usize) -> (Rope, String) {
    let n = s.range(0, maxpieces);
    let mut rope = Rope::default();
    let mut model = String::new();
    for _ in 0..n {
        let p = piece(s);
        match s.below(6) {
            0 | 1 => {
                rope = rope + Rope::from(&p);
                model.push_str(&p);
            }
            2 => {
                let mut b = TreeBuilder::new();
                b.push(rope);
                b.push_str(&p);
                rope = b.build();
                model.push_str(&p);
            }
            3 => {
                let at = offset(s, &model);
                rope.edit(at..at, Rope::from(&p));
                model.insert_str(at, &p);
            }
            4 => {
                let q = Rope::from(&p);
                let mut b = TreeBuilder::new();
                b.push(q);
                b.push(rope);
                rope = b.build();
                model = p + &model;
            }
            _ => {
                let (x, y) = range(s, &model);
                rope.edit(x..y, p.as_str());
                model.replace_range(x..y, &p);
            }
        }
    }
    (rope, model)
}

pub fn show(t: &str) -> String {
    // run-length rendering
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let mut best = (1, 1);
        for p in 1..=8 {
            let mut k = 1;
            while i + (k + 1) * p <= cs.len() && cs[i + k * p..i + (k + 1) * p] == cs[i..i + p] {
                k += 1;
            }
            if k * p > best.0 * best.1 && k > 3 {
                best = (p, k);
            }
        }
        let seg: String = cs[i..i + best.0].iter().collect();
        if best.1 > 3 {
            o.push_str(&format!("({})x{}", seg.escape_debug(), best.1));
            i += best.0 * best.1;
        } else {
            o.push_str(&cs[i].escape_debug().to_string());
            i += 1;
        }
        if o.len() > 600 {
            o.push_str("…");
            break;
        }
    }
    o
}
pub fn chunks(r: &Rope) -> Vec<usize> {
    r.iter_chunks(..).map(str::len).collect()
}
