use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use std::sync::OnceLock;
use xi_unicode::{
    linebreak_property, linebreak_property_str, EmojiExt, LineBreakIterator, LineBreakLeafIter,
};

// ---- the rules of UAX #14, over the classes of the characters (an independent statement of the
// rules, evaluated directly on the whole sequence; LB25 in its pair form, no tailoring) ----
pub const NAMES: [&str; 43] = [
    "XX", "AI", "AL", "B2", "BA", "BB", "BK", "CB", "CL", "CM", "CR", "EX", "GL", "HY", "ID", "IN",
    "IS", "LF", "NS", "NU", "OP", "PO", "PR", "QU", "SA", "SG", "SP", "SY", "ZW", "NL", "WJ", "H2",
    "H3", "JL", "JT", "JV", "CP", "CJ", "HL", "RI", "EB", "EM", "ZWJ",
];
#[allow(non_upper_case_globals)]
mod c {
    macro_rules! cl { ($($n:ident $v:expr,)*) => { $(#[allow(dead_code)] pub const $n: u8 = $v;)* } }
    cl! { XX 0, AI 1, AL 2, B2 3, BA 4, BB 5, BK 6, CB 7, CL 8, CM 9, CR 10, EX 11, GL 12, HY 13, ID 14, IN 15, IS 16, LF 17, NS 18, NU 19,
    OP 20, PO 21, PR 22, QU 23, SA 24, SG 25, SP 26, SY 27, ZW 28, NL 29, WJ 30, H2 31, H3 32, JL 33, JT 34, JV 35, CP 36, CJ 37, HL 38, RI 39,
    EB 40, EM 41, ZWJ 42, }
}
use c::*;

fn resolve(k: u8) -> u8 {
    match k {
        AI | SG | XX | SA => AL, // LB1 (South East Asian dictionaries are not implemented)
        CJ => NS,
        k => k,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    No,
    May,
    Must,
}

/// what stands at the boundary before item i (0 < i), given all classes
pub fn rules(raw: &[u8]) -> Vec<B> {
    let n = raw.len();
    let r: Vec<u8> = raw.iter().map(|&k| resolve(k)).collect();
    // effective class after LB9/LB10, and whether the item is absorbed in its base
    let mut eff = vec![0u8; n];
    let mut absorbed = vec![false; n];
    let mut ri = vec![0usize; n]; // number of RI in the run ending here
    for i in 0..n {
        let k = r[i];
        if k == CM || k == ZWJ {
            let attach = i > 0 && ![BK, CR, LF, NL, SP, ZW].contains(&r[i - 1]);
            if attach {
                eff[i] = eff[i - 1];
                absorbed[i] = true;
                ri[i] = ri[i - 1];
            } else {
                eff[i] = AL;
            }
        } else {
            eff[i] = k;
            if k == RI {
                ri[i] = 1 + if i > 0 && eff[i - 1] == RI {
                    ri[i - 1]
                } else {
                    0
                };
            }
        }
    }
    let mut out = vec![B::No; n];
    for i in 1..n {
        out[i] = boundary(&r, &eff, &absorbed, &ri, i);
    }
    out
}

fn boundary(r: &[u8], eff: &[u8], absorbed: &[bool], ri: &[usize], i: usize) -> B {
    let (a, b) = (r[i - 1], r[i]);
    if a == BK || (a == CR && b != LF) || a == LF || a == NL {
        return B::Must; // LB4, LB5
    }
    if a == CR {
        return B::No; // CR x LF
    }
    if [BK, CR, LF, NL, SP, ZW].contains(&b) {
        return B::No; // LB6, LB7
    }
    // the last non-space item before
    let spaces = r[..i].iter().rev().take_while(|&&k| k == SP).count();
    let before = i.checked_sub(spaces + 1).map(|j| (r[j], eff[j]));
    if let Some((ZW, _)) = before {
        return B::May; // LB8
    }
    if a == ZWJ && [ID, EB, EM].contains(&b) {
        return B::No; // LB8a
    }
    if absorbed[i] {
        return B::No; // LB9
    }
    let x = eff[i - 1];
    let y = eff[i];
    if y == WJ || x == WJ || x == GL {
        return B::No; // LB11, LB12
    }
    if y == GL && ![SP, BA, HY].contains(&x) {
        return B::No; // LB12a
    }
    if [CL, CP, EX, IS, SY].contains(&y) {
        return B::No; // LB13
    }
    if let Some((_, z)) = before {
        if z == OP
            || (z == QU && y == OP)
            || ((z == CL || z == CP) && y == NS)
            || (z == B2 && y == B2)
        {
            return B::No; // LB14 to LB17
        }
    }
    if x == SP {
        return B::May; // LB18
    }
    if x == QU || y == QU {
        return B::No; // LB19
    }
    if x == CB || y == CB {
        return B::May; // LB20
    }
    if [BA, HY, NS].contains(&y) || x == BB {
        return B::No; // LB21
    }
    // LB21a: HL (HY | BA) x
    if x == HY || x == BA {
        let mut j = i - 1;
        while absorbed[j] {
            j -= 1;
        }
        if j > 0 && eff[j - 1] == HL {
            return B::No;
        }
    }
    let al = [AL, HL];
    let id = [ID, EB, EM];
    let hangul = [JL, JV, JT, H2, H3];
    let no = (x == SY && y == HL)
        || (y == IN && (al.contains(&x) || x == EX || id.contains(&x) || x == IN || x == NU))
        || (al.contains(&x) && y == NU)
        || (x == NU && al.contains(&y))
        || (x == PR && id.contains(&y))
        || (id.contains(&x) && y == PO)
        || ((x == PR || x == PO) && al.contains(&y))
        || (al.contains(&x) && (y == PR || y == PO))
        // LB25
        || ((x == CL || x == CP || x == NU) && y == PO)
        || ((x == CP || x == NU) && y == PR)
        || ((x == PO || x == PR) && (y == OP || y == NU))
        || ((x == HY || x == IS || x == NU || x == SY) && y == NU)
        || (x == JL && [JL, JV, H2, H3].contains(&y))
        || ((x == JV || x == H2) && (y == JV || y == JT))
        || ((x == JT || x == H3) && y == JT)
        || (hangul.contains(&x) && (y == IN || y == PO))
        || (x == PR && hangul.contains(&y))
        || (al.contains(&x) && al.contains(&y))
        || (x == IS && al.contains(&y))
        || ((al.contains(&x) || x == NU) && y == OP)
        || (x == CP && (al.contains(&y) || y == NU))
        || (x == RI && y == RI && ri[i - 1] % 2 == 1)
        || (x == EB && y == EM);
    if no {
        B::No
    } else {
        B::May
    }
}

/// breaks of a text by the rules: offset and whether mandatory
fn by_rules(t: &str) -> Vec<(usize, bool)> {
    let ks: Vec<u8> = t.chars().map(linebreak_property).collect();
    let b = rules(&ks);
    let mut out: Vec<(usize, bool)> = t
        .char_indices()
        .zip(&b)
        .filter(|(_, b)| **b != B::No)
        .map(|((i, _), b)| (i, *b == B::Must))
        .collect();
    if let Some(&k) = ks.last() {
        out.push((t.len(), [BK, CR, LF, NL].contains(&k)));
    }
    out
}

/// some characters of every class
fn members() -> &'static Vec<Vec<char>> {
    static M: OnceLock<Vec<Vec<char>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v = vec![Vec::new(); 43];
        for cp in 0..0x110000u32 {
            if let Some(ch) = char::from_u32(cp) {
                let l: &mut Vec<char> = &mut v[linebreak_property(ch) as usize];
                if l.len() < 40 || cp % 997 == 0 {
                    l.push(ch);
                }
            }
        }
        v
    })
}
fn whole(t: &str) -> Vec<(usize, bool)> {
    LineBreakIterator::new(t).collect()
}

/// scanned leaf by leaf from `start`, as the rope cursors do
fn pieces(t: &str, cuts: &[usize], start: usize) -> Vec<(usize, bool)> {
    let mut out = Vec::new();
    if start == t.len() {
        return out;
    }
    let mut b: Vec<usize> = cuts
        .iter()
        .cloned()
        .filter(|&c| c > 0 && c < t.len())
        .collect();
    b.sort();
    b.dedup();
    b.insert(0, 0);
    b.push(t.len());
    let mut k = b
        .windows(2)
        .position(|w| w[0] <= start && start < w[1])
        .unwrap();
    let mut it = LineBreakLeafIter::new(&t[b[k]..b[k + 1]], start - b[k]);
    loop {
        let leaf = &t[b[k]..b[k + 1]];
        let (o, hard) = it.next(leaf);
        if o == leaf.len() {
            k += 1;
            if k + 1 == b.len() {
                return out;
            }
        } else {
            out.push((b[k] + o, hard));
        }
        if out.len() > t.len() + 2 {
            return out;
        }
    }
}

fn text(s: &mut Src) -> String {
    let m = members();
    let n = s.range(0, 14);
    let mut t = String::new();
    let common = [
        SP, SP, ZWJ, CM, RI, HL, HY, BA, OP, QU, EB, EM, ID, CL, B2, ZW, CR, LF, AL, NU,
    ];
    for _ in 0..n {
        let k = match s.weighted(&[3, 3]) {
            0 => *s.pick(&common),
            _ => s.below(43) as u8,
        };
        let v = &m[k as usize];
        if !v.is_empty() {
            let i = if s.chance(1, 2) { 0 } else { s.idx(v.len()) };
            t.push(v[i]);
            if s.chance(1, 8) {
                for _ in 0..s.range(1, 3) {
                    t.push(v[i]);
                }
            }
        }
    }
    t
}

fn names(t: &str) -> String {
    t.chars()
        .map(|c| NAMES[linebreak_property(c) as usize])
        .collect::<Vec<_>>()
        .join(" ")
}

fn judge(t: &str) -> R {
    let (got, want) = (whole(t), by_rules(t));
    ensure!(
        got == want,
        "breaks",
        "{} [{}]: reports {:?}, the rules give {:?}",
        show(t),
        names(t),
        got,
        want
    );
    Ok(())
}

/// random texts over all classes, whole, cut and resumed
fn texts(s: &mut Src) -> R {
    let t = text(s);
    s.log(|| format!("{} [{}]", show(&t), names(&t)));
    judge(&t)?;
    let full = whole(&t);
    if full.len() > 2 && t.chars().count() > full.len() {
        s.nontrivial();
    }
    let cuts: Vec<usize> = (0..s.range(0, 4)).map(|_| offset(s, &t)).collect();
    s.log(|| format!("cuts {:?}", cuts));
    let inner: Vec<(usize, bool)> = full.iter().cloned().filter(|b| b.0 < t.len()).collect();
    let got = pieces(&t, &cuts, 0);
    ensure!(
        got == inner,
        "pieces",
        "cut at {:?} reports {:?}, whole {:?}",
        cuts,
        got,
        inner
    );
    // resumed at every break
    for (i, b) in inner.iter().enumerate() {
        let got = pieces(&t, &cuts, b.0);
        ensure!(
            got == inner[i + 1..],
            "resumed",
            "resumed at {} (cuts {:?}) reports {:?}, whole {:?}",
            b.0,
            cuts,
            got,
            &inner[i + 1..]
        );
        let tail: Vec<(usize, bool)> = whole(&t[b.0..]).iter().map(|x| (x.0 + b.0, x.1)).collect();
        ensure!(
            tail == full[i + 1..],
            "resumed-string",
            "the text from {} reports {:?}, whole {:?}",
            b.0,
            tail,
            &full[i + 1..]
        );
    }
    // a copied iterator goes on by itself
    let mut a = LineBreakIterator::new(&t);
    for _ in 0..s.range(0, 3) {
        a.next();
    }
    let b = a;
    ensure_eq!(a.collect::<Vec<_>>(), b.collect::<Vec<_>>(), "copy");
    Ok(())
}

/// every sequence of four classes with the two drawn first
fn four(s: &mut Src) -> R {
    let m = members();
    let (a, b) = (s.idx(43), s.idx(43));
    s.nontrivial();
    let ch = |k: usize, s: &mut Src| {
        if m[k].is_empty() {
            None
        } else {
            let i = s.idx(m[k].len());
            Some(m[k][i])
        }
    };
    let (Some(x), Some(y)) = (ch(a, s), ch(b, s)) else {
        return Ok(());
    };
    for c in 0..43 {
        let Some(&z) = m[c].first() else { continue };
        for d in 0..43 {
            let Some(&w) = m[d].last() else { continue };
            judge(&[x, y, z, w].iter().collect::<String>())?;
        }
    }
    Ok(())
}

struct Ucd {
    class: Vec<u8>,
    emoji: Vec<bool>,
    base: Vec<bool>,
}
fn ucd() -> &'static Ucd {
    static U: OnceLock<Ucd> = OnceLock::new();
    U.get_or_init(|| {
        let mut u = Ucd {
            class: vec![XX; 0x110000],
            emoji: vec![false; 0x110000],
            base: vec![false; 0x110000],
        };
        for l in include_str!("../data/lb10.txt")
            .lines()
            .filter(|l| !l.starts_with('#'))
        {
            let f: Vec<&str> = l.split(' ').collect();
            let (a, b) = (
                usize::from_str_radix(f[0], 16).unwrap(),
                usize::from_str_radix(f[1], 16).unwrap(),
            );
            for c in a..=b {
                match f[2] {
                    "+E" => u.emoji[c] = true,
                    "+B" => u.base[c] = true,
                    k => u.class[c] = NAMES.iter().position(|n| *n == k).unwrap() as u8,
                }
            }
        }
        u
    })
}

/// a run of code points: classes and emoji properties against the character database
fn table(s: &mut Src) -> R {
    let u = ucd();
    let start = s.below(0x110) as u32 * 0x1000;
    s.nontrivial();
    let pre = *s.pick(&["", "a", "é", "漢", "😀"]);
    for cp in start..start + 0x1000 {
        let Some(ch) = char::from_u32(cp) else {
            continue;
        };
        let k = linebreak_property(ch);
        ensure!(
            k == u.class[cp as usize],
            "class",
            "U+{:04X} has class {}, not {}",
            cp,
            NAMES.get(k as usize).unwrap_or(&"?"),
            NAMES[u.class[cp as usize] as usize]
        );
        let mut t = String::from(pre);
        t.push(ch);
        let r = linebreak_property_str(&t, pre.len());
        ensure!(
            r == (k, ch.len_utf8()),
            "class-str",
            "U+{:04X} in a string has class {:?}, not {:?}",
            cp,
            r,
            (k, ch.len_utf8())
        );
        ensure!(
            ch.is_emoji() == u.emoji[cp as usize],
            "emoji",
            "U+{:04X}: is_emoji {}",
            cp,
            ch.is_emoji()
        );
        ensure!(
            ch.is_emoji_modifier_base() == u.base[cp as usize],
            "emoji-base",
            "U+{:04X}: is_emoji_modifier_base {}",
            cp,
            ch.is_emoji_modifier_base()
        );
        let sets = [
            (
                ch.is_regional_indicator_symbol(),
                (0x1f1e6..=0x1f1ff).contains(&cp),
            ),
            (ch.is_emoji_modifier(), (0x1f3fb..=0x1f3ff).contains(&cp)),
            (ch.is_emoji_combining_enclosing_keycap(), cp == 0x20e3),
            (ch.is_tag_spec_char(), (0xe0020..=0xe007e).contains(&cp)),
            (ch.is_emoji_cancel_tag(), cp == 0xe007f),
            (ch.is_zwj(), cp == 0x200d),
            (
                xi_unicode::is_variation_selector(ch),
                (0xfe00..=0xfe0f).contains(&cp) || (0xe0100..=0xe01ef).contains(&cp),
            ),
            (
                xi_unicode::is_keycap_base(ch),
                (0x30..=0x39).contains(&cp) || cp == 0x23 || cp == 0x2a,
            ),
        ];
        for (i, (g, w)) in sets.iter().enumerate() {
            ensure!(g == w, "set", "U+{:04X}: predicate {} says {}", cp, i, g);
        }
    }
    Ok(())
}

pub fn check() -> Check {
    Check::new("U01", "texts with several breaks and at least one place without; class tuples; runs of code points")
        .arm("texts", 400_000, 20_000_000, texts)
        .arm("four", 6_000, 60_000, four)
        .arm("table", 2_000, 8_000, table)
}
