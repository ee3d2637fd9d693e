//! C11: backspace removes one user-perceived unit.
use crate::drive::Driver;
use crate::text;
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use xi_core_lib::backspace::offset_for_delete_backwards;
use xi_core_lib::config::BufferItems;
use xi_core_lib::selection::SelRegion;
use xi_rope::Rope;

pub fn check() -> Check {
    Check::new(
        "C11",
        "the unit before the caret has several code points, or the text is arbitrary",
    )
    .arm("units", 120_000, 2_000_000, units)
    .arm("arbitrary", 80_000, 1_000_000, arbitrary)
    .arm("command", 1_500, 60_000, command)
}

const BASE: &[char] = &['👩', '👨', '👍', '🧑', '☝', '👶', '🤘', '💪', '🏃', '👮'];
const EMO: &[char] = &[
    '😀', '❤', '💋', '🔥', '🌈', '🏳', '⚕', '♂', '👁', '🗨', '🐻', '❄', '🦰', '💼', '🍳', '☠',
];
const MODS: &[char] = &['🏻', '🏼', '🏽', '🏾', '🏿'];
const VS: &[char] = &['\u{fe0f}', '\u{fe0e}', '\u{e0100}', '\u{fe00}'];

fn ri(s: &mut Src) -> char {
    char::from_u32(0x1f1e6 + s.below(26) as u32).unwrap()
}

fn elem(s: &mut Src) -> String {
    let mut o = String::new();
    match s.below(4) {
        0 => o.push(*s.pick(EMO)),
        1 => {
            o.push(*s.pick(EMO));
            o.push('\u{fe0f}');
        }
        2 => {
            o.push(*s.pick(BASE));
            o.push(*s.pick(MODS));
        }
        _ => o.push(*s.pick(BASE)),
    }
    o
}

/// a complete unit, its kind
fn unit(s: &mut Src) -> (String, &'static str) {
    let mut o = String::new();
    let k = match s.below(11) {
        0 => {
            o.push(*s.pick(&[
                'a', 'Z', '5', '#', '漢', 'é', '\t', '-', 'ß', '\u{301}', 'ﷺ', '한',
            ]));
            "char"
        }
        1 => {
            o.push_str(*s.pick(&["\r\n", "\n", "\r"]));
            "newline"
        }
        2 => {
            o.push(ri(s));
            o.push(ri(s));
            "flag"
        }
        3 => {
            o.push(*s.pick(&['0', '1', '5', '9', '#', '*']));
            if s.bool() {
                o.push(*s.pick(VS));
            }
            o.push('\u{20e3}');
            "keycap"
        }
        4 => {
            o.push(*s.pick(BASE));
            if s.chance(1, 4) {
                o.push('\u{fe0f}');
            }
            o.push(*s.pick(MODS));
            "modifier"
        }
        5 => {
            o.push(*s.pick(EMO));
            o.push(*s.pick(VS));
            "vs-emoji"
        }
        6 => {
            o.push(*s.pick(&['a', '漢', '葛', '5', '#', '᠐']));
            o.push(*s.pick(VS));
            "vs-char"
        }
        7 => {
            o.push('🏴');
            for _ in 0..s.range(1, 6) {
                o.push(char::from_u32(0xe0020 + s.below(0x5f) as u32).unwrap());
            }
            o.push('\u{e007f}');
            "tag"
        }
        8 | 9 => {
            o = elem(s);
            for _ in 0..s.range(1, 4) {
                o.push('\u{200d}');
                o.push_str(&elem(s));
            }
            "zwj"
        }
        _ => {
            o.push(*s.pick(EMO));
            "emoji"
        }
    };
    (o, k)
}

/// sequences of complete units whose boundaries are unambiguous
fn unit_text(s: &mut Src, max: usize) -> (String, Vec<(usize, &'static str)>) {
    let mut t = String::new();
    let mut ends = vec![(0, "")];
    let mut prev = "";
    for _ in 0..s.range(1, max) {
        let (u, k) = unit(s);
        // CR then LF is one unit
        if t.ends_with('\r') && u.starts_with('\n') {
            continue;
        }
        let _ = prev;
        t.push_str(&u);
        ends.push((t.len(), k));
        prev = k;
    }
    (t, ends)
}

fn config() -> BufferItems {
    serde_json::from_value(json!({
        "line_ending": "\n", "tab_size": 4, "translate_tabs_to_spaces": false, "use_tab_stops": true,
        "font_face": "x", "font_size": 12.0, "auto_indent": true, "scroll_past_end": false, "wrap_width": 0,
        "word_wrap": false, "autodetect_whitespace": true, "surrounding_pairs": [], "save_with_newline": true
    }))
    .unwrap()
}

fn units(s: &mut Src) -> R {
    let (t, ends) = unit_text(s, 8);
    s.log(|| format!("{:?}", t));
    let r = text_rope(s, &t);
    let cfg = config();
    for w in ends.windows(2) {
        let (a, (b, k)) = (w[0].0, w[1]);
        if t[a..b].chars().count() > 1 {
            s.nontrivial();
            s.label(k);
        }
        let got = offset_for_delete_backwards(&SelRegion::caret(b), &r, &cfg);
        ensure_eq!(
            got,
            a,
            k,
            "backspace at {} in {:?} should remove {:?} ({})",
            b,
            t,
            &t[a..b],
            k
        );
    }
    // a selection is removed as a whole
    let (x, y) = text::range(s, &t);
    if x < y {
        ensure_eq!(
            offset_for_delete_backwards(&SelRegion::new(y, x), &r, &cfg),
            x,
            "selection"
        );
    }
    Ok(())
}

fn text_rope(s: &mut Src, t: &str) -> Rope {
    if s.bool() {
        return Rope::from(t);
    }
    let k = text::offset(s, t);
    Rope::from(&t[..k]) + Rope::from(&t[k..])
}

fn soup(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 14) {
        match s.below(9) {
            0 => t.push(ri(s)),
            1 => t.push(*s.pick(MODS)),
            2 => t.push(*s.pick(VS)),
            3 => t.push('\u{200d}'),
            4 => t.push(*s.pick(BASE)),
            5 => t.push(*s.pick(&['\u{20e3}', '\u{e007f}', '\u{e0067}', '\u{e0030}', '🏴'])),
            6 => t.push(*s.pick(EMO)),
            7 => t.push(*s.pick(&['a', '1', '#', ' ', '漢', '\u{301}', '\0', '\u{10ffff}'])),
            _ => t.push(*s.pick(&['\n', '\r'])),
        }
    }
    t
}

fn arbitrary(s: &mut Src) -> R {
    let t = soup(s);
    s.log(|| format!("{:?}", t));
    s.nontrivial();
    let r = text_rope(s, &t);
    let cfg = config();
    let mut at = t.len();
    while at > 0 {
        let a = offset_for_delete_backwards(&SelRegion::caret(at), &r, &cfg);
        ensure!(
            a < at,
            "no-progress",
            "backspace at {} of {:?} removes nothing",
            at,
            t
        );
        ensure!(
            t.is_char_boundary(a),
            "split",
            "backspace at {} of {:?} cuts a code point at {}",
            at,
            t,
            a
        );
        // the result depends only on the text before the caret
        let b = offset_for_delete_backwards(&SelRegion::caret(at), &Rope::from(&t[..at]), &cfg);
        ensure_eq!(
            a,
            b,
            "context",
            "text after the caret matters: {:?} at {}",
            t,
            at
        );
        at = a;
    }
    ensure_eq!(
        offset_for_delete_backwards(&SelRegion::caret(0), &r, &cfg),
        0,
        "at-start"
    );
    Ok(())
}

/// the delete_backward command, with tab stops
fn command(s: &mut Src) -> R {
    let mut d = Driver::new();
    let v = d.view();
    let (t, ends) = unit_text(s, 6);
    d.edit(&v, "insert", json!({ "chars": t }));
    s.log(|| format!("{:?}", t));
    s.nontrivial();
    for w in ends.windows(2).rev() {
        d.edit(&v, "delete_backward", json!([]));
        ensure_eq!(
            d.text(&v),
            t[..w[0].0].to_string(),
            "command",
            "after backspace over {:?}",
            &t[w[0].0..(w[1].0)]
        );
    }
    d.edit(&v, "delete_backward", json!([]));
    ensure_eq!(d.text(&v), "", "at-start");
    // spaces back to the previous tab stop, when tabs are written as spaces
    let ts = s.range(1, 9);
    let stops = s.bool();
    let xlate = s.bool();
    d.set_config(
        json!({"user_override": v}),
        json!({"tab_size": ts, "translate_tabs_to_spaces": xlate, "use_tab_stops": stops}),
    );
    let lead = text::ascii(s, 3).replace(' ', "");
    let sp = s.range(1, 14);
    let t = format!("{}{}", lead, " ".repeat(sp));
    d.edit(&v, "insert", json!({ "chars": t }));
    d.edit(&v, "delete_backward", json!([]));
    let line = t.rsplit('\n').next().unwrap();
    let col = line.len();
    let stop = (col - 1) / ts * ts;
    let spaces = line[stop..].chars().all(|c| c == ' ');
    let want = if xlate && stops && spaces {
        &t[..t.len() - (col - stop)]
    } else {
        &t[..t.len() - 1]
    };
    s.log(|| {
        format!(
            "tab size {} translate {} stops {} {:?}",
            ts, xlate, stops, t
        )
    });
    ensure_eq!(d.text(&v), want, "tab-stop");
    Ok(())
}
