//! C20: styles of several plugins stay on the characters they were set for.
use crate::cmds;
use crate::drive::{Driver, Scratch};
use crate::mirror::Mirror;
use crate::plug::{Out, Plug, Revs};
use pbt::{ensure, ensure_eq, Check, Fail, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub fn check() -> Check {
    Check::new("C20", "styles for an older revision arrived after an edit, or two plugins styled the same character")
        .arm("styles", 8_000, 80_000, styles)
        .assume("text inserted into or next to a styled range while the plugin did not know of it may or may not take its style")
}

const STACKS: &[&[&str]] = &[
    &["keyword"],
    &["string"],
    &["comment"],
    &["source", "keyword.control"],
    &["source", "keyword.operator"],
    &["source", "string.quoted", "constant.character.escape"],
    &["markup.bold"],
    &["markup.italic"],
    &["markup.underline"],
    &["markup.heading", "entity.name.section"],
    &["entity.name.function"],
    &["constant.numeric"],
    &["invalid"],
    &["variable.parameter"],
    &["no.such.thing"],
    &["comment", "entity.name.zz"],
    &["invalid", "meta.zz"],
    &["markup.bold", "meta.zz"],
    &["string", "meta.zz"],
    &["markup.heading", "entity.name.section", "meta.zz"],
    &["source", "string.quoted"],
];
const THEMES: &[&str] = &[
    "InspiredGitHub",
    "base16-eighties.dark",
    "base16-mocha.dark",
    "Solarized (light)",
    "Solarized (dark)",
];
const FIELDS: &[&str] = &["fg_color", "bg_color", "weight", "underline", "italic"];

type Look = BTreeMap<String, Value>;

fn look(p: &Value) -> Look {
    FIELDS
        .iter()
        .filter(|f| !p[**f].is_null())
        .map(|f| (f.to_string(), p[*f].clone()))
        .collect()
}

/// how plain text looks under a theme, and what each stack changes of it, as
/// the theme itself says
fn looks(theme: &str) -> (Look, Vec<Look>) {
    use syntect::highlighting::{Color, FontStyle, Highlighter, ThemeSet};
    use syntect::parsing::Scope;
    static KNOWN: Mutex<BTreeMap<String, (Look, Vec<Look>)>> = Mutex::new(BTreeMap::new());
    let mut known = KNOWN.lock().unwrap();
    if known.is_empty() {
        let set = ThemeSet::load_defaults();
        for name in THEMES {
            let t = &set.themes[*name];
            let argb = |c: Color| {
                json!((c.a as u32) << 24 | (c.r as u32) << 16 | (c.g as u32) << 8 | c.b as u32)
            };
            let mut plain = Look::new();
            plain.insert(
                "fg_color".into(),
                argb(t.settings.foreground.unwrap_or(Color::BLACK)),
            );
            let hi = Highlighter::new(t);
            let of = |st: &&[&str]| {
                let sc: Vec<Scope> = st.iter().map(|x| Scope::new(x).unwrap()).collect();
                let m = hi.style_mod_for_stack(&sc);
                let mut l = Look::new();
                if let Some(c) = m.foreground {
                    l.insert("fg_color".into(), argb(c));
                }
                if let Some(c) = m.background {
                    l.insert("bg_color".into(), argb(c));
                }
                let f = m.font_style.unwrap_or(FontStyle::empty());
                if f.contains(FontStyle::BOLD) {
                    l.insert("weight".into(), json!(700));
                }
                if f.contains(FontStyle::UNDERLINE) {
                    l.insert("underline".into(), json!(true));
                }
                if f.contains(FontStyle::ITALIC) {
                    l.insert("italic".into(), json!(true));
                }
                l
            };
            known.insert(name.to_string(), (plain, STACKS.iter().map(of).collect()));
        }
    }
    known[theme].clone()
}

/// what a layer says of a character
#[derive(Clone, Debug, PartialEq)]
enum Mark {
    Is(Option<usize>),
    Unsure,
}

struct Sent {
    start: usize,
    len: usize,
    spans: Vec<(usize, usize, usize)>,
    rev: u64,
}

/// characters never used before, and newlines
#[derive(Default)]
pub struct Fresh(pub u32);

impl Fresh {
    pub fn text(&mut self, s: &mut Src, lo: usize, hi: usize) -> String {
        let mut t = String::new();
        for _ in 0..s.range(lo, hi) {
            let n = self.0;
            let c = match n % 3 {
                0 => std::char::from_u32(0x4e00 + n),
                1 => std::char::from_u32(0x3b1 + n / 3),
                _ => std::char::from_u32(if n / 3 < 52 {
                    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[n as usize / 3] as u32
                } else {
                    0x1d400 + n
                }),
            };
            self.0 += 1;
            t.push(c.unwrap());
            if s.chance(1, 7) {
                t.push('\n');
            }
        }
        t
    }
}

fn styles(s: &mut Src) -> R {
    let sc = Scratch::new();
    let mut d = Driver::new();
    let mut chars = Fresh::default();
    let mut theme = THEMES[0];
    let v = if s.bool() {
        let p = sc.path("f.txt");
        let t = chars.text(s, 0, 40);
        std::fs::write(&p, &t).unwrap();
        s.log(|| format!("open a file with {:?}", t));
        d.open(Some(&p)).unwrap()
    } else {
        d.view()
    };
    let mut ps: Vec<Plug> = vec![];
    let mut revs = Revs::default();
    let mut layers: BTreeMap<u64, BTreeMap<char, Mark>> = BTreeMap::new();
    // scopes each plugin has announced, and those under way
    let mut scopes: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    let mut sent: BTreeMap<u64, Vec<Sent>> = BTreeMap::new();
    let mut text = d.text(&v);
    let mut next = 1;
    let mut m = Mirror::default();
    let mut defs: BTreeMap<usize, Look> = BTreeMap::new();
    let mut plain = looks(theme).0;
    for _ in 0..s.range(6, 50) {
        let n = ps.len();
        if chars.0 > 150 {
            break;
        }
        match s.weighted(&[
            6,
            3,
            if n < 3 {
                if n == 0 {
                    14
                } else {
                    3
                }
            } else {
                0
            },
            if n > 0 { 6 } else { 0 },
            if n > 0 { 8 } else { 0 },
            if n > 0 { 8 } else { 0 },
            if n > 0 { 1 } else { 0 },
            2,
            4,
        ]) {
            k @ 0..=1 => {
                let c = if k == 0 {
                    match s.idx(4) {
                        0 | 1 => ("insert".to_string(), json!({"chars": chars.text(s, 1, 4)})),
                        2 => cmds::unit("insert_newline"),
                        _ => cmds::unit(*s.pick(&[
                            "delete_backward",
                            "delete_forward",
                            "delete_word_backward",
                            "undo",
                            "redo",
                            "delete_to_beginning_of_line",
                        ])),
                    }
                } else {
                    cmds::unit({
                        let l = [
                            cmds::MOVES,
                            cmds::MODIFY,
                            &["select_all", "collapse_selections", "add_selection_below"],
                        ][s.idx(3)];
                        *s.pick(l)
                    })
                };
                if c.0 == "insert" && d.sel(&v).len() > 1 {
                    d.edit(&v, "collapse_selections", json!([]));
                }
                s.log(|| format!("user: {} {}", c.0, c.1));
                d.edit(&v, &c.0, c.1);
                revs.note(&mut d, &mut ps)?;
                let t = d.text(&v);
                // what was typed or comes back is bare
                let old: BTreeSet<char> = text.chars().collect();
                for l in layers.values_mut() {
                    for c in t.chars() {
                        if !old.contains(&c) {
                            l.insert(c, Mark::Is(None));
                        }
                    }
                }
                text = t;
            }
            2 => {
                let mut p = Plug::start(&d, next);
                s.log(|| format!("plugin {} starts", next));
                scopes.insert(next, vec![]);
                sent.insert(next, vec![]);
                layers.insert(next, text.chars().map(|c| (c, Mark::Is(None))).collect());
                next += 1;
                revs.note(&mut d, std::slice::from_mut(&mut p))?;
                ps.push(p);
            }
            3 => {
                let p = &mut ps[s.idx(n)];
                p.process(s, &revs)?;
            }
            4 => {
                // a plugin styles a range of what it has
                let p = &mut ps[s.idx(n)];
                let doc = match p.docs.get(&v) {
                    Some(x) => x.clone(),
                    None => continue,
                };
                let t = revs.text(&v, doc.rev).to_string();
                let known = scopes.get_mut(&p.id).unwrap();
                if known.is_empty() || s.chance(1, 5) {
                    let new: Vec<usize> = (0..s.range(1, 4)).map(|_| s.idx(STACKS.len())).collect();
                    s.log(|| {
                        format!(
                            "{} announces {:?}",
                            p.name,
                            new.iter().map(|i| STACKS[*i]).collect::<Vec<_>>()
                        )
                    });
                    p.queue("add_scopes", &v, json!({"scopes": new.iter().map(|i| json!(STACKS[*i])).collect::<Vec<_>>()}));
                    known.extend(new);
                }
                let b: Vec<usize> = t
                    .char_indices()
                    .map(|(i, _)| i)
                    .chain(Some(t.len()))
                    .collect();
                let (mut i, mut j) = (s.idx(b.len()), s.idx(b.len()));
                if s.chance(2, 5) {
                    i = 0;
                    j = b.len() - 1;
                }
                let (lo, hi) = (b[i.min(j)], b[i.max(j)]);
                let inner: Vec<usize> = b
                    .iter()
                    .filter(|x| **x >= lo && **x <= hi)
                    .map(|x| x - lo)
                    .collect();
                let mut cuts: Vec<usize> = (0..s.range(0, 6)).map(|_| *s.pick(&inner)).collect();
                if s.bool() {
                    cuts.push(0);
                    cuts.push(hi - lo);
                }
                cuts.sort();
                cuts.dedup();
                let mut spans = vec![];
                for w in cuts.windows(2) {
                    if s.chance(3, 4) {
                        spans.push((w[0], w[1], s.idx(known.len())));
                    }
                }
                let js: Vec<Value> = spans
                    .iter()
                    .map(|(a, b, c)| json!({"start": a, "end": b, "scope_id": c}))
                    .collect();
                s.log(|| {
                    let show: Vec<_> = spans
                        .iter()
                        .map(|(a, b, c)| (&t[lo + a..lo + b], STACKS[known[*c]]))
                        .collect();
                    format!(
                        "{} styles {:?} of {}: {:?}",
                        p.name,
                        &t[lo..hi],
                        doc.rev,
                        show
                    )
                });
                p.queue(
                    "update_spans",
                    &v,
                    json!({"start": lo, "len": hi - lo, "spans": js, "rev": doc.rev}),
                );
                sent.get_mut(&p.id).unwrap().push(Sent {
                    start: lo,
                    len: hi - lo,
                    spans,
                    rev: doc.rev,
                });
            }
            5 => {
                let p = &mut ps[s.idx(n)];
                let span = matches!(p.out.front(), Some(Out::Note("update_spans", ..)));
                if !p.deliver() {
                    continue;
                }
                if span {
                    let u = sent.get_mut(&p.id).unwrap().remove(0);
                    let base = revs.text(&v, u.rev);
                    s.log(|| format!("{}: styles for {} arrive", p.name, u.rev));
                    if base != text {
                        s.nontrivial();
                        s.label("styles for an older revision");
                    }
                    apply(
                        layers.get_mut(&p.id).unwrap(),
                        base,
                        &text,
                        &u,
                        &scopes[&p.id],
                    );
                }
            }
            6 => {
                let p = ps.remove(s.idx(n));
                s.log(|| format!("{} stops", p.name));
                d.weak()
                    .plugin_exit(serde_json::from_value(json!(p.id)).unwrap(), Ok(()));
                layers.remove(&p.id);
                if s.bool() {
                    // late messages of a plugin that is gone
                    let mut p = p;
                    while p.deliver() {}
                }
                s.label("plugin stopped");
            }
            7 => {
                theme = *s.pick(THEMES);
                s.log(|| format!("theme {}", theme));
                plain = looks(theme).0;
                d.note("set_theme", json!({ "theme_name": theme }));
                s.label("theme changed");
            }
            _ => {
                d.settle();
                verify(
                    s, &mut d, &v, &mut m, &mut defs, &layers, &text, theme, &plain,
                )?;
            }
        }
    }
    d.settle();
    verify(
        s, &mut d, &v, &mut m, &mut defs, &layers, &text, theme, &plain,
    )
}

fn apply(layer: &mut BTreeMap<char, Mark>, base: &str, now: &str, u: &Sent, scopes: &[usize]) {
    let inside: Vec<(usize, char)> = base[u.start..u.start + u.len].char_indices().collect();
    let old: BTreeSet<char> = base.chars().collect();
    let ins: BTreeSet<char> = inside.iter().map(|x| x.1).collect();
    // characters the plugin did not know of, in or next to the range
    let cur: Vec<char> = now.chars().filter(|c| *c != '\n').collect();
    let known: Vec<usize> = (0..cur.len()).filter(|i| old.contains(&cur[*i])).collect();
    for i in 0..cur.len() {
        if old.contains(&cur[i]) {
            continue;
        }
        let l = known.iter().rev().find(|k| **k < i).map(|k| cur[*k]);
        let r = known.iter().find(|k| **k > i).map(|k| cur[*k]);
        // with the range's ends deleted there is no telling where it is
        let near = |c: Option<char>| c.map_or(true, |c| ins.contains(&c));
        let edge = |c: Option<char>| c.map_or(true, |c| base.contains(c) && !ins.contains(&c));
        let _ = edge;
        let swallowed = l.map_or(true, |a| pos(base, a) < u.start + u.len)
            && r.map_or(true, |b| pos(base, b) >= u.start);
        if near(l) || near(r) || swallowed {
            layer.insert(cur[i], Mark::Unsure);
        }
    }
    let have: BTreeSet<char> = cur.iter().cloned().collect();
    for (at, c) in inside {
        if have.contains(&c) {
            let sp = u
                .spans
                .iter()
                .find(|x| x.0 <= at && at < x.1)
                .map(|x| scopes[x.2]);
            layer.insert(c, Mark::Is(sp));
        }
    }
}

fn pos(t: &str, c: char) -> usize {
    t.find(c).unwrap()
}

#[allow(clippy::too_many_arguments)]
fn verify(
    s: &mut Src,
    d: &mut Driver,
    v: &str,
    m: &mut Mirror,
    defs: &mut BTreeMap<usize, Look>,
    layers: &BTreeMap<u64, BTreeMap<char, Mark>>,
    text: &str,
    theme: &str,
    plain: &Look,
) -> Result<(), Fail> {
    d.edit(v, "request_lines", json!([0, 400]));
    for (me, p) in d.take() {
        match me.as_str() {
            "def_style" => {
                let id = p["id"].as_u64().unwrap() as usize;
                ensure!(id >= 8, "style-number-reserved", "{}", p);
                defs.insert(id, look(&p));
            }
            "update" => m.apply(&p["update"])?,
            _ => (),
        }
    }
    ensure!(m.valid(), "lines-missing", "{}", m.rows.len());
    ensure_eq!(m.text(), text, "text");
    let (_, stacks) = looks(theme);
    for row in m.rows.iter().flatten() {
        let mut at: Vec<Option<usize>> = vec![None; row.text.len()];
        for &(a, b, id) in &row.styles {
            if id < 8 {
                continue;
            }
            ensure!(
                a >= 0 && b as usize <= row.text.len(),
                "style-outside-line",
                "{:?} in {:?}",
                row.styles,
                row.text
            );
            let (a, b) = (a as usize, b as usize);
            ensure!(
                row.text.is_char_boundary(a) && row.text.is_char_boundary(b),
                "style-splits-character",
                "{:?} in {:?}",
                row.styles,
                row.text
            );
            ensure!(defs.contains_key(&id), "style-undefined", "{}", id);
            for x in &mut at[a..b] {
                ensure!(
                    x.is_none(),
                    "styles-overlap",
                    "{:?} in {:?}",
                    row.styles,
                    row.text
                );
                *x = Some(id);
            }
        }
        for (i, c) in row.text.char_indices() {
            if c == '\n' {
                continue;
            }
            let mut want = Look::new();
            let mut sure = true;
            let mut k = 0;
            for l in layers.values() {
                match &l[&c] {
                    Mark::Is(Some(x)) => {
                        want.extend(stacks[*x].clone());
                        k += 1;
                    }
                    Mark::Is(None) => (),
                    Mark::Unsure => sure = false,
                }
            }
            if k > 1 {
                s.nontrivial();
                s.label("several layers on a character");
            }
            let mut full = plain.clone();
            full.extend(want);
            let got = at[i].map_or(plain, |id| &defs[&id]);
            if sure {
                ensure!(
                    *got == full,
                    "style",
                    "{:?} looks {:?}, should be {:?}; layers {:?}",
                    c,
                    got,
                    full,
                    layers.values().map(|l| &l[&c]).collect::<Vec<_>>()
                );
            }
        }
    }
    Ok(())
}
