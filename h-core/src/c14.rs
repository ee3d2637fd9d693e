//! C14: settings, against a model of stacked tables.
use crate::drive::{Driver, Scratch};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

type T = Map<String, Value>;

pub fn check() -> Check {
    Check::new("C14", "a change was masked by a more specific level or uncovered a less specific one, a language level applied, or a change was refused")
        .arm("layers", 4_000, 60_000, layers)
        .arm("files", 1_200, 20_000, files)
        .arm("live", 96, 1_500, live)
        .assume("languages and their default settings come from plugin manifests; the manifests name a program that does not exist")
}

const KEYS: &[&str] = &[
    "tab_size",
    "translate_tabs_to_spaces",
    "font_size",
    "font_face",
    "line_ending",
    "wrap_width",
    "word_wrap",
    "autodetect_whitespace",
    "surrounding_pairs",
    "save_with_newline",
    "auto_indent",
    "scroll_past_end",
    "use_tab_stops",
    "zzz",
    "plugin_search_path",
];

/// a value for a key, and whether it is acceptable
fn value(s: &mut Src, k: &str, bad: bool) -> (Value, bool) {
    let v = match (k, bad) {
        ("tab_size", false) => json!(*s.pick(&[2usize, 1, 3, 4, 8])),
        ("tab_size", true) => s
            .pick(&[json!(0), json!("4"), json!(-1), json!(2.5), json!([4])])
            .clone(),
        ("font_size", false) => s.pick(&[json!(12), json!(13.5), json!(14)]).clone(),
        ("font_size", true) => s.pick(&[json!("12"), json!(true)]).clone(),
        ("font_face", false) => json!(*s.pick(&["Menlo", "", "InconsolataGo", "é"])),
        ("font_face", true) => json!(5),
        ("line_ending", false) => json!(*s.pick(&["\n", "\r\n"])),
        ("line_ending", true) => json!(1),
        ("wrap_width", false) => json!(*s.pick(&[0usize, 10, 40])),
        ("wrap_width", true) => s.pick(&[json!(-5), json!("wide")]).clone(),
        ("surrounding_pairs", false) => s
            .pick(&[
                json!([]),
                json!([["<", ">"]]),
                json!([["a", "b"], ["(", ")"]]),
            ])
            .clone(),
        ("surrounding_pairs", true) => s
            .pick(&[json!([["a"]]), json!("{}"), json!([[1, 2]])])
            .clone(),
        ("zzz", _) => {
            return (
                s.pick(&[json!(1), json!("x"), json!([1, "2"]), json!({"a": 1})])
                    .clone(),
                true,
            )
        }
        ("plugin_search_path", _) => return (s.pick(&[json!([]), json!(["/a"])]).clone(), true),
        (_, false) => json!(s.bool()),
        (_, true) => s.pick(&[json!(1), json!("true")]).clone(),
    };
    (v, !bad)
}

fn table(s: &mut Src, max: usize, nulls: bool, bads: bool) -> (T, bool) {
    let mut t = T::new();
    let mut ok = true;
    for _ in 0..s.range(1, max) {
        // the first few keys are shared by the levels more often
        let k = if s.chance(2, 3) {
            KEYS[s.idx(4)]
        } else {
            KEYS[s.idx(KEYS.len())]
        };
        if t.contains_key(k) {
            continue;
        }
        if nulls && s.chance(1, 3) {
            t.insert(k.into(), Value::Null);
            continue;
        }
        let bad = bads && s.chance(1, 12);
        let (v, good) = value(s, k, bad);
        ok &= good;
        t.insert(k.into(), v);
    }
    (t, ok)
}

fn toml(t: &T) -> String {
    // an inline table is only valid without nesting quotes around keys
    t.iter()
        .filter(|(_, v)| !v.is_object())
        .map(|(k, v)| format!("{} = {}\n", k, v))
        .collect()
}
fn flat(t: &T) -> T {
    t.iter()
        .filter(|(_, v)| !v.is_object())
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}

struct View {
    id: String,
    n: usize,
    detected: String,
    user: Option<String>,
    sys: T,
    over: T,
    text: &'static str,
    ready: bool,
    shown: T,
    lang_shown: String,
}

struct M {
    base: T,
    general: T,
    lang_base: BTreeMap<String, T>,
    lang_user: BTreeMap<String, T>,
    exts: BTreeMap<String, String>,
    views: Vec<View>,
}

impl M {
    fn lang(&self, v: &View) -> String {
        v.user.clone().unwrap_or_else(|| v.detected.clone())
    }
    fn effective(&self, v: &View) -> T {
        let mut out = self.base.clone();
        let mut put = |t: &T| {
            for (k, x) in t {
                out.insert(k.clone(), x.clone());
            }
        };
        put(&self.general);
        let l = self.lang(v);
        if let Some(b) = self.lang_base.get(&l) {
            put(b);
            if let Some(u) = self.lang_user.get(&l) {
                put(u);
            }
        }
        put(&v.sys);
        put(&v.over);
        out
    }
    fn language_of(&self, file: &str) -> String {
        let name = file.rsplit('/').next().unwrap();
        let ext = match name.rfind('.') {
            Some(i) if i > 0 => &name[i + 1..],
            _ => name,
        };
        self.exts
            .get(ext)
            .cloned()
            .unwrap_or_else(|| "Plain Text".into())
    }
    fn finalize(&mut self) {
        for i in 0..self.views.len() {
            if !self.views[i].ready {
                let eff = self.effective(&self.views[i]);
                if eff["autodetect_whitespace"] == json!(true) {
                    self.views[i].sys = detect(self.views[i].text);
                }
                self.views[i].ready = true;
            }
        }
    }
}

const TEXTS: &[&str] = &[
    "",
    "a\nb",
    "\tx\n\ty\n",
    "  a\n    b\n",
    "x\r\ny\r\n",
    "    q\r\n",
    "one line",
    " \tmixed\nq\r\n",
    "   z",
];
fn detect(t: &str) -> T {
    let v = match t {
        "a\nb" => json!({"line_ending": "\n"}),
        "\tx\n\ty\n" => json!({"line_ending": "\n", "translate_tabs_to_spaces": false}),
        "  a\n    b\n" => {
            json!({"line_ending": "\n", "translate_tabs_to_spaces": true, "tab_size": 2})
        }
        "x\r\ny\r\n" => json!({"line_ending": "\r\n"}),
        "    q\r\n" => {
            json!({"line_ending": "\r\n", "translate_tabs_to_spaces": true, "tab_size": 4})
        }
        "   z" => json!({"translate_tabs_to_spaces": true, "tab_size": 3}),
        _ => json!({}),
    };
    v.as_object().unwrap().clone()
}

const LANGS: &[(&str, &[&str])] = &[
    ("Rust", &["rs"]),
    ("Make", &["Makefile", "mk"]),
    ("Plain Text", &["txt"]),
    ("C++", &["cpp", "h"]),
    ("C", &["c"]),
];
const FILES: &[&str] = &[
    "f.rs", "Makefile", "f.txt", "f.h", "f.c", "f.foo", ".rs", "rs", "f.rs.txt", "é.rs",
];

fn layers(s: &mut Src) -> R {
    run(s, false)
}
fn files(s: &mut Src) -> R {
    run(s, true)
}

fn run(s: &mut Src, with_files: bool) -> R {
    let scratch = Scratch::new();
    let mut m = M {
        base: T::new(),
        general: T::new(),
        lang_base: BTreeMap::new(),
        lang_user: BTreeMap::new(),
        exts: BTreeMap::new(),
        views: vec![],
    };
    let mut man = String::from("name = \"langs\"\nversion = \"0\"\nscope = \"global\"\nexec_path = \"/nonexistent/xi-verif\"\nactivations = []\ncommands = []\n");
    let pd = scratch.path("extras/langs");
    std::fs::create_dir_all(&pd).unwrap();
    let mut bad_default = false;
    for (name, exts) in LANGS {
        if s.chance(1, 4) {
            continue;
        }
        man += &format!(
            "[[languages]]\nname = {:?}\nextensions = {:?}\nscope = \"source.x\"\n",
            name, exts
        );
        let mut t = T::new();
        if s.chance(2, 3) {
            let (u, ok) = table(s, 4, false, true);
            s.log(|| format!("defaults of {}: {} {}", name, Value::Object(flat(&u)), ok));
            std::fs::write(format!("{}/{}.toml", pd, name), toml(&u)).unwrap();
            if ok {
                t = flat(&u);
            } else {
                bad_default = true;
                s.nontrivial();
            }
        }
        m.lang_base.insert(name.to_string(), t);
        for e in exts.iter() {
            m.exts.insert(e.to_string(), name.to_string());
        }
    }
    s.log(|| format!("languages {:?}", m.exts));
    std::fs::write(format!("{}/manifest.toml", pd), man).unwrap();
    let mut cfg = None;
    if with_files {
        let dir = scratch.path("config");
        std::fs::create_dir_all(&dir).unwrap();
        let names: Vec<String> = m.lang_base.keys().cloned().collect();
        for name in std::iter::once("preferences".to_string()).chain(names) {
            if s.chance(1, 2) {
                let (t, ok) = table(s, 4, false, true);
                let broken = s.chance(1, 10);
                s.log(|| {
                    format!(
                        "{}.xiconfig: {} {} {}",
                        name,
                        Value::Object(flat(&t)),
                        ok,
                        if broken { "cut off" } else { "" }
                    )
                });
                let mut text = toml(&t);
                if broken {
                    text += "\ntab_size = ";
                }
                std::fs::write(format!("{}/{}.xiconfig", dir, name), text).unwrap();
                if ok && !broken {
                    if name == "preferences" {
                        m.general = flat(&t);
                    } else {
                        m.lang_user.insert(name, flat(&t));
                    }
                }
            }
        }
        cfg = Some(dir);
    }
    // what is built in
    {
        let mut d = Driver::new();
        let v = d.view();
        m.base = d
            .req("get_config", json!({ "view_id": v }))
            .unwrap()
            .as_object()
            .unwrap()
            .clone();
    }
    let mut d = Driver::with_dirs(cfg.as_deref(), Some(&scratch.path("extras")));
    let _ = bad_default;
    d.take();
    let mut serial = 0;
    let mut closed = vec![];
    let n = s.range(3, 18);
    let mut hist = vec![];
    for _ in 0..n {
        let before: Vec<T> = m.views.iter().map(|v| m.effective(v)).collect();
        let was_ready: Vec<bool> = m.views.iter().map(|v| v.ready).collect();
        let mut refused = false;
        let some = m.views.len();
        match s.weighted(&[
            3,
            8,
            if some > 0 { 3 } else { 0 },
            if some > 0 { 2 } else { 0 },
            if some > 0 { 1 } else { 0 },
            3,
        ]) {
            0 => {
                if some >= 4 {
                    continue;
                }
                serial += 1;
                let text = *s.pick(TEXTS);
                let path = if s.chance(1, 5) {
                    None
                } else {
                    let f = *s.pick(FILES);
                    let dir = scratch.path(&format!("d{}", serial));
                    std::fs::create_dir_all(&dir).unwrap();
                    let p = format!("{}/{}", dir, f);
                    std::fs::write(&p, text).unwrap();
                    Some(p)
                };
                s.log(|| {
                    format!(
                        "open {:?} {:?}",
                        path.as_ref()
                            .map(|p| p.rsplit('/').next().unwrap().to_string()),
                        text
                    )
                });
                let text = if path.is_some() { text } else { "" };
                let id = match d.req("new_view", json!({ "file_path": path })) {
                    Ok(v) => v.as_str().unwrap().to_string(),
                    Err(e) => return pbt::fail("open-failed", format!("{:?}", e)),
                };
                let detected = path
                    .as_ref()
                    .map(|p| m.language_of(p))
                    .unwrap_or_else(|| "Plain Text".into());
                m.views.push(View {
                    id,
                    n: serial,
                    detected,
                    user: None,
                    sys: T::new(),
                    over: T::new(),
                    text,
                    ready: false,
                    shown: T::new(),
                    lang_shown: String::new(),
                });
                if s.chance(2, 3) {
                    d.settle();
                    m.finalize();
                }
            }
            1 => {
                let (t, ok) = table(s, 3, true, true);
                let doms = 3 + some;
                let which = s.idx(doms);
                let langs = ["Rust", "Make", "Plain Text", "C++", "C", "Nope"];
                let (dom, lang) = match which {
                    0 => (json!("general"), None),
                    1 | 2 => {
                        let l = if some > 0 && s.chance(2, 3) {
                            let i = s.idx(some);
                            m.lang(&m.views[i])
                        } else {
                            s.pick(&langs).to_string()
                        };
                        (
                            if which == 1 {
                                json!({ "language": l })
                            } else {
                                json!({ "syntax": l })
                            },
                            Some(l),
                        )
                    }
                    i => (json!({ "user_override": m.views[i - 3].id }), None),
                };
                s.log(|| {
                    format!(
                        "set {} {} {}",
                        dom,
                        Value::Object(t.clone()),
                        if ok { "" } else { "(refused)" }
                    )
                });
                hist.push(format!("{} {}", dom, Value::Object(t.clone())));
                d.set_config(dom, Value::Object(t.clone()));
                if ok {
                    let target = match (which, lang) {
                        (0, _) => &mut m.general,
                        (_, Some(l)) => m.lang_user.entry(l).or_insert_with(T::new),
                        (i, None) => &mut m.views[i - 3].over,
                    };
                    for (k, v) in t {
                        if v.is_null() {
                            if target.remove(&k).is_some() {
                                s.label("removed");
                            }
                        } else {
                            target.insert(k, v);
                        }
                    }
                } else {
                    refused = true;
                    s.nontrivial();
                }
            }
            2 => {
                let i = s.idx(some);
                let l = *s.pick(&["Rust", "Make", "Plain Text", "C++", "C", "Nope"]);
                s.log(|| format!("language of {} is {}", m.views[i].id, l));
                d.note(
                    "set_language",
                    json!({"view_id": m.views[i].id, "language_id": l}),
                );
                m.views[i].user = Some(l.into());
                s.label("language");
            }
            3 => {
                let i = s.idx(some);
                let f = *s.pick(FILES);
                s.log(|| format!("save {} as {}", m.views[i].id, f));
                serial += 1;
                let dir = scratch.path(&format!("d{}", serial));
                std::fs::create_dir_all(&dir).unwrap();
                d.note(
                    "save",
                    json!({"view_id": m.views[i].id, "file_path": format!("{}/{}", dir, f)}),
                );
                m.views[i].detected = m.language_of(f);
                m.views[i].n = serial;
                s.label("saved as");
            }
            4 => {
                let i = s.idx(some);
                s.log(|| format!("close {} {}", m.views[i].id, m.views[i].ready));
                d.note("close_view", json!({"view_id": m.views[i].id}));
                closed.push(m.views.remove(i).id);
                // nothing that follows may be about it
                for (meth, p) in d.take() {
                    ensure!(
                        p["view_id"] != json!(closed.last().unwrap()),
                        "message-after-close",
                        "{} {}",
                        meth,
                        p
                    );
                }
                for v in &m.views {
                    let got = d.req("get_config", json!({ "view_id": v.id })).unwrap();
                    ensure_eq!(
                        got,
                        Value::Object(m.effective(v)),
                        "closing-changed-settings"
                    );
                }
                continue;
            }
            _ => {
                d.settle();
                m.finalize();
            }
        }
        // what was announced
        let sent = d.take();
        let alerts = sent.iter().filter(|(m, _)| m == "alert").count();
        ensure!(
            !refused || alerts > 0,
            "no-alert",
            "an invalid setting was not reported"
        );
        ensure!(
            refused || alerts == 0,
            "false-alert",
            "{:?}",
            sent.iter().find(|(m, _)| m == "alert")
        );
        for i in 0..m.views.len() {
            let eff = m.effective(&m.views[i]);
            let id = m.views[i].id.clone();
            let got = d.req("get_config", json!({ "view_id": id })).unwrap();
            let got = got.as_object().unwrap();
            for k in eff.keys().chain(got.keys()).collect::<BTreeSet<_>>() {
                ensure!(
                    eff.get(k) == got.get(k),
                    format!(
                        "effective-{}",
                        if KEYS.contains(&k.as_str()) && k != "zzz" {
                            "known"
                        } else {
                            "unknown"
                        }
                    ),
                    "{}: {} is {:?}, should be {:?} (language {}, {:?})",
                    id,
                    k,
                    got.get(k),
                    eff.get(k),
                    m.lang(&m.views[i]),
                    hist
                );
            }
            let old = before.get(i);
            let newly = m.views[i].ready && !was_ready.get(i).cloned().unwrap_or(false);
            let mut said = T::new();
            for (meth, p) in sent.iter().filter(|(_, p)| p["view_id"] == json!(id)) {
                if meth == "config_changed" {
                    for (k, v) in p["changes"].as_object().unwrap() {
                        said.insert(k.clone(), v.clone());
                        if v.is_null() {
                            m.views[i].shown.remove(k);
                        } else {
                            m.views[i].shown.insert(k.clone(), v.clone());
                        }
                    }
                } else if meth == "language_changed" {
                    m.views[i].lang_shown = p["language_id"].as_str().unwrap().into();
                }
            }
            if m.views[i].ready {
                ensure_eq!(
                    Value::Object(m.views[i].shown.clone()),
                    Value::Object(eff.clone()),
                    if newly { "shown-at-start" } else { "shown" }
                );
                ensure_eq!(m.views[i].lang_shown, m.lang(&m.views[i]), "language-shown");
            }
            if let (Some(old), false) = (old, newly) {
                let mut want = T::new();
                for k in old.keys().chain(eff.keys()) {
                    if old.get(k) != eff.get(k) {
                        want.insert(k.clone(), eff.get(k).cloned().unwrap_or(Value::Null));
                    }
                }
                ensure_eq!(Value::Object(said), Value::Object(want), "announced-keys");
            }
            let l = m.lang(&m.views[i]);
            if m.lang_base.contains_key(&l)
                && !m.views[i].over.is_empty()
                && m.lang_user.get(&l).map_or(false, |t| !t.is_empty())
            {
                s.nontrivial();
            }
        }
    }
    // the settings act
    d.settle();
    m.finalize();
    for i in 0..m.views.len() {
        let eff = m.effective(&m.views[i]);
        let id = m.views[i].id.clone();
        if eff["auto_indent"] == json!(true) {
            let le = eff["line_ending"].as_str().unwrap().to_string();
            let unit = if eff["translate_tabs_to_spaces"] == json!(true) {
                " ".repeat(eff["tab_size"].as_u64().unwrap() as usize)
            } else {
                "\t".into()
            };
            d.edit(&id, "select_all", json!([]));
            d.edit(&id, "insert_newline", json!([]));
            d.edit(&id, "insert_tab", json!([]));
            let t = d.text(&id);
            ensure_eq!(t, format!("{}{}", le, unit), "settings-not-applied");
        }
    }
    for c in closed {
        ensure!(
            d.req("get_config", json!({ "view_id": c })).is_err(),
            "closed-view-has-settings",
            "{}",
            c
        );
    }
    Ok(())
}

/// settings files that change while the core runs
fn live(s: &mut Src) -> R {
    let scratch = Scratch::new();
    let pd = scratch.path("config/plugins/langs");
    std::fs::create_dir_all(&pd).unwrap();
    let mut man = String::from("name = \"langs\"\nversion = \"0\"\nscope = \"global\"\nexec_path = \"/nonexistent/xi-verif\"\nactivations = []\ncommands = []\n");
    for (name, exts) in &LANGS[..2] {
        man += &format!(
            "[[languages]]\nname = {:?}\nextensions = {:?}\nscope = \"source.x\"\n",
            name, exts
        );
    }
    std::fs::write(format!("{}/manifest.toml", pd), man).unwrap();
    let mut d = Driver::with_dirs(Some(&scratch.path("config")), None);
    let p = scratch.path("a.rs");
    std::fs::write(&p, "x").unwrap();
    let views = [d.open(Some(&p)).unwrap(), d.view()];
    let base = d
        .req("get_config", json!({ "view_id": views[1] }))
        .unwrap()
        .as_object()
        .unwrap()
        .clone();
    let mut tables: BTreeMap<&str, Option<T>> = BTreeMap::new();
    let names = ["preferences", "Rust", "Make"];
    let mut hist = vec![];
    for _ in 0..s.range(2, 5) {
        let f = *s.pick(&names);
        let path = |f: &str| scratch.path(&format!("config/{}.xiconfig", f));
        let mut bad = false;
        d.take();
        let exists = std::path::Path::new(&path(f)).exists();
        match s.weighted(&[6, if exists { 3 } else { 0 }, if exists { 3 } else { 0 }]) {
            0 => {
                let (t, ok) = table(s, 3, false, true);
                bad = !ok;
                hist.push(format!("write {} {} {}", f, Value::Object(flat(&t)), ok));
                std::fs::write(path(f), toml(&t)).unwrap();
                if ok {
                    tables.insert(f, Some(flat(&t)));
                }
            }
            1 => {
                hist.push(format!("remove {}", f));
                std::fs::remove_file(path(f)).unwrap();
                tables.insert(f, None);
            }
            _ => {
                let g = *s.pick(&names);
                if g == f || std::path::Path::new(&path(g)).exists() {
                    continue;
                }
                // only a file that is in force
                let now: T = match tables.get(f).cloned().flatten() {
                    Some(t) if std::fs::read_to_string(path(f)).unwrap() == toml(&t) => t,
                    _ => continue,
                };
                hist.push(format!("rename {} {}", f, g));
                std::fs::rename(path(f), path(g)).unwrap();
                tables.insert(f, None);
                tables.insert(g, Some(now));
                s.label("renamed");
            }
        }
        s.log(|| hist.last().unwrap().clone());
        s.nontrivial();
        let want: Vec<T> = [Some("Rust"), None]
            .iter()
            .map(|l| {
                let mut out = base.clone();
                for k in std::iter::once("preferences").chain(*l) {
                    if let Some(Some(t)) = tables.get(k) {
                        out.extend(t.clone());
                    }
                }
                out
            })
            .collect();
        let start = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(15));
            d.settle();
            let got: Vec<T> = views
                .iter()
                .map(|v| {
                    d.req("get_config", json!({ "view_id": v }))
                        .unwrap()
                        .as_object()
                        .unwrap()
                        .clone()
                })
                .collect();
            let alerted = d
                .peer
                .0
                .lock()
                .unwrap()
                .sent
                .iter()
                .any(|(m, _)| m == "alert");
            if got == want && (!bad || alerted) {
                break;
            }
            if start.elapsed().as_secs() > 15 {
                return pbt::fail(
                    if got == want {
                        "live-no-alert"
                    } else {
                        "live-settings"
                    },
                    format!("{:?}: {:?} should be {:?}", hist, got, want),
                );
            }
        }
        // until the watcher has nothing more to say about it
        std::thread::sleep(std::time::Duration::from_millis(250));
        d.settle();
    }
    Ok(())
}
