//! C24: the themes on offer and the theme in force follow the theme files.
use crate::drive::{Driver, Scratch};
use pbt::{ensure_eq, Check, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use syntect::highlighting::ThemeSet;

pub fn check() -> Check {
    Check::new("C24", "a theme of a file was put in force")
        .arm("files", 6_000, 80_000, files)
        .arm("live", 64, 1_000, live)
        .assume("no theme file has the name of a built-in theme; two files of one name are not on offer at a time")
        .assume("a theme file replaced while the editor is not running is newer than what it replaces")
}

const STEMS: &[&str] = &["a", "b", "dusk.dark", "dusk.light", "Ü x", "dusk"];
const FILES: &[(&str, &str)] = &[
    ("", "tmTheme"),
    ("", "tmTheme"),
    ("", "tmTheme"),
    ("sub", "tmTheme"),
    ("sub/deep", "tmTheme"),
    ("", "bak"),
    ("", "tmtheme"),
    ("..", "tmTheme"),
];

fn stamp(path: &Path, n: usize) {
    let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    let t = libc::timespec { tv_sec: 1_000_000_000 + n as i64, tv_nsec: 0 };
    let ts = [t, t];
    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0) };
}

fn content(s: &mut Src) -> (String, Option<Value>) {
    let mut text = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<plist version=\"1.0\"><dict>\n<key>name</key><string>whatever</string>\n<key>settings</key><array>\n<dict><key>settings</key><dict>\n");
    for k in &["background", "foreground", "caret", "selection", "lineHighlight"] {
        if s.chance(2, 3) {
            text.push_str(&format!("<key>{}</key><string>#{:02x}{:02x}{:02x}</string>\n", k, s.idx(256), s.idx(256), s.idx(256)));
        }
    }
    text.push_str("</dict></dict>\n<dict><key>scope</key><string>comment</string><key>settings</key><dict><key>foreground</key><string>#102030</string></dict></dict>\n</array></dict></plist>\n");
    match s.weighted(&[8, 1, 1]) {
        0 => (),
        1 => text.truncate(text.len() / 2),
        _ => text = "no theme".into(),
    }
    let v = ThemeSet::load_from_reader(&mut std::io::Cursor::new(text.as_bytes())).ok().map(|t| serde_json::to_value(&t.settings).unwrap());
    (text, v)
}

struct Disk {
    dir: PathBuf,
    /// path -> settings, if it is a theme
    files: BTreeMap<PathBuf, Option<Value>>,
    clock: usize,
}

impl Disk {
    fn on_offer(&self, p: &Path) -> bool {
        p.starts_with(&self.dir) && p.extension().map_or(false, |e| e == "tmTheme")
    }
    fn offers(&self) -> BTreeMap<String, &Option<Value>> {
        self.files.iter().filter(|(p, _)| self.on_offer(p)).map(|(p, v)| (stem(p), v)).collect()
    }
    fn path(&self, s: &mut Src) -> PathBuf {
        let n = *s.pick(STEMS);
        let (d, e) = *s.pick(FILES);
        let base = match d {
            ".." => self.dir.parent().unwrap().join("out"),
            d => self.dir.join(d),
        };
        base.join(format!("{}.{}", n, e))
    }
    /// may a file be put there: no other offers its name
    fn free(&self, p: &Path, but: Option<&Path>) -> bool {
        !self.on_offer(p) || !self.files.keys().any(|q| q != p && Some(q.as_path()) != but && self.on_offer(q) && stem(q) == stem(p))
    }
    fn tick(&mut self) -> usize {
        self.clock += 1;
        self.clock
    }
    /// what the editor wrote is dated as of now
    fn date_dumps(&mut self) {
        let n = self.tick();
        if let Ok(es) = std::fs::read_dir(self.dir.join("cache")) {
            for e in es.flatten() {
                let m = e.metadata().unwrap().modified().unwrap().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                if m > 1_500_000_000 {
                    stamp(&e.path(), n);
                }
            }
        }
    }
}

fn stem(p: &Path) -> String {
    p.file_stem().unwrap().to_str().unwrap().to_string()
}

/// what the front end knows
struct Told {
    name: Option<String>,
    theme: Value,
    names: Vec<String>,
    changes: usize,
}

impl Told {
    fn follow(&mut self, d: &mut Driver) {
        for (m, p) in d.take() {
            match m.as_str() {
                "available_themes" => self.names = p["themes"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                "theme_changed" => {
                    self.name = Some(p["name"].as_str().unwrap().to_string());
                    self.theme = p["theme"].clone();
                    self.changes += 1;
                }
                _ => (),
            }
        }
    }
}

fn builtin() -> &'static (BTreeMap<String, Value>, HashSet<String>) {
    static B: std::sync::OnceLock<(BTreeMap<String, Value>, HashSet<String>)> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let ts = ThemeSet::load_defaults();
        (ts.themes.iter().map(|(k, t)| (k.clone(), serde_json::to_value(&t.settings).unwrap())).collect(), ts.themes.keys().cloned().collect())
    })
}
const DEFAULT: &str = "InspiredGitHub";

fn names(disk: &Disk, told: &Told) -> R {
    let have: BTreeSet<String> = told.names.iter().cloned().collect();
    let mut want: BTreeSet<String> = builtin().1.iter().cloned().collect();
    want.extend(disk.offers().keys().cloned());
    ensure_eq!(have, want, "on-offer");
    ensure_eq!(told.names.len(), want.len(), "offered-twice", "{:?}", told.names);
    Ok(())
}

fn set(s: &mut Src, d: &mut Driver, disk: &mut Disk, told: &mut Told) -> R {
    let name = if s.chance(1, 6) {
        s.pick(&["Solarized (dark)", DEFAULT, "base16-ocean.dark", "nothing", "cache", ""]).to_string()
    } else {
        s.pick(STEMS).to_string()
    };
    s.log(|| format!("set_theme {:?}", name));
    set_to(&name, s, d, disk, told)?;
    disk.date_dumps();
    Ok(())
}

fn set_to(name: &str, s: &mut Src, d: &mut Driver, disk: &mut Disk, told: &mut Told) -> R {
    let want = builtin().0.get(name).cloned().or_else(|| disk.offers().get(name).and_then(|x| (*x).clone()));
    let before = (told.name.clone(), told.theme.clone());
    let current = told.name.as_deref().unwrap_or(DEFAULT) == name;
    d.note("set_theme", json!({ "theme_name": name }));
    let n = told.changes;
    told.follow(d);
    match want {
        Some(w) => {
            ensure_eq!(told.changes, n + 1, "set-not-told");
            ensure_eq!(told.name.as_deref(), Some(name), "set-name");
            // (a file of the theme in force that broke is not read again)
            ensure_eq!(told.theme, w, "set-contents", "{}", name);
            if !builtin().1.contains(name) {
                s.nontrivial();
            }
        }
        None if current => (),
        None => {
            ensure_eq!((told.name.clone(), told.theme.clone()), before, "set-nothing");
        }
    }
    Ok(())
}

fn start(config: &str, told: &mut Told) -> Driver {
    let mut d = Driver::with_dirs(Some(config), None);
    *told = Told { name: None, theme: Value::Null, names: vec![], changes: 0 };
    told.follow(&mut d);
    d
}

fn setup(s: &mut Src) -> (Scratch, Disk) {
    let sc = Scratch::new();
    let dir = sc.dir().canonicalize().unwrap().join("themes");
    for x in &["themes/sub/deep", "out"] {
        std::fs::create_dir_all(sc.path(x)).unwrap();
    }
    let mut disk = Disk { dir, files: BTreeMap::new(), clock: 0 };
    for _ in 0..s.range(0, 3) {
        let p = disk.path(s);
        if disk.free(&p, None) {
            let (t, v) = content(s);
            std::fs::write(&p, t).unwrap();
            stamp(&p, disk.tick());
            s.log(|| format!("there is {:?}{}", p.strip_prefix(disk.dir.parent().unwrap()).unwrap(), if v.is_none() { " (broken)" } else { "" }));
            disk.files.insert(p, v);
        }
    }
    (sc, disk)
}

/// one change on disk; what is notified
fn change(s: &mut Src, disk: &mut Disk, avoid: &[PathBuf]) -> Option<(usize, Vec<PathBuf>)> {
    let root = disk.dir.parent().unwrap().to_path_buf();
    let show = move |p: &Path| format!("{:?}", p.strip_prefix(&root).unwrap());
    let there: Vec<PathBuf> = disk.files.keys().filter(|p| !avoid.contains(p)).cloned().collect();
    match s.weighted(&[5, 2, 3, 1]) {
        0 => {
            let p = if !there.is_empty() && s.bool() { s.pick(&there).clone() } else { disk.path(s) };
            if !disk.free(&p, None) || avoid.contains(&p) {
                return None;
            }
            let (t, v) = content(s);
            let new = !p.exists();
            s.log(|| format!("write {}{}", show(&p), if v.is_none() { " (broken)" } else { "" }));
            std::fs::write(&p, t).unwrap();
            stamp(&p, disk.tick());
            disk.files.insert(p.clone(), v);
            Some((if new { 0 } else { 1 }, vec![p]))
        }
        1 => {
            let p = if there.is_empty() { return None } else { s.pick(&there).clone() };
            s.log(|| format!("remove {}", show(&p)));
            std::fs::remove_file(&p).unwrap();
            disk.files.remove(&p);
            Some((3, vec![p]))
        }
        2 => {
            let p = if there.is_empty() { return None } else { s.pick(&there).clone() };
            let q = disk.path(s);
            if p == q || !disk.free(&q, Some(&p)) || avoid.contains(&q) {
                return None;
            }
            s.log(|| format!("rename {} to {}", show(&p), show(&q)));
            std::fs::rename(&p, &q).unwrap();
            let v = disk.files.remove(&p).unwrap();
            disk.files.insert(q.clone(), v);
            // (all of the configuration directory is watched)
            Some((4, vec![p, q]))
        }
        _ => {
            let p = if there.is_empty() { return None } else { s.pick(&there).clone() };
            s.log(|| format!("chmod {}", show(&p)));
            Some((2, vec![p]))
        }
    }
}

/// what the front end must have been told after notified changes
fn judge(disk: &Disk, told: &Told, before: &(Option<String>, Value), removed: &HashSet<String>) -> R {
    names(disk, told)?;
    let cur = before.0.clone().unwrap_or_else(|| DEFAULT.into());
    let now = told.name.clone().unwrap_or_else(|| DEFAULT.into());
    let offers = disk.offers();
    if builtin().1.contains(&cur) {
        ensure_eq!((&told.name, &told.theme), (&before.0, &before.1), "changed-by-itself");
        return Ok(());
    }
    match offers.get(&cur) {
        None => {
            ensure_eq!(now, DEFAULT, "gone-still-in-force");
            ensure_eq!(told.theme, builtin().0[DEFAULT], "default-contents");
        }
        Some(v) => {
            if removed.contains(&cur) && now == DEFAULT {
                // it was not there for a while
                ensure_eq!(told.theme, builtin().0[DEFAULT], "default-contents");
                return Ok(());
            }
            ensure_eq!(now, cur, "other-in-force");
            match v {
                Some(v) => ensure_eq!(&told.theme, v, "old-contents", "{}", cur),
                None => (),
            }
        }
    }
    Ok(())
}

fn files(s: &mut Src) -> R {
    let (sc, mut disk) = setup(s);
    let mut config = sc.dir().canonicalize().unwrap().to_str().unwrap().to_string();
    if s.chance(1, 4) {
        s.log(|| "through a linked directory".into());
        std::os::unix::fs::symlink(&config, sc.path("link")).unwrap();
        config = sc.path("link");
    }
    let mut told = Told { name: None, theme: Value::Null, names: vec![], changes: 0 };
    let mut d = start(&config, &mut told);
    disk.date_dumps();
    names(&disk, &told)?;
    for _ in 0..s.range(2, 14) {
        match s.weighted(&[6, 5, 1]) {
            0 => {
                let before = (told.name.clone(), told.theme.clone());
                let mut removed = HashSet::new();
                let mut events = vec![];
                for _ in 0..(if s.chance(1, 4) { s.range(2, 3) } else { 1 }) {
                    if let Some(e) = change(s, &mut disk, &[]) {
                        if e.0 >= 3 {
                            removed.insert(stem(&e.1[0]));
                        }
                        events.push(e);
                    }
                }
                if events.is_empty() {
                    continue;
                }
                let mut any = false;
                for (k, ps) in &events {
                    if ps.iter().any(|p| disk.on_offer(p)) {
                        d.core.inner().verif_theme_event(*k, ps);
                        any = true;
                    }
                }
                told.follow(&mut d);
                if any {
                    judge(&disk, &told, &before, &removed)?;
                } else {
                    names(&disk, &told)?;
                }
                disk.date_dumps();
            }
            1 => set(s, &mut d, &mut disk, &mut told)?,
            _ => {
                // the editor ends; files change
                drop(d);
                s.log(|| "restart".into());
                for _ in 0..s.range(0, 2) {
                    let there: Vec<PathBuf> = disk.files.keys().cloned().collect();
                    let p = if !there.is_empty() && s.bool() { s.pick(&there).clone() } else { disk.path(s) };
                    if s.chance(1, 3) {
                        let _ = std::fs::remove_file(&p);
                        disk.files.remove(&p);
                    } else if disk.free(&p, None) {
                        let (t, v) = content(s);
                        std::fs::write(&p, t).unwrap();
                        stamp(&p, disk.tick());
                        disk.files.insert(p, v);
                    }
                }
                d = start(&config, &mut told);
                names(&disk, &told)?;
                disk.date_dumps();
            }
        }
    }
    Ok(())
}

/// the same with the real watcher
fn live(s: &mut Src) -> R {
    let (sc, mut disk) = setup(s);
    let mut config = sc.dir().canonicalize().unwrap().to_str().unwrap().to_string();
    if s.chance(1, 4) {
        s.log(|| "through a linked directory".into());
        std::os::unix::fs::symlink(&config, sc.path("link")).unwrap();
        config = sc.path("link");
    }
    let mut told = Told { name: None, theme: Value::Null, names: vec![], changes: 0 };
    let mut d = start(&config, &mut told);
    names(&disk, &told)?;
    // (what happens to one file at a time is joined by the watcher, even into nothing)
    let mut last: Vec<PathBuf> = vec![];
    for _ in 0..s.range(2, 6) {
        let before = (told.name.clone(), told.theme.clone());
        let mut removed = HashSet::new();
        match change(s, &mut disk, &last) {
            Some((2, _)) | None => (),
            Some((k, ps)) => {
                if k >= 3 {
                    removed.insert(stem(&ps[0]));
                }
                last.extend(ps);
            }
        }
        let t0 = Instant::now();
        let mut nudged = t0;
        loop {
            std::thread::sleep(Duration::from_millis(15));
            d.settle();
            told.follow(&mut d);
            match judge(&disk, &told, &before, &removed) {
                Ok(()) => break,
                Err(e) => {
                    if t0.elapsed() > Duration::from_secs(15) {
                        return Err(e);
                    }
                    if nudged.elapsed() > Duration::from_millis(1500) {
                        // wakes the thread which gathers notifications (see C17)
                        std::fs::write(disk.dir.join("nudge"), "n").unwrap();
                        nudged = Instant::now();
                    }
                }
            }
        }
        // dumps carry the real time, the files an old one: nothing to date
        if s.chance(2, 3) {
            let name = s.pick(STEMS).to_string();
            s.log(|| format!("set_theme {:?}", name));
            let t0 = Instant::now();
            // (the last change may not have been noticed yet)
            loop {
                match set_to(&name, s, &mut d, &mut disk, &mut told) {
                    Ok(()) => break,
                    Err(e) if t0.elapsed() > Duration::from_secs(15) => return Err(e),
                    Err(_) => (),
                }
                if t0.elapsed() > Duration::from_millis(1500) {
                    std::fs::write(disk.dir.join("nudge"), "n").unwrap();
                }
                std::thread::sleep(Duration::from_millis(60));
                d.settle();
                told.follow(&mut d);
            }
        }
    }
    Ok(())
}
