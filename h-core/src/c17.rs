//! C17: other programs change the files while they are being edited.
use crate::drive::{Driver, Scratch};
use crate::files::{decode, listing, show, BOM};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check::new("C17", "a buffer was saved or notified after its file had been changed by another program")
        .arm("history", 6_000, 90_000, history)
        .arm("live", 72, 1_000, live)
        .threads(24)
        .assume("a change by another program changes the file's modification time")
        .assume("a notification may be late until the next one: the timer of the notify crate (5.0.0-pre.1) can miss its wake-up")
        .assume("two programs do not write the file within the same few milliseconds")
}

const NAMES: &[&str] = &["a.txt", "b", "sub/c.rs"];

/// distinct modification times, none of them now
fn stamp(path: &str, n: usize) {
    let c = std::ffi::CString::new(path).unwrap();
    let t = libc::timespec {
        tv_sec: 1_000_000_000 + n as i64,
        tv_nsec: 0,
    };
    let ts = [t, t];
    assert_eq!(
        unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0) },
        0
    );
}

fn content(s: &mut Src, n: usize) -> Vec<u8> {
    let mut b = if s.chance(1, 5) { BOM.to_vec() } else { vec![] };
    b.extend_from_slice(
        format!(
            "{}v{}{}",
            s.pick(&["", "é\n", "x\ny\n", "\t"]),
            n,
            s.pick(&["", "\n", "\r\n", "\nend"])
        )
        .as_bytes(),
    );
    if s.chance(1, 10) {
        b.push(0xff);
    }
    b
}

#[derive(Clone, PartialEq, Debug)]
enum Seen {
    /// there was no file
    Nothing,
    Version(usize),
}

struct Buf {
    id: String,
    file: Option<String>,
    seen: Seen,
    /// the text when it was last read or saved
    base: String,
    text: String,
    /// nothing was done to it since
    clean: bool,
    bom: bool,
    lost: bool,
}

#[derive(Default)]
struct Disk {
    now: BTreeMap<String, (Vec<u8>, usize)>,
    n: usize,
}

impl Disk {
    fn seen(&self, f: &str) -> Seen {
        self.now
            .get(f)
            .map_or(Seen::Nothing, |x| Seen::Version(x.1))
    }
    fn put(&mut self, f: &str, b: Vec<u8>) {
        self.n += 1;
        self.now.insert(f.into(), (b, self.n));
    }
}

fn bytes(d: &mut Driver, b: &Buf) -> Vec<u8> {
    let c = d.req("get_config", json!({ "view_id": b.id })).unwrap();
    let mut out = if b.bom { BOM.to_vec() } else { vec![] };
    out.extend_from_slice(b.text.as_bytes());
    let le = c["line_ending"].as_str().unwrap();
    if !b.text.is_empty() && !b.text.ends_with(le) {
        out.extend_from_slice(le.as_bytes());
    }
    out
}

fn on_disk(sc: &Scratch, disk: &Disk, sig: &str) -> R {
    let got = listing(sc);
    for k in got.keys().chain(disk.now.keys()) {
        let (g, w) = (got.get(k).map(|x| &x.0), disk.now.get(k).map(|x| &x.0));
        ensure!(
            g == w,
            sig,
            "{:?} holds {:?}, should be {:?}",
            k,
            g.map(|x| show(x)),
            w.map(|x| show(x))
        );
    }
    Ok(())
}

/// idle work except for notifications, which come when the history says so
fn settle(d: &mut Driver) {
    loop {
        let t = d.peer.0.lock().unwrap().idle.pop_front();
        match t {
            Some(1002) => {}
            Some(t) => d.idle(t),
            None => return,
        }
    }
}

fn history(s: &mut Src) -> R {
    let sc = Scratch::new();
    std::fs::create_dir(sc.path("sub")).unwrap();
    let mut disk = Disk::default();
    for n in NAMES {
        if s.chance(2, 3) {
            let b = content(s, disk.n);
            s.log(|| format!("{:?} = {}", n, show(&b)));
            std::fs::write(sc.path(n), &b).unwrap();
            disk.put(n, b);
            stamp(&sc.path(n), disk.n);
        }
    }
    let mut d = Driver::new();
    let mut bufs: Vec<Buf> = vec![];
    for _ in 0..s.range(3, 18) {
        let k = bufs.len();
        let some = if k > 0 { 1 } else { 0 };
        match s.weighted(&[
            if k < 3 { 4 } else { 0 },
            4 * some,
            5 * some,
            some,
            5,
            5,
            some,
        ]) {
            0 => {
                let f = *s.pick(NAMES);
                s.log(|| format!("open {:?}", f));
                let r = d.req("new_view", json!({ "file_path": sc.path(f) }));
                let good = disk
                    .now
                    .get(f)
                    .map_or(true, |x| std::str::from_utf8(&x.0).is_ok());
                ensure_eq!(r.is_ok(), good, "open");
                settle(&mut d);
                if let Ok(v) = r {
                    let id = v.as_str().unwrap().to_string();
                    let (text, bom) = disk.now.get(f).map(|x| decode(&x.0)).unwrap_or_default();
                    ensure_eq!(d.text(&id), text, "opened-text");
                    bufs.push(Buf {
                        id,
                        file: Some(f.into()),
                        seen: disk.seen(f),
                        base: text.clone(),
                        text,
                        clean: true,
                        bom,
                        lost: false,
                    });
                }
            }
            1 => {
                let i = s.idx(k);
                let b = &mut bufs[i];
                let what = *s.pick(&["insert", "insert", "undo", "delete_backward", "redo"]);
                s.log(|| format!("{} in {}", what, b.id));
                if what == "insert" {
                    let c = *s.pick(&["x", "y\n", "é"]);
                    d.edit(&b.id, what, json!({ "chars": c }));
                } else {
                    d.edit(&b.id, what, json!([]));
                }
                settle(&mut d);
                b.text = d.text(&b.id);
                b.clean = false;
            }
            2 | 3 => {
                let i = s.idx(k);
                let own = s.chance(4, 5) && bufs[i].file.is_some();
                let f = if own {
                    bufs[i].file.clone().unwrap()
                } else {
                    s.pick(NAMES).to_string()
                };
                let own = bufs[i].file.as_ref() == Some(&f);
                s.log(|| format!("save {} as {:?}", bufs[i].id, f));
                let want = bytes(&mut d, &bufs[i]);
                let now = disk.seen(&f);
                let changed = own && now != Seen::Nothing && now != bufs[i].seen;
                let removed = own && now == Seen::Nothing && bufs[i].seen != Seen::Nothing;
                if bufs.iter().filter(|b| b.file.as_ref() == Some(&f)).count() > 1 || !own {
                    std::thread::sleep(std::time::Duration::from_millis(8));
                }
                d.take();
                d.note(
                    "save",
                    json!({"view_id": bufs[i].id, "file_path": sc.path(&f)}),
                );
                let alert = d.take().iter().any(|(m, _)| m == "alert");
                // with the same contents nothing is lost either way
                let same = disk.now.get(&f).map_or(false, |x| x.0 == want);
                if changed && (alert || !same) {
                    s.nontrivial();
                    s.label("save over a change");
                    ensure!(
                        same || std::fs::read(sc.path(&f)).ok().as_ref() != Some(&want),
                        if bufs[i].seen == Seen::Nothing {
                            "overwritten-new"
                        } else {
                            "overwritten"
                        },
                        "{:?} held {}",
                        f,
                        show(&disk.now[&f].0)
                    );
                    on_disk(&sc, &disk, "refused-save-changed-files")?;
                    ensure!(alert, "not-reported", "{:?} not saved", f);
                } else if removed && alert {
                    on_disk(&sc, &disk, "refused-save-changed-files")?;
                } else {
                    ensure!(!alert, "save-refused", "{:?} had not changed", f);
                    disk.put(&f, want);
                    on_disk(&sc, &disk, "saved")?;
                    let b = &mut bufs[i];
                    b.seen = disk.seen(&f);
                    b.file = Some(f);
                    b.base = b.text.clone();
                    b.clean = true;
                }
            }
            4 => {
                let f = *s.pick(NAMES);
                match s.weighted(&[6, 2, 1]) {
                    0 => {
                        let b = content(s, disk.n);
                        let by_rename = s.bool();
                        s.log(|| {
                            format!(
                                "other program writes {:?}: {}{}",
                                f,
                                show(&b),
                                if by_rename { " (renamed over)" } else { "" }
                            )
                        });
                        if by_rename {
                            std::fs::write(sc.path("ext.tmp"), &b).unwrap();
                            std::fs::rename(sc.path("ext.tmp"), sc.path(f)).unwrap();
                        } else {
                            std::fs::write(sc.path(f), &b).unwrap();
                        }
                        disk.put(f, b);
                        stamp(&sc.path(f), disk.n);
                    }
                    1 => {
                        s.log(|| format!("other program removes {:?}", f));
                        let _ = std::fs::remove_file(sc.path(f));
                        disk.now.remove(f);
                    }
                    _ => {
                        // the same contents again
                        if let Some((b, _)) = disk.now.get(f).cloned() {
                            s.log(|| format!("other program touches {:?}", f));
                            disk.put(f, b);
                            stamp(&sc.path(f), disk.n);
                        }
                    }
                }
            }
            5 => {
                let f = *s.pick(NAMES);
                s.log(|| format!("notification for {:?}", f));
                let kind = s.idx(4);
                let p = std::path::PathBuf::from(sc.path(f))
                    .canonicalize()
                    .unwrap_or_else(|_| sc.path(f).into());
                d.core.inner().verif_file_event(kind, &p);
                settle(&mut d);
                // a removal says nothing about a file which is there
                let must = kind != 3;
                for b in bufs.iter_mut().filter(|b| b.file.as_deref() == Some(f)) {
                    let t = d.text(&b.id);
                    let now = disk.seen(f);
                    if now == b.seen || now == Seen::Nothing {
                        ensure_eq!(t, b.text, "text-changed");
                        continue;
                    }
                    s.nontrivial();
                    let new = std::str::from_utf8(&disk.now[f].0)
                        .ok()
                        .map(|_| decode(&disk.now[f].0));
                    match new {
                        None => ensure_eq!(t, b.text, "text-changed"),
                        Some((new, bom)) => {
                            if b.clean && must {
                                s.label("taken over");
                                ensure_eq!(t, new, "not-taken-over");
                            } else if b.text != b.base {
                                s.label("kept");
                                ensure_eq!(t, b.text, "unsaved-edits-lost");
                            } else if t != b.text {
                                ensure_eq!(t, new, "neither");
                            }
                            if t == new && (b.clean && must || t != b.text) {
                                b.seen = now;
                                b.base = new.clone();
                                b.text = new;
                                b.clean = true;
                                b.bom = bom;
                            } else if t == new {
                                // may or may not have been taken over: not followed further
                                b.lost = true;
                            }
                        }
                    }
                }
                bufs.retain(|b| !b.lost);
            }
            _ => {
                let i = s.idx(k);
                s.log(|| format!("close {}", bufs[i].id));
                d.note("close_view", json!({ "view_id": bufs[i].id }));
                bufs.remove(i);
            }
        }
        on_disk(&sc, &disk, "files")?;
        for b in &bufs {
            ensure_eq!(d.text(&b.id), b.text, "text-of-buffer");
        }
    }
    Ok(())
}

/// real notifications
fn live(s: &mut Src) -> R {
    let sc = Scratch::new();
    std::fs::create_dir(sc.path("d")).unwrap();
    std::os::unix::fs::symlink(sc.path("d"), sc.path("link")).unwrap();
    let pause = |ms| std::thread::sleep(std::time::Duration::from_millis(ms));
    let file = sc.path("d/f.txt");
    let named = if s.chance(1, 4) {
        sc.path("link/f.txt")
    } else {
        file.clone()
    };
    let missing = s.chance(1, 5);
    let mut n = 0;
    if !missing {
        std::fs::write(&file, "v0\n").unwrap();
    }
    let mut d = Driver::new();
    s.log(|| {
        format!(
            "open {} {}",
            if named == file {
                "d/f.txt"
            } else {
                "link/f.txt"
            },
            if missing { "(no such file)" } else { "" }
        )
    });
    let v = d.open(Some(&named)).unwrap();
    if missing {
        d.edit(&v, "insert", json!({"chars": "first\n"}));
        d.note("save", json!({"view_id": v, "file_path": named}));
    }
    let mut text = d.text(&v);
    let mut hist = vec![];
    for _ in 0..s.range(1, 4) {
        pause(25);
        match s.weighted(&[4, 3, 2]) {
            0 => {
                // pristine: takes over
                n += 1;
                let new = format!("v{}\n{}", n, text);
                let how = s.idx(4);
                hist.push(format!("other program writes, way {}", how));
                s.log(|| hist.last().unwrap().clone());
                s.nontrivial();
                match how {
                    0 => std::fs::write(&file, &new).unwrap(),
                    1 => {
                        std::fs::write(sc.path("d/tmp"), &new).unwrap();
                        std::fs::rename(sc.path("d/tmp"), &file).unwrap();
                    }
                    2 => {
                        std::fs::write(sc.path("tmp"), &new).unwrap();
                        std::fs::rename(sc.path("tmp"), &file).unwrap();
                    }
                    _ => {
                        std::fs::remove_file(&file).unwrap();
                        std::fs::write(&file, &new).unwrap();
                    }
                }
                let start = std::time::Instant::now();
                loop {
                    pause(20);
                    d.settle();
                    let t = d.text(&v);
                    if t == new {
                        break;
                    }
                    ensure_eq!(t, text, "live-neither");
                    if start.elapsed().as_millis() > 1500 {
                        // wakes the thread which gathers notifications (see the assumption)
                        std::fs::write(sc.path("d/nudge"), "n").unwrap();
                        pause(200);
                    }
                    ensure!(
                        start.elapsed().as_secs() < 15,
                        format!("live-not-taken-over-{}", how),
                        "{:?} ({:?})",
                        t,
                        hist
                    );
                }
                text = new;
            }
            1 => {
                hist.push("edit and save".into());
                s.log(|| hist.last().unwrap().clone());
                d.edit(&v, "insert", json!({"chars": "e"}));
                d.take();
                d.note("save", json!({"view_id": v, "file_path": named}));
                text = d.text(&v);
                let alert = d.take().into_iter().find(|(m, _)| m == "alert");
                ensure!(
                    alert.is_none(),
                    "live-save-refused",
                    "{:?} {:?}",
                    alert,
                    hist
                );
                let b = std::fs::read_to_string(&file).unwrap();
                ensure!(b.starts_with(&text), "live-saved", "{:?} {:?}", b, text);
                if b != text {
                    // reads back with the final newline
                    d.fill(&v, &b);
                    d.note("save", json!({"view_id": v, "file_path": named}));
                    text = b;
                }
            }
            _ => {
                // unsaved edits: keeps them, and does not save over the change
                hist.push("edit, other program writes, save".into());
                s.log(|| hist.last().unwrap().clone());
                s.nontrivial();
                d.edit(&v, "insert", json!({"chars": "u"}));
                let mine = d.text(&v);
                n += 1;
                let other = format!("w{}\n", n);
                std::fs::write(&file, &other).unwrap();
                if s.bool() {
                    pause(250);
                    d.settle();
                    ensure_eq!(d.text(&v), mine, "live-unsaved-edits-lost");
                }
                d.take();
                d.note("save", json!({"view_id": v, "file_path": named}));
                ensure_eq!(
                    std::fs::read_to_string(&file).unwrap(),
                    other,
                    "live-overwritten"
                );
                ensure!(
                    d.take().iter().any(|(m, _)| m == "alert"),
                    "live-not-reported",
                    "{:?}",
                    hist
                );
                ensure_eq!(d.text(&v), mine, "live-unsaved-edits-lost");
                return Ok(());
            }
        }
    }
    Ok(())
}
