//! C15: files, against a model of the directory.
use crate::drive::{Driver, Scratch};
use crate::files::{body, decode, listing, show, Fs, BOM};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;

pub fn check() -> Check {
    Check::new(
        "C15",
        "a file was saved over, saved under another name or refused",
    )
    .arm("history", 5_000, 80_000, history)
    .assume("a text whose first character is U+FEFF is read back as one with a byte-order mark")
}

const NAMES: &[&str] = &[
    "f.rs",
    "f.rs.swp",
    "f",
    "f.swp",
    "noext",
    "noext.swp",
    ".hid",
    ".hid.swp",
    "a b.txt",
    "é.日",
    "f.rs.swp.swp",
    "x..y",
    "sub/z.c",
    "sub/z.c.swp",
    "f.tmp",
    "f.rs~",
];

pub fn same(got: &Fs, want: &Fs, when: &str) -> R {
    for k in got.keys().chain(want.keys()) {
        match (got.get(k), want.get(k)) {
            (Some(g), Some(w)) => {
                ensure!(
                    g.0 == w.0,
                    format!("bytes-{}", when),
                    "{:?} holds {} ({}), should be {} ({})",
                    k,
                    show(&g.0),
                    g.0.len(),
                    show(&w.0),
                    w.0.len()
                );
                ensure!(
                    g.1 == w.1,
                    format!("mode-{}", when),
                    "{:?} has mode {:o}, should be {:o}",
                    k,
                    g.1,
                    w.1
                );
            }
            (None, _) => return pbt::fail(format!("gone-{}", when), format!("{:?} is gone", k)),
            _ => return pbt::fail(format!("extra-{}", when), format!("{:?} appeared", k)),
        }
    }
    Ok(())
}

/// bytes of a file, and its text if it is one
fn bytes(s: &mut Src) -> (Vec<u8>, bool) {
    let t = body(s);
    let mut b = if s.chance(1, 3) { BOM.to_vec() } else { vec![] };
    b.extend_from_slice(t.as_bytes());
    if s.chance(1, 5) {
        let bad: &[u8] = s.pick(&[
            &b"\xff"[..],
            b"\x80",
            b"\xc3",
            b"\xe6\x97",
            b"\xf0\x9f\xa6",
            b"\xc0\x80",
            b"\xed\xa0\x80",
            b"\xf4\x90\x80\x80",
            b"\xff\xfea\0",
        ]);
        let at = if s.bool() {
            b.len()
        } else {
            s.range(0, b.len())
        };
        b.splice(at..at, bad.iter().cloned());
        let ok = std::str::from_utf8(&b).is_ok();
        return (b, ok);
    }
    (b, true)
}

struct Buf {
    id: String,
    file: Option<String>,
    bom: bool,
    text: String,
}

fn saved(d: &mut Driver, b: &Buf) -> Vec<u8> {
    let c = d.req("get_config", json!({ "view_id": b.id })).unwrap();
    let mut out = if b.bom { BOM.to_vec() } else { vec![] };
    out.extend_from_slice(b.text.as_bytes());
    let le = c["line_ending"].as_str().unwrap();
    if c["save_with_newline"] == json!(true) && !b.text.is_empty() && !b.text.ends_with(le) {
        out.extend_from_slice(le.as_bytes());
    }
    out
}

fn history(s: &mut Src) -> R {
    let sc = Scratch::new();
    std::fs::create_dir(sc.path("sub")).unwrap();
    std::fs::create_dir(sc.path("dir.d")).unwrap();
    let mut valid: BTreeMap<String, bool> = BTreeMap::new();
    for _ in 0..s.range(0, 5) {
        let n = *s.pick(NAMES);
        let (b, ok) = bytes(s);
        let mode = *s.pick(&[0o644u32, 0o600, 0o755, 0o444, 0o666, 0o700, 0o640, 0o4755]);
        s.log(|| format!("{:?} ({:o}) = {}", n, mode, show(&b)));
        std::fs::write(sc.path(n), &b).unwrap();
        std::fs::set_permissions(sc.path(n), std::fs::Permissions::from_mode(mode)).unwrap();
        valid.insert(n.to_string(), ok);
    }
    let mut fs = listing(&sc);
    let mut d = Driver::new();
    let mut other = Driver::new();
    if s.chance(1, 3) {
        let le = *s.pick(&["\r\n", "\n"]);
        d.set_config(json!("general"), json!({"line_ending": le, "save_with_newline": s.chance(2, 3), "autodetect_whitespace": s.bool()}));
        s.log(|| format!("line ending {:?}", le));
    }
    let mut bufs: Vec<Buf> = vec![];
    for _ in 0..s.range(2, 14) {
        let k = bufs.len();
        let some = if k > 0 { 1 } else { 0 };
        match s.weighted(&[
            if k < 3 { 4 } else { 0 },
            4 * some,
            6 * some,
            3 * some,
            some,
            1,
            some,
        ]) {
            0 => {
                let name = *s.pick(NAMES);
                if bufs.iter().any(|b| b.file.as_deref() == Some(name)) {
                    continue;
                }
                let new = s.chance(1, 5);
                s.log(|| format!("open {:?}", if new { None } else { Some(name) }));
                if new {
                    let id = d.view();
                    bufs.push(Buf {
                        id,
                        file: None,
                        bom: false,
                        text: String::new(),
                    });
                    continue;
                }
                let r = d.open(Some(&sc.path(name)));
                match (valid.get(name), r) {
                    (Some(false), Ok(_)) => {
                        return pbt::fail("opened-invalid", format!("{:?}", name))
                    }
                    (Some(false), Err(_)) => {
                        s.nontrivial();
                        s.label("refused");
                    }
                    (_, Err(e)) => {
                        return pbt::fail("open-refused", format!("{:?}: {:?}", name, e))
                    }
                    (Some(true), Ok(id)) => {
                        let (text, bom) = decode(&fs[name].0);
                        if bom {
                            s.label("byte-order mark");
                        }
                        ensure_eq!(d.text(&id), text, "opened-text");
                        bufs.push(Buf {
                            id,
                            file: Some(name.into()),
                            bom,
                            text,
                        });
                    }
                    (None, Ok(id)) => {
                        ensure_eq!(d.text(&id), "", "opened-text");
                        bufs.push(Buf {
                            id,
                            file: Some(name.into()),
                            bom: false,
                            text: String::new(),
                        });
                    }
                }
            }
            1 => {
                let i = s.idx(k);
                let t = body(s);
                let b = &mut bufs[i];
                match s.idx(6) {
                    4 | 5 => {
                        let c = *s.pick(&["\r", "\n", "\r\n", "x"]);
                        d.edit(&b.id, "move_to_end_of_document", json!([]));
                        d.edit(&b.id, "insert", json!({ "chars": c }));
                    }
                    0 => {
                        d.edit(&b.id, "move_to_end_of_document", json!([]));
                        d.edit(&b.id, "insert", json!({ "chars": t }));
                    }
                    1 => {
                        d.edit(&b.id, "move_to_end_of_document", json!([]));
                        d.edit(&b.id, "delete_backward", json!([]));
                    }
                    2 => d.fill(&b.id, &t),
                    _ => d.edit(&b.id, "undo", json!([])),
                }
                d.settle();
                b.text = d.text(&b.id);
                s.log(|| format!("{} now {}", b.id, pbt::trunc(&format!("{:?}", b.text), 120)));
            }
            2 | 3 => {
                let i = s.idx(k);
                let as_new = s.chance(1, 3) || bufs[i].file.is_none();
                let name = if as_new {
                    s.pick(NAMES).to_string()
                } else {
                    bufs[i].file.clone().unwrap()
                };
                if bufs
                    .iter()
                    .enumerate()
                    .any(|(j, b)| j != i && b.file.as_ref() == Some(&name))
                {
                    continue;
                }
                s.log(|| format!("save {} as {:?}", bufs[i].id, name));
                let want = saved(&mut d, &bufs[i]);
                d.take();
                d.note(
                    "save",
                    json!({"view_id": bufs[i].id, "file_path": sc.path(&name)}),
                );
                let alerts: Vec<_> = d.take().into_iter().filter(|(m, _)| m == "alert").collect();
                ensure!(alerts.is_empty(), "save-failed", "{:?}", alerts);
                let now = listing(&sc);
                let mode = match fs.get(&name) {
                    Some((_, m)) => *m,
                    None => now.get(&name).map_or(0, |x| x.1),
                };
                if fs.contains_key(&name) {
                    s.nontrivial();
                }
                if as_new {
                    s.nontrivial();
                    s.label("saved as");
                }
                fs.insert(name.clone(), (want, mode));
                same(&now, &fs, if as_new { "saved-as" } else { "saved" })?;
                valid.insert(name.clone(), true);
                bufs[i].file = Some(name.clone());
                ensure_eq!(d.text(&bufs[i].id), bufs[i].text, "text-after-save");
                // as another user of the file sees it
                let v = other.open(Some(&sc.path(&name))).unwrap();
                let shown = decode(&fs[&name].0);
                ensure_eq!(other.text(&v), shown.0, "reopened-text");
                other.note("close_view", json!({ "view_id": v }));
            }
            4 => {
                // a target that cannot be written
                let i = s.idx(k);
                let name = *s.pick(&[
                    "dir.d",
                    "missing/f.rs",
                    "f.rs/x",
                    "",
                    "sub/..",
                    "dir.d/",
                    "/",
                ]);
                if name == "f.rs/x" && !fs.contains_key("f.rs") {
                    continue;
                }
                s.log(|| format!("save {} as {:?}", bufs[i].id, name));
                d.take();
                d.note("save", json!({"view_id": bufs[i].id, "file_path": if name.len() < 2 { name.to_string() } else { sc.path(name) }}));
                ensure!(
                    d.take().iter().any(|(m, _)| m == "alert"),
                    "no-alert",
                    "{:?}",
                    name
                );
                ensure_eq!(d.text(&bufs[i].id), bufs[i].text, "text-after-failed-save");
                s.nontrivial();
            }
            5 => {
                // permissions changed by someone
                let names: Vec<String> = fs.keys().cloned().collect();
                if names.is_empty() {
                    continue;
                }
                let n = s.pick(&names).clone();
                let mode = *s.pick(&[0o600u32, 0o644, 0o755, 0o400]);
                s.log(|| format!("chmod {:o} {:?}", mode, n));
                std::fs::set_permissions(sc.path(&n), std::fs::Permissions::from_mode(mode))
                    .unwrap();
                fs.get_mut(&n).unwrap().1 = mode;
                s.label("chmod");
            }
            _ => {
                let i = s.idx(k);
                s.log(|| format!("close {}", bufs[i].id));
                d.note("close_view", json!({ "view_id": bufs[i].id }));
                bufs.remove(i);
            }
        }
        same(&listing(&sc), &fs, "other")?;
        for b in &bufs {
            ensure_eq!(d.text(&b.id), b.text, "text-of-buffer");
        }
    }
    Ok(())
}
