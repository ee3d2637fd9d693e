//! C16: every file-system call of a save fails or is the last one.
use crate::drive::{Driver, Scratch};
use crate::fault::{self, Kind};
use crate::files::{body, decode, listing, show, Fs};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::json;
use std::collections::BTreeSet;
use std::os::unix::fs::PermissionsExt;

pub fn check() -> Check {
    Check::new("C16", "a fault struck during a save over an existing file")
        .arm("faults", 180, 4_000, faults)
        .assume("a process that dies is one whose file-system calls have no effect from some call on, the call itself being done, half done or not done")
}

const KINDS: &[Kind] = &[
    Kind::Fail(libc::EIO),
    Kind::Fail(libc::ENOSPC),
    Kind::Fail(libc::EACCES),
    Kind::Fail(libc::EINTR),
    Kind::FailFrom(libc::ENOSPC),
    Kind::Short,
    Kind::ShortThenFail(libc::ENOSPC),
    Kind::Dead,
    Kind::DeadHalf,
];

struct Scene {
    start: Vec<(String, Vec<u8>, u32)>,
    open: Option<String>,
    edits: Vec<(&'static str, String)>,
    target: String,
    /// saved once before
    twice: bool,
}

struct Run {
    sc: Scratch,
    d: Driver,
    v: String,
    bom: bool,
}

impl Scene {
    fn set(&self) -> Run {
        let sc = Scratch::new();
        for (n, b, m) in &self.start {
            std::fs::write(sc.path(n), b).unwrap();
            std::fs::set_permissions(sc.path(n), std::fs::Permissions::from_mode(*m)).unwrap();
        }
        let mut d = Driver::new();
        let v = d.open(self.open.as_ref().map(|n| sc.path(n)).as_deref()).unwrap();
        let bom = self.open.as_ref().and_then(|n| self.start.iter().find(|x| x.0 == *n)).map_or(false, |x| decode(&x.1).1);
        if self.twice {
            d.note("save", json!({"view_id": v, "file_path": sc.path(&self.target)}));
        }
        for (how, t) in &self.edits {
            edit(&mut d, &v, how, t);
        }
        d.take();
        Run { sc, d, v, bom }
    }
}

fn edit(d: &mut Driver, v: &str, how: &str, t: &str) {
    match how {
        "append" => {
            d.edit(v, "move_to_end_of_document", json!([]));
            d.edit(v, "insert", json!({ "chars": t }));
        }
        _ => d.fill(v, t),
    }
}

impl Run {
    fn wanted(&mut self) -> Vec<u8> {
        let c = self.d.req("get_config", json!({ "view_id": self.v })).unwrap();
        let t = self.d.text(&self.v);
        let mut out = if self.bom { b"\xef\xbb\xbf".to_vec() } else { vec![] };
        out.extend_from_slice(t.as_bytes());
        if !t.is_empty() && !t.ends_with(c["line_ending"].as_str().unwrap()) {
            out.extend_from_slice(c["line_ending"].as_str().unwrap().as_bytes());
        }
        out
    }
    fn save(&mut self, target: &str) -> bool {
        self.d.take();
        let p = self.sc.path(target);
        self.d.note("save", json!({"view_id": self.v, "file_path": p}));
        self.d.take().iter().any(|(m, _)| m == "alert")
    }
}

fn faults(s: &mut Src) -> R {
    let names = ["f.rs", "g", "h.txt"];
    let mut start = vec![];
    for n in names.iter().chain(&["f.rs.swp", "g.swp"]) {
        if s.chance(2, 3) {
            let mut b = if s.chance(1, 4) { b"\xef\xbb\xbf".to_vec() } else { vec![] };
            b.extend_from_slice(body(s).as_bytes());
            start.push((n.to_string(), b, *s.pick(&[0o644u32, 0o600, 0o755])));
        }
    }
    let open = if s.chance(1, 5) { None } else { Some(s.pick(&names).to_string()) };
    let target = match &open {
        Some(o) if s.chance(3, 4) => o.clone(),
        _ => s.pick(&names).to_string(),
    };
    let mut edits = vec![];
    for _ in 0..s.range(0, 2) {
        edits.push((*s.pick(&["append", "fill"]), body(s)));
    }
    let sce = Scene { start, open, edits, target, twice: s.chance(1, 4) };
    s.log(|| {
        format!(
            "files {:?}, open {:?}, then {:?}, save as {:?}{}",
            sce.start.iter().map(|(n, b, m)| format!("{} {:o} {}", n, m, show(b))).collect::<Vec<_>>(),
            sce.open,
            sce.edits.iter().map(|(h, t)| format!("{} {}", h, pbt::trunc(&format!("{:?}", t), 60))).collect::<Vec<_>>(),
            sce.target,
            if sce.twice { " (saved before)" } else { "" }
        )
    });
    // the calls
    let mut r = sce.set();
    let dir = r.sc.dir().to_str().unwrap().to_string();
    fault::start(&dir, usize::MAX, None);
    let failed = r.save(&sce.target);
    let plan = fault::stop();
    ensure!(!failed, "save-failed", "without a fault");
    let k = plan.calls.len();
    ensure!(plan.calls.iter().any(|c| c.starts_with("write") || c.starts_with("rename") || c.starts_with("open for")), "harness-sees-no-calls", "{:?}", plan.calls);
    s.log(|| format!("calls {:?}", plan.calls));
    drop(r);
    let over = sce.start.iter().any(|x| x.0 == sce.target) || sce.twice;
    for at in 0..k {
        for kind in KINDS {
            let w = plan.calls[at].starts_with("write") || plan.calls[at].starts_with("copy") || plan.calls[at].starts_with("sendfile");
            if !w && [Kind::Short, Kind::DeadHalf].contains(kind) || !w && matches!(kind, Kind::ShortThenFail(_)) {
                continue;
            }
            let mut r = sce.set();
            let dir = r.sc.dir().to_str().unwrap().to_string();
            let before = listing(&r.sc);
            let text = r.d.text(&r.v);
            let want = r.wanted();
            fault::start(&dir, at, Some(*kind));
            let alerted = r.save(&sce.target);
            let p = fault::stop();
            let dead = matches!(kind, Kind::Dead | Kind::DeadHalf);
            let ctx = format!("{:?} at call {} of {:?}", kind, at, p.calls);
            ensure!(p.hit, "not-deterministic", "{}", ctx);
            if over {
                s.nontrivial();
            }
            let after = listing(&r.sc);
            judge(&before, &after, &sce.target, &want, &ctx)?;
            if dead {
                // another process looks at the file
                let mut d = Driver::new();
                let v = d.open(Some(&r.sc.path(&sce.target))).map_err(|e| pbt::Fail { sig: "reopen".into(), msg: format!("{:?} {}", e, ctx) })?;
                let t = d.text(&v);
                let old = before.get(&sce.target).map(|x| decode(&x.0).0).unwrap_or_default();
                ensure!(t == decode(&want).0 || t == old, "reopened", "{:?} {}", t, ctx);
                continue;
            }
            let done = after.get(&sce.target).map(|x| &x.0) == Some(&want);
            ensure!(done || alerted, "unreported", "{}", ctx);
            // the buffer lives on
            ensure_eq!(r.d.text(&r.v), text, "text-after", "{}", ctx);
            edit(&mut r.d, &r.v.clone(), "append", "more\u{e9}");
            ensure_eq!(r.d.text(&r.v), format!("{}more\u{e9}", text), "not-editable", "{}", ctx);
            let want = r.wanted();
            let alerted = r.save(&sce.target);
            let now = listing(&r.sc);
            ensure!(!alerted && now.get(&sce.target).map(|x| &x.0) == Some(&want), "not-saved-again", "{} (alert {})", ctx, alerted);
        }
    }
    Ok(())
}

fn judge(before: &Fs, after: &Fs, target: &str, want: &[u8], ctx: &str) -> R {
    for n in before.keys().chain(after.keys()).collect::<BTreeSet<_>>() {
        let (b, a) = (before.get(n), after.get(n));
        if n == target {
            let ok = a == b || a.map(|x| &x.0[..]) == Some(want);
            ensure!(ok, "target-damaged", "{:?} was {:?}, is {:?}, should be that or {}: {}", n, b.map(|x| show(&x.0)), a.map(|x| show(&x.0)), show(want), ctx);
        } else if b.is_some() {
            ensure!(a.map(|x| &x.0) == b.map(|x| &x.0), "other-damaged", "{:?}: {}", n, ctx);
        }
    }
    Ok(())
}
