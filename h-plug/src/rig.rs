//! A front end, a core and plugin processes. The core runs in this process,
//! reached through a socket; it starts the plugins as it does for a user.
use pbt::{ensure, fail, Fail};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn patience() -> Duration {
    Duration::from_millis(
        std::env::var("PLUG_PATIENCE")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(30_000),
    )
}

#[derive(Default, Debug)]
pub struct FeView {
    /// the core has told of the view's settings
    pub ready: bool,
    pub config: serde_json::Map<String, Value>,
    pub language: Value,
    pub started: BTreeSet<String>,
    pub items: BTreeMap<(String, String), (String, String)>,
    pub hovers: Vec<(u64, String)>,
    /// plugin_started and plugin_stopped, as they came
    pub running: Vec<(bool, String)>,
    pub alerts: Vec<String>,
}

pub struct Rig {
    pub dir: PathBuf,
    w: UnixStream,
    rx: mpsc::Receiver<Value>,
    core: Option<std::thread::JoinHandle<()>>,
    id: u64,
    pub views: BTreeMap<String, FeView>,
    serial: u64,
    reports: BTreeMap<(String, String), Value>,
    /// of the logs of the plugins, what has been reported
    pub logs: BTreeMap<String, Vec<Value>>,
    pub marks: BTreeMap<String, Vec<Value>>,
    pub bad: Option<Fail>,
    pub closed: BTreeSet<String>,
}

/// how a plugin is made
#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub cache: &'static str,
    pub eager: &'static str,
    /// ends as soon as it is started
    pub broken: bool,
}

impl Drop for Rig {
    fn drop(&mut self) {
        let _ = self.w.shutdown(std::net::Shutdown::Both);
        for _ in 0..3 {
            self.reap();
            std::thread::sleep(Duration::from_micros(200));
        }
        if let Some(c) = self.core.take() {
            let until = Instant::now() + Duration::from_secs(5);
            while !c.is_finished() && Instant::now() < until {
                std::thread::sleep(Duration::from_micros(300));
            }
            if c.is_finished() {
                let _ = c.join();
            }
        }
        self.reap();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

impl Rig {
    /// the processes of the plugins
    pub fn pids(&self) -> Vec<i32> {
        std::fs::read_dir(self.dir.join("pids"))
            .map(|d| {
                d.filter_map(|e| e.ok()?.file_name().into_string().ok()?.parse().ok())
                    .collect()
            })
            .unwrap_or_default()
    }

    fn reap(&self) {
        for p in self.pids() {
            unsafe {
                libc::kill(p, libc::SIGKILL);
                libc::waitpid(p, std::ptr::null_mut(), 0);
            }
            let _ = std::fs::remove_file(self.dir.join("pids").join(p.to_string()));
        }
    }

    pub fn new(plugins: &[Spec]) -> Result<Rig, Fail> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let bad = |e: std::io::Error| Fail {
            sig: "setup".into(),
            msg: format!("{}", e),
        };
        let dir = std::env::temp_dir().join(format!(
            "xi-plug-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("pids")).map_err(bad)?;
        std::fs::create_dir_all(dir.join("docs")).map_err(bad)?;
        std::fs::create_dir_all(dir.join("config/plugins")).map_err(bad)?;
        for p in plugins {
            install(&dir, p).map_err(bad)?;
        }
        let (a, b) = UnixStream::pair().map_err(bad)?;
        a.set_write_timeout(Some(patience())).map_err(bad)?;
        let core = std::thread::spawn(move || {
            let r = b.try_clone().unwrap();
            let mut core = xi_core_lib::XiCore::new();
            let mut l = xi_rpc::RpcLoop::new(b);
            let _ = l.mainloop(|| BufReader::new(r), &mut core);
        });
        let (tx, rx) = mpsc::channel();
        let r = BufReader::new(a.try_clone().map_err(bad)?);
        std::thread::spawn(move || {
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        let v = serde_json::from_str(&l).unwrap_or(Value::Null);
                        if tx.send(v).is_err() {
                            break;
                        }
                    }
                    _ => break,
                }
            }
        });
        let mut rig = Rig {
            w: a,
            rx,
            core: Some(core),
            id: 0,
            views: BTreeMap::new(),
            serial: 0,
            reports: BTreeMap::new(),
            logs: BTreeMap::new(),
            marks: BTreeMap::new(),
            bad: None,
            closed: BTreeSet::new(),
            dir,
        };
        let c = rig.dir.join("config");
        rig.note("client_started", json!({ "config_dir": c }))?;
        Ok(rig)
    }

    pub fn doc(&self, name: &str) -> PathBuf {
        self.dir.join("docs").join(name)
    }

    fn send(&mut self, v: Value) -> Result<(), Fail> {
        let mut t = v.to_string();
        t.push('\n');
        self.w.write_all(t.as_bytes()).map_err(|e| Fail {
            sig: "core-died".into(),
            msg: format!("the core has ended: {}", e),
        })
    }

    pub fn note(&mut self, m: &str, p: Value) -> Result<(), Fail> {
        self.send(json!({"method": m, "params": p}))
    }

    /// The next message, if one comes in time.
    fn recv(&mut self, wait: Duration) -> Result<Option<Value>, Fail> {
        match self.rx.recv_timeout(wait) {
            Ok(v) => Ok(Some(v)),
            Err(mpsc::RecvTimeoutError::Timeout) => Ok(None),
            Err(_) => {
                std::thread::sleep(Duration::from_millis(50));
                let (m, l) = pbt::last_panic();
                fail(
                    "core-died",
                    format!("the core has ended, the last panic is {:?} at {}", m, l),
                )
            }
        }
    }

    pub fn req(&mut self, m: &str, p: Value) -> Result<Value, Fail> {
        self.id += 1;
        let id = self.id;
        self.send(json!({"id": id, "method": m, "params": p}))?;
        let until = Instant::now() + patience();
        loop {
            match self.recv(until.saturating_duration_since(Instant::now()))? {
                None => return fail("no-answer", format!("no answer to {}", m)),
                Some(v) if v.get("method").is_none() && v["id"] == json!(id) => {
                    ensure!(
                        v.get("error").is_none(),
                        "error-answer",
                        "{} is refused: {}",
                        m,
                        v["error"]
                    );
                    return Ok(v["result"].clone());
                }
                Some(v) => self.take(v)?,
            }
        }
    }

    fn take(&mut self, v: Value) -> Result<(), Fail> {
        let m = v["method"].as_str().unwrap_or("").to_string();
        let p = &v["params"];
        if m == "measure_width" {
            let w: Vec<Vec<f64>> = p
                .as_array()
                .unwrap()
                .iter()
                .map(|q| {
                    q["strings"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|s| s.as_str().unwrap().chars().count() as f64)
                        .collect()
                })
                .collect();
            let id = v["id"].clone();
            return self.send(json!({"id": id, "result": w}));
        }
        if m == "alert" {
            for x in self.views.values_mut() {
                x.alerts.push(p["msg"].to_string());
            }
        }
        let view = match p["view_id"].as_str() {
            Some(x) => x.to_string(),
            None => return Ok(()),
        };
        let s = |k: &str| p[k].as_str().unwrap_or("").to_string();
        if m == "add_status_item" && p["key"] == "report" {
            let r: Value = serde_json::from_str(p["value"].as_str().unwrap()).map_err(|e| Fail {
                sig: "status-item".into(),
                msg: format!("a value has been changed: {}", e),
            })?;
            let name = s("source");
            for b in r["problems"].as_array().unwrap() {
                let (of, what) = (b[0].as_str().unwrap_or(""), b[1].as_str().unwrap());
                // the core no longer has it to give
                let closed = self.closed.contains(of) && what.contains("missing view");
                if self.bad.is_none() && !closed {
                    self.bad = Some(Fail {
                        sig: "plugin-view".into(),
                        msg: format!("{} ({}): {}", name, of, what),
                    });
                }
            }
            self.logs
                .entry(name.clone())
                .or_default()
                .extend(r["log"].as_array().unwrap().iter().cloned());
            self.marks
                .entry(name.clone())
                .or_default()
                .extend(r["marks"].as_array().unwrap().iter().cloned());
            self.reports.insert((view, name), r);
            return Ok(());
        }
        if self.closed.contains(&view) {
            return Ok(());
        }
        let fv = self.views.entry(view.clone()).or_default();
        match m.as_str() {
            "config_changed" => {
                for (k, x) in p["changes"].as_object().unwrap() {
                    fv.config.insert(k.clone(), x.clone());
                }
            }
            "available_plugins" => fv.ready = true,
            "language_changed" => fv.language = p["language_id"].clone(),
            "plugin_started" => fv.running.push((true, s("plugin"))),
            "plugin_stopped" => fv.running.push((false, s("plugin"))),
            "add_status_item" => {
                let k = (s("source"), s("key"));
                fv.items.insert(k, (s("value"), s("alignment")));
            }
            "update_status_item" => {
                // only the key is given
                let (k, x) = (s("key"), s("value"));
                for (i, it) in fv.items.iter_mut() {
                    if i.1 == k {
                        it.0 = x.clone();
                    }
                }
            }
            "remove_status_item" => {
                let k = s("key");
                fv.items.retain(|i, _| i.1 != k);
            }
            "show_hover" => fv
                .hovers
                .push((p["request_id"].as_u64().unwrap_or(9999), s("result"))),
            _ => {}
        }
        Ok(())
    }

    pub fn edit(&mut self, view: &str, m: &str, p: Value) -> Result<(), Fail> {
        self.note("edit", json!({"view_id": view, "method": m, "params": p}))
    }

    pub fn command(&mut self, view: &str, name: &str, m: &str, p: Value) -> Result<(), Fail> {
        self.note(
            "plugin",
            json!({"command": "plugin_rpc", "view_id": view, "receiver": name,
                "rpc": {"method": m, "params": p, "rpc_type": "notification"}}),
        )
    }

    pub fn open(&mut self, path: Option<&PathBuf>) -> Result<String, Fail> {
        let p = match path {
            Some(p) => json!({ "file_path": p }),
            None => json!({}),
        };
        let v = self.req("new_view", p)?;
        let v = v.as_str().unwrap_or("").to_string();
        self.views.entry(v.clone()).or_default();
        Ok(v)
    }

    pub fn text(&mut self, view: &str) -> Result<String, Fail> {
        let v = self.req("debug_get_contents", json!({ "view_id": view }))?;
        Ok(v.as_str().unwrap_or("").to_string())
    }

    /// Handles messages until the condition holds; false if it does not in time.
    pub fn until(
        &mut self,
        wait: Duration,
        mut f: impl FnMut(&mut Rig) -> bool,
    ) -> Result<bool, Fail> {
        let until = Instant::now() + wait;
        while !f(self) {
            match self.recv(until.saturating_duration_since(Instant::now()))? {
                Some(v) => self.take(v)?,
                None => return Ok(f(self)),
            }
        }
        Ok(true)
    }

    /// The state of a plugin, after all it has been sent before.
    pub fn report(&mut self, view: &str, name: &str) -> Result<Value, Fail> {
        match self.report_in(view, name, patience())? {
            Some(r) => Ok(r),
            None => fail(
                "no-report",
                format!("{} does not answer a command for {}", name, view),
            ),
        }
    }

    pub fn report_in(
        &mut self,
        view: &str,
        name: &str,
        wait: Duration,
    ) -> Result<Option<Value>, Fail> {
        self.serial += 1;
        let n = self.serial;
        self.command(view, name, "report", json!({"serial": n, "full": true}))?;
        let key = (view.to_string(), name.to_string());
        self.until(wait, |r| {
            r.reports
                .get(&key)
                .map_or(false, |r| r["serial"] == json!(n))
        })?;
        if let Some(b) = self.bad.take() {
            return Err(b);
        }
        Ok(self
            .reports
            .get(&key)
            .filter(|r| r["serial"] == json!(n))
            .cloned())
    }

    /// Waits for the plugin to answer commands for the view.
    pub fn reach(&mut self, view: &str, name: &str) -> Result<Value, Fail> {
        let until = Instant::now() + patience();
        let mut wait = 2;
        loop {
            if let Some(r) = self.report_in(view, name, Duration::from_millis(wait))? {
                return Ok(r);
            }
            wait = (wait * 2).min(500);
            if Instant::now() > until {
                return fail(
                    "not-reached",
                    format!("{} is never told of {}", name, view),
                );
            }
        }
    }
}

pub fn install(dir: &PathBuf, p: &Spec) -> std::io::Result<()> {
    let d = dir.join("config/plugins").join(&p.name);
    std::fs::create_dir_all(&d)?;
    // no script, which could not be run while some fork has it open
    let run = d.join("run");
    std::os::unix::fs::symlink(std::env::current_exe()?, &run)?;
    std::fs::write(
        d.join("args"),
        format!(
            "{}\n{}\n{}\n{}\n{}",
            p.name,
            p.cache,
            p.eager,
            p.broken,
            dir.join("pids").display()
        ),
    )?;
    std::fs::write(
        d.join("manifest.toml"),
        format!(
            "name = \"{}\"\nversion = \"0.1\"\nscope = \"global\"\nexec_path = \"{}\"\n\
             activations = [\"autorun\"]\ncommands = []\n\
             [[languages]]\nname = \"Rust\"\nextensions = [\"rs\"]\nscope = \"source.rust\"\n\
             [[languages]]\nname = \"C\"\nextensions = [\"c\", \"h\"]\nscope = \"source.c\"\n",
            p.name,
            run.display(),
        ),
    )
}
