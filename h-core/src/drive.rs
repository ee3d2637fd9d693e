//! Drives a whole core in process: a recording front-end peer, the real message
//! decoding, and an idle/timer schedule that belongs to the test.
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::rpc::{CoreNotification, CoreRequest};
use xi_core_lib::{test_helpers, ViewId, WeakXiCore, XiCore};
use xi_rpc::{Callback, Error, Handler, Peer, RemoteError, RpcCtx};

/// additive character width, in the units of the measuring front end
pub fn char_width(c: char) -> f64 {
    match c {
        '\n' | '\r' | '\u{301}' | '\u{200d}' | '\u{fe0f}' => 0.0,
        'i' | 'l' | '.' => 0.5,
        'm' | 'W' => 1.5,
        c if (c as u32) >= 0x1100 => 2.0,
        _ => 1.0,
    }
}
pub fn str_width(s: &str) -> f64 {
    s.chars().map(char_width).sum()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Measure {
    Fine,
    Fails,
}

pub struct Rec {
    pub sent: Vec<(String, Value)>,
    pub asked: Vec<(String, Value)>,
    pub async_calls: Vec<(String, Value, Box<dyn Callback>)>,
    pub idle: VecDeque<usize>,
    pub timers: Vec<(Instant, usize)>,
    pub measure: Measure,
    pub pending: bool,
}

#[derive(Clone)]
pub struct FakePeer(pub Arc<Mutex<Rec>>);

impl FakePeer {
    pub fn new() -> FakePeer {
        FakePeer(Arc::new(Mutex::new(Rec {
            sent: vec![],
            asked: vec![],
            async_calls: vec![],
            idle: VecDeque::new(),
            timers: vec![],
            measure: Measure::Fine,
            pending: false,
        })))
    }
}

impl Peer for FakePeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        self.0
            .lock()
            .unwrap()
            .sent
            .push((method.into(), params.clone()));
    }
    fn send_rpc_request_async(&self, method: &str, params: &Value, f: Box<dyn Callback>) {
        self.0
            .lock()
            .unwrap()
            .async_calls
            .push((method.into(), params.clone(), f));
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        let mut r = self.0.lock().unwrap();
        r.asked.push((method.into(), params.clone()));
        if method == "measure_width" && r.measure == Measure::Fine {
            let out: Vec<Vec<f64>> = params
                .as_array()
                .unwrap()
                .iter()
                .map(|q| {
                    q["strings"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|s| str_width(s.as_str().unwrap()))
                        .collect()
                })
                .collect();
            return Ok(json!(out));
        }
        Err(Error::PeerDisconnect)
    }
    fn request_is_pending(&self) -> bool {
        self.0.lock().unwrap().pending
    }
    fn schedule_idle(&self, token: usize) {
        self.0.lock().unwrap().idle.push_back(token);
    }
    fn schedule_timer(&self, after: Instant, token: usize) {
        self.0.lock().unwrap().timers.push((after, token));
    }
}

pub struct Driver {
    pub core: XiCore,
    pub peer: FakePeer,
    ctx: RpcCtx,
}

pub fn vid(v: &str) -> ViewId {
    test_helpers::new_view_id(v["view-id-".len()..].parse().unwrap())
}

/// Every core takes one of the user's few inotify instances, and gives it back
/// a moment after it is gone: waits until there are some.
/// One at a time, until the core has its own.
fn wait_for_watchers() -> std::sync::MutexGuard<'static, ()> {
    static TURN: Mutex<()> = Mutex::new(());
    let turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
    for _ in 0..20_000 {
        let mine = std::fs::read_dir("/proc/self/fd").unwrap().flatten();
        if mine
            .filter(|e| {
                std::fs::read_link(e.path())
                    .map_or(false, |l| l.as_os_str() == "anon_inode:inotify")
            })
            .count()
            < 60
        {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    turn
}

impl Driver {
    pub fn new() -> Driver {
        Driver::with_dirs(None, None)
    }

    pub fn with_dirs(config: Option<&str>, extras: Option<&str>) -> Driver {
        let _turn = wait_for_watchers();
        let peer = FakePeer::new();
        let ctx = RpcCtx::verif_new(Box::new(peer.clone()));
        let mut d = Driver {
            core: XiCore::new(),
            peer,
            ctx,
        };
        d.note(
            "client_started",
            json!({"config_dir": config, "client_extras_dir": extras}),
        );
        d
    }

    /// a front-end notification
    pub fn note(&mut self, method: &str, params: Value) {
        let n: CoreNotification = serde_json::from_value(
            json!({"method": method, "params": params}),
        )
        .unwrap_or_else(|e| panic!("harness: bad notification {} {}: {}", method, params, e));
        self.core.handle_notification(&self.ctx, n);
    }

    pub fn req(&mut self, method: &str, params: Value) -> Result<Value, RemoteError> {
        let n: CoreRequest = serde_json::from_value(json!({"method": method, "params": params}))
            .unwrap_or_else(|e| panic!("harness: bad request {} {}: {}", method, params, e));
        self.core.handle_request(&self.ctx, n)
    }

    pub fn edit(&mut self, view: &str, method: &str, params: Value) {
        self.note(
            "edit",
            json!({"view_id": view, "method": method, "params": params}),
        );
    }

    pub fn edit_req(&mut self, view: &str, method: &str) -> Result<Value, RemoteError> {
        self.req(
            "edit",
            json!({"view_id": view, "method": method, "params": []}),
        )
    }

    /// opens a view and finishes its set-up
    pub fn open(&mut self, path: Option<&str>) -> Result<String, RemoteError> {
        let v = self.req("new_view", json!({ "file_path": path }))?;
        self.settle();
        Ok(v.as_str().unwrap().to_string())
    }

    pub fn view(&mut self) -> String {
        self.open(None).unwrap()
    }

    /// the whole text as seen over the protocol
    pub fn text(&mut self, view: &str) -> String {
        self.req("debug_get_contents", json!({ "view_id": view }))
            .unwrap()
            .as_str()
            .unwrap()
            .to_string()
    }

    /// (anchor, caret) of every region
    pub fn sel(&self, view: &str) -> Vec<(usize, usize)> {
        self.core.inner().verif_selection(vid(view)).expect("view")
    }

    /// one piece of deferred work, in scheduled order; timers after idle work
    pub fn step(&mut self) -> bool {
        let t = {
            let mut r = self.peer.0.lock().unwrap();
            match r.idle.pop_front() {
                Some(t) => Some(t),
                None if !r.timers.is_empty() => Some(r.timers.remove(0).1),
                None => None,
            }
        };
        match t {
            Some(t) => {
                self.core.idle(&self.ctx, t);
                true
            }
            None => false,
        }
    }

    pub fn idle(&mut self, token: usize) {
        self.core.idle(&self.ctx, token);
    }

    /// all deferred work
    pub fn settle(&mut self) {
        let mut n = 0;
        while self.step() {
            n += 1;
            assert!(n < 100_000, "deferred work never ends");
        }
    }

    pub fn take(&mut self) -> Vec<(String, Value)> {
        std::mem::take(&mut self.peer.0.lock().unwrap().sent)
    }

    pub fn weak(&self) -> WeakXiCore {
        self.core.verif_weak().unwrap()
    }

    /// replaces everything by `text`, caret at 0 (leaves undo history behind)
    pub fn fill(&mut self, view: &str, text: &str) {
        self.edit(view, "select_all", json!([]));
        self.edit(view, "paste", json!({ "chars": text }));
        self.edit(view, "move_to_beginning_of_document", json!([]));
    }

    pub fn set_config(&mut self, domain: Value, changes: Value) {
        self.note(
            "modify_user_config",
            json!({"domain": domain, "changes": changes}),
        );
    }
}

/// a scratch directory, removed at the end
pub struct Scratch(std::path::PathBuf);
static SERIAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let n = SERIAL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("xi-verif-{}-{}", std::process::id(), n));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    pub fn dir(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

impl Driver {
    /// the view's settings as announced so far (keeps the messages)
    pub fn config(&self, view: &str) -> Value {
        let r = self.peer.0.lock().unwrap();
        let mut out = serde_json::Map::new();
        for (m, p) in &r.sent {
            if m == "config_changed" && p["view_id"] == view {
                for (k, v) in p["changes"].as_object().unwrap() {
                    out.insert(k.clone(), v.clone());
                }
            }
        }
        Value::Object(out)
    }
}
