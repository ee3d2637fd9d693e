//! Plugins played by the harness: each has the queue of messages the core sent
//! it, works through it in its own time, and sends its own messages in order.
use crate::drive::Driver;
use pbt::{ensure, ensure_eq, Fail, Src, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::plugin_rpc::PluginCommand;
use xi_core_lib::plugin_rpc::{PluginNotification, PluginRequest};
use xi_core_lib::plugins::Plugin;
use xi_rope::{Rope, RopeDelta};
use xi_rpc::{Callback, Error, Handler, Peer, RpcCtx};

pub enum Msg {
    Note(String, Value),
    Req(String, Value, Box<dyn Callback>),
}

#[derive(Default)]
pub struct Inbox {
    pub q: VecDeque<Msg>,
    /// messages arrived so far, without the callbacks; for the harness
    pub seen: Vec<(String, Value)>,
    /// nobody there any more: sending fails
    pub dead: bool,
    /// the answer to requests which are waited for
    pub answer: Option<Value>,
}

#[derive(Clone, Default)]
pub struct PlugPeer(pub Arc<Mutex<Inbox>>);

impl Peer for PlugPeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        let mut i = self.0.lock().unwrap();
        if !i.dead {
            i.seen.push((method.into(), params.clone()));
            i.q.push_back(Msg::Note(method.into(), params.clone()));
        }
    }
    fn send_rpc_request_async(&self, method: &str, params: &Value, f: Box<dyn Callback>) {
        let mut i = self.0.lock().unwrap();
        if i.dead {
            drop(i);
            // as the real peer does
            f.call(Err(Error::PeerDisconnect));
            return;
        }
        i.seen.push((method.into(), params.clone()));
        i.q.push_back(Msg::Req(method.into(), params.clone(), f));
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        let mut i = self.0.lock().unwrap();
        i.seen.push((method.into(), params.clone()));
        match &i.answer {
            Some(v) if !i.dead => Ok(v.clone()),
            _ => Err(Error::PeerDisconnect),
        }
    }
    fn request_is_pending(&self) -> bool {
        false
    }
    fn schedule_idle(&self, _: usize) {}
    fn schedule_timer(&self, _: Instant, _: usize) {}
}

pub enum Out {
    Note(&'static str, String, Value),
    Ack(Box<dyn Callback>),
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    /// none until fetched
    pub text: Option<String>,
    pub rev: u64,
    pub size: usize,
    pub group: Option<u64>,
}

pub struct Plug {
    pub id: u64,
    pub name: String,
    pub peer: PlugPeer,
    pub docs: BTreeMap<String, Doc>,
    pub out: VecDeque<Out>,
    ack: Option<Box<dyn Callback>>,
    ctx: RpcCtx,
    weak: xi_core_lib::WeakXiCore,
    scanned: usize,
}

/// what every revision's text was
#[derive(Default)]
pub struct Revs(pub BTreeMap<(String, u64), String>);

impl Revs {
    /// after every step of the core: every new revision a plugin was told of is the text there is now
    pub fn note(
        &mut self,
        d: &mut Driver,
        plugs: &mut [Plug],
    ) -> Result<Vec<(usize, Value)>, Fail> {
        let mut news = vec![];
        for (i, p) in plugs.iter_mut().enumerate() {
            let inbox = p.peer.0.lock().unwrap();
            let fresh: Vec<(String, Value)> = inbox.seen[p.scanned..].to_vec();
            drop(inbox);
            p.scanned += fresh.len();
            let mut updated = vec![];
            for (m, v) in fresh {
                match m.as_str() {
                    "update" => {
                        let view = v["view_id"].as_str().unwrap().to_string();
                        let t = d.text(&view);
                        ensure!(!updated.contains(&view), "harness-two-updates", "{}", v);
                        updated.push(view.clone());
                        ensure_eq!(v["new_len"], json!(t.len()), "announced-length", "{}", v);
                        ensure_eq!(
                            v["new_line_count"],
                            json!(t.matches('\n').count() + 1),
                            "announced-lines",
                            "{}",
                            v
                        );
                        self.put(view, v["rev"].as_u64().unwrap(), t)?;
                        news.push((i, v));
                    }
                    "initialize" | "new_buffer" => {
                        for b in v["buffer_info"].as_array().unwrap() {
                            for view in b["views"].as_array().unwrap() {
                                let view = view.as_str().unwrap().to_string();
                                let t = d.text(&view);
                                ensure_eq!(
                                    b["buf_size"],
                                    json!(t.len()),
                                    "announced-length",
                                    "{}",
                                    b
                                );
                                ensure_eq!(
                                    b["nb_lines"],
                                    json!(t.matches('\n').count() + 1),
                                    "announced-lines",
                                    "{}",
                                    b
                                );
                                self.put(view, b["rev"].as_u64().unwrap(), t)?;
                            }
                        }
                    }
                    _ => (),
                }
            }
        }
        Ok(news)
    }

    fn put(&mut self, view: String, rev: u64, t: String) -> R {
        if let Some(old) = self.0.get(&(view.clone(), rev)) {
            ensure_eq!(*old, t, "revision-reused", "{} {}", view, rev);
        }
        self.0.insert((view, rev), t);
        Ok(())
    }

    pub fn text(&self, view: &str, rev: u64) -> &str {
        self.0
            .get(&(view.to_string(), rev))
            .unwrap_or_else(|| panic!("harness: no text for {} {}", view, rev))
    }
}

impl Plug {
    pub fn start(d: &Driver, id: u64) -> Plug {
        let mut child = Command::new("/bin/true")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .expect("harness: /bin/true");
        child.wait().unwrap();
        let peer = PlugPeer::default();
        let name = format!("plugin {}", id);
        let pid = serde_json::from_value(json!(id)).unwrap();
        let p = Plugin::verif_new(Box::new(peer.clone()), pid, name.clone(), child);
        d.weak().plugin_connect(pid, Ok(p));
        Plug {
            id,
            name,
            ctx: RpcCtx::verif_new(Box::new(peer.clone())),
            peer,
            docs: BTreeMap::new(),
            out: VecDeque::new(),
            ack: None,
            weak: d.weak(),
            scanned: 0,
        }
    }

    /// a message from the plugin reaches the core
    pub fn tell(&mut self, method: &str, view: &str, params: &Value) {
        let mut params = params.clone();
        params["view_id"] = json!(view);
        params["plugin_id"] = json!(self.id);
        let n: PluginCommand<PluginNotification> = serde_json::from_value(
            json!({"method": method, "params": params}),
        )
        .unwrap_or_else(|e| {
            panic!(
                "harness: bad plugin notification {} {}: {}",
                method, params, e
            )
        });
        self.weak.handle_notification(&self.ctx, n);
    }

    pub fn queue(&mut self, method: &'static str, view: &str, params: Value) {
        self.out.push_back(Out::Note(method, view.into(), params));
    }

    /// hands the next message of the plugin to the core
    pub fn deliver(&mut self) -> bool {
        match self.out.pop_front() {
            Some(Out::Note(m, v, p)) => self.tell(m, &v, &p),
            Some(Out::Ack(f)) => f.call(Ok(json!(0))),
            None => return false,
        }
        true
    }

    /// a request; everything said before arrives before it
    pub fn ask(
        &mut self,
        method: &str,
        view: &str,
        params: Value,
    ) -> Result<Value, xi_rpc::RemoteError> {
        assert!(self.out.is_empty(), "harness: deliver first");
        let mut params = params;
        params["view_id"] = json!(view);
        params["plugin_id"] = json!(self.id);
        let r: PluginCommand<PluginRequest> = serde_json::from_value(
            json!({"method": method, "params": params}),
        )
        .unwrap_or_else(|e| panic!("harness: bad plugin request {} {}: {}", method, params, e));
        self.weak.handle_request(&self.ctx, r)
    }

    pub fn finish_update(&mut self) {
        if let Some(f) = self.ack.take() {
            self.out.push_back(Out::Ack(f));
        }
    }

    /// answers the last update at once, with something else
    pub fn answer(&mut self, r: Result<Value, Error>) {
        if let Some(f) = self.ack.take() {
            f.call(r);
        }
    }

    pub fn backlog(&self) -> usize {
        self.peer.0.lock().unwrap().q.len()
    }

    /// the plugin handles its next message; the answer to an update is given by `finish_update`
    pub fn process(&mut self, s: &mut Src, revs: &Revs) -> Result<bool, Fail> {
        self.finish_update();
        let m = match self.peer.0.lock().unwrap().q.pop_front() {
            Some(m) => m,
            None => return Ok(false),
        };
        match m {
            Msg::Note(m, p) => match m.as_str() {
                "initialize" | "new_buffer" => {
                    for b in p["buffer_info"].as_array().unwrap() {
                        for v in b["views"].as_array().unwrap() {
                            let doc = Doc {
                                text: None,
                                rev: b["rev"].as_u64().unwrap(),
                                size: b["buf_size"].as_u64().unwrap() as usize,
                                group: None,
                            };
                            self.docs.insert(v.as_str().unwrap().into(), doc);
                        }
                    }
                }
                "did_close" => {
                    self.docs.remove(p["view_id"].as_str().unwrap());
                }
                _ => (),
            },
            Msg::Req(m, p, f) => {
                ensure_eq!(m, "update", "unexpected-request");
                let id = self.id;
                let v = p["view_id"].as_str().unwrap();
                let doc = self.docs.get_mut(v);
                ensure!(
                    doc.is_some(),
                    "update-of-unannounced-view",
                    "plugin {}: {}",
                    id,
                    p
                );
                let doc = doc.unwrap();
                doc.rev = p["rev"].as_u64().unwrap();
                doc.size = p["new_len"].as_u64().unwrap() as usize;
                doc.group = p["undo_group"].as_u64();
                if p["delta"].is_null() {
                    doc.text = None;
                    s.label("update too large to send");
                } else if let Some(t) = doc.text.as_mut() {
                    ensure_eq!(
                        p["delta"]["base_len"],
                        json!(t.len()),
                        "update-does-not-fit",
                        "plugin {} has {:?}: {}",
                        id,
                        pbt::trunc(t, 200),
                        p
                    );
                    let delta: RopeDelta =
                        serde_json::from_value(p["delta"].clone()).map_err(|e| Fail {
                            sig: "delta-unreadable".into(),
                            msg: format!("{}: {}", e, p),
                        })?;
                    *t = String::from(delta.apply(&Rope::from(&*t)));
                    ensure_eq!(
                        t.as_str(),
                        revs.text(v, doc.rev),
                        "plugin-copy",
                        "plugin {}: {}",
                        id,
                        p
                    );
                }
                self.ack = Some(f);
            }
        }
        Ok(true)
    }

    /// reads the whole document of the revision it has; needs an empty `out`
    pub fn fetch(&mut self, s: &mut Src, view: &str, revs: &Revs) -> R {
        let doc = self.docs[view].clone();
        let mut t = String::new();
        while t.len() < doc.size {
            let max = *s.pick(&[4usize, 7, 16, 1000, 1 << 21]);
            let got = self.get_data(view, t.len(), "utf8", max, doc.rev)?;
            match got {
                Some((c, at)) => {
                    ensure_eq!(at, t.len(), "fetch-offset");
                    ensure!(!c.is_empty(), "fetch-empty", "{} of {}", t.len(), doc.size);
                    t.push_str(&c);
                }
                None => {
                    return pbt::fail(
                        "fetch-refused",
                        format!("plugin {}: {} at {} of {}", self.id, view, t.len(), doc.rev),
                    );
                }
            }
        }
        ensure_eq!(
            t.as_str(),
            revs.text(view, doc.rev),
            "fetched-text",
            "plugin {} {}",
            self.id,
            view
        );
        self.docs.get_mut(view).unwrap().text = Some(t);
        Ok(())
    }

    pub fn get_data(
        &mut self,
        view: &str,
        start: usize,
        unit: &str,
        max: usize,
        rev: u64,
    ) -> Result<Option<(String, usize)>, Fail> {
        let r = self.ask(
            "get_data",
            view,
            json!({"start": start, "unit": unit, "max_size": max, "rev": rev}),
        );
        let r = r.map_err(|e| Fail {
            sig: "fetch-error".into(),
            msg: format!("{:?}", e),
        })?;
        if r.is_null() {
            return Ok(None);
        }
        Ok(Some((
            r["chunk"].as_str().unwrap().into(),
            r["offset"].as_u64().unwrap() as usize,
        )))
    }
}
