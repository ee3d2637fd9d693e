//! A plugin written with the plugin library, in a process of its own. It keeps
//! its own copy of every document from the updates, compares the library's
//! answers to it, edits, and reports when asked.
use pbt::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use xi_core_lib::{ConfigTable, LanguageId, ViewId};
use xi_plugin_lib::{Cache, ChunkCache, CoreProxy, Hover, Plugin, StateCache, View};
use xi_rope::delta::DeltaElement;
use xi_rope::{DeltaBuilder, Rope, RopeDelta};

pub fn process(args: &[String]) -> bool {
    // started by the core, as a plugin
    if !args[0].ends_with("/run") {
        return false;
    }
    let args = match std::fs::read_to_string(Path::new(&args[0]).with_file_name("args")) {
        Ok(a) => a,
        // the test is over
        Err(_) => std::process::exit(1),
    };
    let args: Vec<&str> = args.split('\n').collect();
    let pid = Path::new(args[4]).join(std::process::id().to_string());
    let _ = std::fs::write(pid, "");
    if args[3] == "true" {
        std::process::exit(3);
    }
    if std::env::var("PLUG_LOUD").is_err() {
        unsafe {
            let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
            libc::dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2);
        }
    }
    // what it inserts, no other does
    let slot = (0..130).find(|i| {
        let f = Path::new(args[4]).join(format!("slot-{}", i));
        std::fs::OpenOptions::new().write(true).create_new(true).open(f).is_ok()
    });
    let next = FIRST + slot.unwrap_or(0) * 500;
    let (name, lazy) = (args[0].to_string(), args[2] == "lazy");
    let r = if args[1] == "chunk" {
        xi_plugin_lib::mainloop(&mut Test::<ChunkCache>::new(name, lazy, next))
    } else {
        xi_plugin_lib::mainloop(&mut Test::<StateCache<u32>>::new(name, lazy, next))
    };
    if r.is_err() {
        std::process::exit(1);
    }
    true
}

/// the first of the characters plugins insert
pub const FIRST: u32 = 0xf0000;

#[derive(Default)]
struct Tr {
    text: Option<String>,
    reads: u64,
    edits: u64,
    mode: String,
    left: usize,
}

struct Test<C> {
    name: String,
    lazy: bool,
    core: Option<CoreProxy>,
    views: BTreeMap<ViewId, Tr>,
    log: Vec<Value>,
    bad: Vec<Value>,
    /// the view at hand
    now: Value,
    /// characters inserted: view, character, the ones left and right of it
    marks: Vec<Value>,
    next: u32,
    rng: Rng,
    c: std::marker::PhantomData<C>,
}

fn bounds(t: &str, rng: &mut Rng) -> usize {
    let mut o = rng.next() as usize % (t.len() + 1);
    while !t.is_char_boundary(o) {
        o -= 1;
    }
    o
}

pub fn apply(t: &str, d: &RopeDelta) -> Result<String, String> {
    let mut new = String::new();
    if d.base_len != t.len() {
        return Err(format!("a delta for {} bytes, has {}", d.base_len, t.len()));
    }
    for el in &d.els {
        match el {
            DeltaElement::Copy(b, e) => {
                new.push_str(t.get(*b..*e).ok_or("a delta within a character")?)
            }
            DeltaElement::Insert(n) => new.push_str(&String::from(n)),
        }
    }
    Ok(new)
}

fn short(t: &str) -> String {
    pbt::trunc(&format!("{:?}", t), 120)
}

impl<C: Cache> Test<C> {
    fn new(name: String, lazy: bool, next: u32) -> Self {
        let n: u32 = name.bytes().last().unwrap_or(b'a') as u32 - 'a' as u32;
        Test {
            name,
            lazy,
            core: None,
            views: BTreeMap::new(),
            log: vec![],
            bad: vec![],
            now: Value::Null,
            marks: vec![],
            next,
            rng: Rng::new(u64::from(n)),
            c: std::marker::PhantomData,
        }
    }

    fn oops(&mut self, what: String) {
        if self.bad.len() < 50 {
            self.bad.push(json!([self.now, what]));
        }
    }

    fn fetch(&mut self, view: &mut View<C>, when: &str) {
        match view.get_document() {
            Ok(t) => self.views.get_mut(&view.get_id()).unwrap().text = Some(t),
            Err(e) => self.oops(format!("{}: get_document: {:?}", when, e)),
        }
        self.size(view, when);
    }

    fn size(&mut self, view: &mut View<C>, when: &str) {
        if let Some(t) = &self.views[&view.get_id()].text {
            if view.get_buf_size() != t.len() {
                let m = format!(
                    "{}: get_buf_size is {}, there are {} bytes",
                    when,
                    view.get_buf_size(),
                    t.len()
                );
                self.oops(m);
            }
        }
    }

    fn read(&mut self, view: &mut View<C>, when: &str) {
        if self.views[&view.get_id()].text.is_none() {
            return self.fetch(view, when);
        }
        let text = self
            .views
            .get_mut(&view.get_id())
            .unwrap()
            .text
            .take()
            .unwrap();
        let starts: Vec<usize> = std::iter::once(0)
            .chain(text.match_indices('\n').map(|(i, _)| i + 1))
            .collect();
        let line = self.rng.next() as usize % starts.len();
        let (what, got, want) = match self.rng.next() % 8 {
            0..=2 => {
                let end = starts.get(line + 1).cloned().unwrap_or(text.len());
                (
                    format!("get_line({})", line),
                    view.get_line(line)
                        .map(|l| l.to_string())
                        .map_err(|e| format!("{:?}", e)),
                    text[starts[line]..end].to_string(),
                )
            }
            3..=4 => {
                let (a, b) = (
                    bounds(&text, &mut self.rng),
                    if self.rng.next() % 3 == 0 {
                        text.len()
                    } else {
                        bounds(&text, &mut self.rng)
                    },
                );
                let (a, b) = (a.min(b), a.max(b));
                (
                    format!("get_region({}..{})", a, b),
                    view.get_region(a..b)
                        .map(|l| l.to_string())
                        .map_err(|e| format!("{:?}", e)),
                    text[a..b].to_string(),
                )
            }
            5 => (
                "get_document".into(),
                view.get_document().map_err(|e| format!("{:?}", e)),
                text.clone(),
            ),
            6 => {
                let o = bounds(&text, &mut self.rng);
                (
                    format!("line_of_offset({})", o),
                    view.line_of_offset(o)
                        .map(|n| n.to_string())
                        .map_err(|e| format!("{:?}", e)),
                    text[..o].matches('\n').count().to_string(),
                )
            }
            _ => (
                format!("offset_of_line({})", line),
                view.offset_of_line(line)
                    .map(|n| n.to_string())
                    .map_err(|e| format!("{:?}", e)),
                starts[line].to_string(),
            ),
        };
        match got {
            Err(e) => self.oops(format!("{}: {} fails: {}", when, what, e)),
            Ok(g) if g != want => self.oops(format!(
                "{}: {} is {}, expected {} (of {} bytes)",
                when,
                what,
                short(&g),
                short(&want),
                text.len()
            )),
            _ => {}
        }
        self.views.get_mut(&view.get_id()).unwrap().text = Some(text);
    }

    /// Changes the document, in its own copy's terms.
    fn edit(&mut self, view: &mut View<C>, mode: &str) {
        if self.views[&view.get_id()].text.is_none() {
            self.fetch(view, "edit");
        }
        let text = match &self.views[&view.get_id()].text {
            Some(t) => t.clone(),
            None => return,
        };
        let mut b = DeltaBuilder::new(text.len());
        let mark = std::char::from_u32(self.next).unwrap();
        self.next += 1;
        let at = match mode {
            "front" => 0,
            "end" => text.len(),
            _ => bounds(&text, &mut self.rng),
        };
        if mode == "mixed" && self.rng.next() % 2 == 0 {
            let end = bounds(&text, &mut self.rng).min(at + 60);
            let mut end = end.max(at);
            while !text.is_char_boundary(end) {
                end -= 1;
            }
            let new = ["", "é", "plug\n", "\r\n"][self.rng.next() as usize % 4];
            if at < end {
                b.replace(at..end, Rope::from(new));
            } else {
                b.replace(at..at, Rope::from(new));
            }
        } else {
            let l = text[..at].chars().rev().find(|c| *c != '\n');
            let r = text[at..].chars().find(|c| *c != '\n');
            b.replace(at..at, Rope::from(mark.to_string()));
            self.marks.push(json!([view.get_id(), mark, l, r]));
        }
        let (prio, after) = (self.rng.next() % 3, self.rng.next() % 2 == 0);
        let new_group = match mode {
            "new-group" => true,
            "same-group" => false,
            _ => self.rng.next() % 2 == 0,
        };
        view.edit(b.build(), prio, after, new_group, self.name.clone());
    }
}

impl<C: Cache> Plugin for Test<C> {
    type Cache = C;

    fn initialize(&mut self, core: CoreProxy) {
        self.core = Some(core);
        self.log.push(json!(["initialize"]));
    }

    fn new_view(&mut self, view: &mut View<C>) {
        let id = view.get_id();
        self.now = json!(id);
        self.log.push(json!(["new_view", id, view.get_path()]));
        self.views.insert(id, Tr::default());
        if !self.lazy {
            self.fetch(view, "new_view");
        }
    }

    fn update(
        &mut self,
        view: &mut View<C>,
        delta: Option<&RopeDelta>,
        _edit_type: String,
        author: String,
    ) {
        let id = view.get_id();
        self.now = json!(id);
        if !self.views.contains_key(&id) {
            return self.oops(format!("an update of {:?} before it is a view", id));
        }
        let tr = self.views.get_mut(&id).unwrap();
        if let Some(t) = tr.text.take() {
            match delta.map(|d| apply(&t, d)) {
                Some(Ok(t)) => tr.text = Some(t),
                Some(Err(e)) => self.oops(e),
                None => self.log.push(json!(["no delta", id])),
            }
        }
        self.size(view, "update");
        let (reads, mode) = {
            let tr = self.views.get_mut(&id).unwrap();
            let reads = match tr.reads {
                0 => 0,
                n => self.rng.next() % (n + 1),
            };
            let edit = author == "core" && tr.left > 0 && self.rng.next() % 100 < tr.edits;
            tr.left -= edit as usize;
            (reads, if edit { Some(tr.mode.clone()) } else { None })
        };
        for _ in 0..reads {
            self.read(view, "update");
        }
        if let Some(m) = mode {
            self.edit(view, &m);
        }
    }

    fn did_save(&mut self, view: &mut View<C>, old_path: Option<&Path>) {
        self.log
            .push(json!(["did_save", view.get_id(), old_path, view.get_path()]));
    }

    fn did_close(&mut self, view: &View<C>) {
        self.log.push(json!(["did_close", view.get_id()]));
        self.views.remove(&view.get_id());
    }

    fn config_changed(&mut self, view: &mut View<C>, changes: &ConfigTable) {
        self.log
            .push(json!(["config_changed", view.get_id(), changes]));
    }

    fn language_changed(&mut self, view: &mut View<C>, old_lang: LanguageId) {
        self.log.push(json!([
            "language_changed",
            view.get_id(),
            old_lang,
            view.get_language_id()
        ]));
    }

    fn custom_command(&mut self, view: &mut View<C>, method: &str, params: Value) {
        let id = view.get_id();
        self.now = json!(id);
        if !self.views.contains_key(&id) {
            return self.oops(format!("a command for {:?} before it is a view", id));
        }
        match method {
            "seed" => self.rng = Rng::new(params["seed"].as_u64().unwrap()),
            "read" => {
                for _ in 0..params["n"].as_u64().unwrap() {
                    self.read(view, "command");
                }
            }
            "auto" => {
                let tr = self.views.get_mut(&id).unwrap();
                tr.reads = params["reads"].as_u64().unwrap();
                tr.edits = params["edits"].as_u64().unwrap();
                tr.mode = params["mode"].as_str().unwrap().to_string();
                tr.left = params["left"].as_u64().unwrap() as usize;
            }
            "edit" => {
                for _ in 0..params["n"].as_u64().unwrap() {
                    self.edit(view, params["mode"].as_str().unwrap());
                }
            }
            "idle" => view.schedule_idle(),
            "add_item" => view.add_status_item(
                params["key"].as_str().unwrap(),
                params["value"].as_str().unwrap(),
                params["alignment"].as_str().unwrap(),
            ),
            "update_item" => view.update_status_item(
                params["key"].as_str().unwrap(),
                params["value"].as_str().unwrap(),
            ),
            "remove_item" => view.remove_status_item(params["key"].as_str().unwrap()),
            "exit" => std::process::exit(params["code"].as_i64().unwrap() as i32),
            "report" => {
                if params["full"] == json!(true) {
                    if self.views[&id].text.is_none() {
                        self.fetch(view, "report");
                    }
                    self.size(view, "report");
                    let mine = self.views[&id].text.clone();
                    match view.get_document() {
                        Ok(t) => {
                            if mine.as_ref().map_or(false, |m| *m != t) {
                                let m = format!(
                                    "get_document has {} bytes: {}, the updates give {}: {}",
                                    t.len(),
                                    short(&t),
                                    mine.as_ref().unwrap().len(),
                                    short(mine.as_ref().unwrap())
                                );
                                self.oops(m);
                            }
                        }
                        Err(e) => self.oops(format!("report: get_document: {:?}", e)),
                    }
                }
                let text = self.views[&id].text.clone().unwrap_or_default();
                let r = json!({
                    "serial": params["serial"],
                    "problems": std::mem::replace(&mut self.bad, vec![]),
                    "log": std::mem::replace(&mut self.log, vec![]),
                    "marks": std::mem::replace(&mut self.marks, vec![]),
                    "text": if text.len() < 5000 { json!(text) } else { Value::Null },
                    "hash": pbt::hash_str(&text),
                    "len": text.len(),
                    "path": view.get_path(),
                    "language": view.get_language_id(),
                    "config": view.get_config(),
                });
                view.add_status_item("report", &r.to_string(), "left");
            }
            m => {
                self.log.push(json!(["command", id, m, params]));
            }
        }
    }

    fn idle(&mut self, view: &mut View<C>) {
        self.now = json!(view.get_id());
        self.log.push(json!(["idle", view.get_id()]));
        self.read(view, "idle");
    }

    fn get_hover(&mut self, view: &mut View<C>, request_id: usize, position: usize) {
        let (id, name) = (view.get_id(), self.name.clone());
        let core = self.core.as_mut().unwrap();
        core.display_hover(
            id,
            request_id,
            &Ok(Hover {
                content: format!("{} {}", name, position),
                range: None,
            }),
        );
    }
}
