//! A language-server plugin in a process of its own, with this process as the
//! core at its one end and the language server at its other.
//!
//! The language server started by the plugin is this program as a relay: it
//! passes what it is sent on to a socket, and back.
use pbt::{ensure, Fail};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, BufRead, BufReader, Read, Write};
use std::os::fd::OwnedFd;
use std::os::linux::net::SocketAddrExt;
use std::os::unix::net::{SocketAddr, UnixListener, UnixStream};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

/// how long an answer is waited for
fn patience() -> Duration {
    Duration::from_millis(std::env::var("LSP_PATIENCE").ok().and_then(|v| v.parse().ok()).unwrap_or(20_000))
}

/// the processes of the rig; true if this was one
pub fn process(args: &[String]) -> bool {
    match args.get(1).map(|s| s.as_str()) {
        Some("lsp-plugin") => {
            let config = serde_json::from_str(&args[2]).unwrap();
            let mut plugin = xi_lsp_lib::LspPlugin::new(config);
            xi_lsp_lib::start_mainloop(&mut plugin);
            true
        }
        Some("relay") => {
            let addr = SocketAddr::from_abstract_name(args[2].as_bytes()).unwrap();
            let sock = UnixStream::connect_addr(&addr).unwrap();
            let mut back = sock.try_clone().unwrap();
            std::thread::spawn(move || {
                let _ = pump(&mut back, &mut io::stdout());
                std::process::exit(0);
            });
            let mut sock = sock;
            let _ = pump(&mut io::stdin(), &mut sock);
            true
        }
        _ => false,
    }
}

fn pump(from: &mut dyn Read, to: &mut dyn Write) -> io::Result<()> {
    let mut buf = [0; 1 << 16];
    loop {
        let n = from.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        to.write_all(&buf[..n])?;
        to.flush()?;
    }
}

pub struct Rig {
    child: Child,
    core: BufReader<UnixStream>,
    listener: UnixListener,
    pub ls: Option<BufReader<UnixStream>>,
    /// the documents as the core has them, with their revisions
    pub docs: BTreeMap<usize, (String, u64)>,
    /// bytes given in one answer
    pub limit: usize,
    next_id: u64,
    /// notifications of the plugin
    pub notes: VecDeque<Value>,
}

impl Drop for Rig {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn view(id: usize) -> String {
    format!("view-id-{}", id)
}

impl Rig {
    pub fn new(loud: bool) -> Result<Rig, Fail> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let name = format!("xi-lsp-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
        let bad = |e: io::Error| Fail { sig: "setup".into(), msg: format!("{}", e) };
        let listener = UnixListener::bind_addr(&SocketAddr::from_abstract_name(name.as_bytes()).map_err(bad)?).map_err(bad)?;
        let me = std::env::current_exe().map_err(bad)?;
        let config = json!({"language_config": {"rust": {
            "language_name": "Rust", "start_command": me, "start_arguments": ["relay", name],
            "extensions": ["rs"], "supports_single_file": true, "workspace_identifier": null}}});
        let (mine, its) = UnixStream::pair().map_err(bad)?;
        mine.set_read_timeout(Some(patience())).map_err(bad)?;
        mine.set_write_timeout(Some(patience())).map_err(bad)?;
        let its2 = its.try_clone().map_err(bad)?;
        let child = Command::new(&me)
            .arg("lsp-plugin")
            .arg(config.to_string())
            .stdin(Stdio::from(OwnedFd::from(its)))
            .stdout(Stdio::from(OwnedFd::from(its2)))
            .stderr(if loud || std::env::var("LSP_LOUD").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .map_err(bad)?;
        let mut rig = Rig {
            child,
            core: BufReader::new(mine),
            listener,
            ls: None,
            docs: BTreeMap::new(),
            limit: 1 << 20,
            next_id: 0,
            notes: VecDeque::new(),
        };
        rig.send(json!({"method": "initialize", "params": {"plugin_id": 1, "buffer_info": []}}))?;
        Ok(rig)
    }

    pub fn died(&self, what: &str) -> Fail {
        Fail { sig: "plugin-died".into(), msg: format!("the plugin has ended: {}", what) }
    }

    pub fn send(&mut self, v: Value) -> Result<(), Fail> {
        let mut t = v.to_string();
        t.push('\n');
        self.core.get_mut().write_all(t.as_bytes()).map_err(|e| self.died(&e.to_string()))
    }

    /// The next message of the plugin to the core; get_data is answered.
    fn recv(&mut self) -> Result<Value, Fail> {
        let mut line = String::new();
        match self.core.read_line(&mut line) {
            Ok(0) => Err(self.died("end of its output")),
            Ok(_) => serde_json::from_str(&line).map_err(|e| Fail { sig: "core-json".into(), msg: format!("{:?}: {}", line, e) }),
            Err(e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut => {
                Err(Fail { sig: "no-answer".into(), msg: "the plugin does not answer the core".into() })
            }
            Err(e) => Err(self.died(&e.to_string())),
        }
    }

    fn handle(&mut self, v: Value) -> Result<Option<Value>, Fail> {
        if v.get("method") == Some(&json!("get_data")) {
            let answer = self.get_data(&v["params"]);
            let id = v["id"].clone();
            self.send(match answer {
                Ok(a) => json!({"id": id, "result": a}),
                Err(e) => json!({"id": id, "error": {"code": 42, "message": e}}),
            })?;
            Ok(None)
        } else if v.get("method").is_some() {
            self.notes.push_back(v);
            Ok(None)
        } else {
            Ok(Some(v))
        }
    }

    fn get_data(&self, p: &Value) -> Result<Value, String> {
        let id: usize = p["view_id"].as_str().unwrap_or("")["view-id-".len()..].parse().map_err(|_| "view id")?;
        let (text, rev) = self.docs.get(&id).ok_or("no such view")?;
        if p["rev"].as_u64() != Some(*rev) {
            return Err("revision".into());
        }
        let start = p["start"].as_u64().ok_or("start")? as usize;
        let max = (p["max_size"].as_u64().ok_or("max_size")? as usize).min(self.limit);
        let mut offset = match p["unit"].as_str() {
            Some("utf8") if start <= text.len() => start,
            Some("line") if start == 0 => 0,
            Some("line") if start <= text.matches('\n').count() + 1 => {
                text.match_indices('\n').nth(start - 1).map_or(text.len(), |(i, _)| i + 1)
            }
            _ => return Err("bad offset".into()),
        };
        while !text.is_char_boundary(offset) {
            offset -= 1;
        }
        let mut end = (offset + max.max(4)).min(text.len());
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        let first_line = text[..offset].matches('\n').count();
        let line_start = text[..offset].rfind('\n').map_or(0, |i| i + 1);
        Ok(json!({"chunk": &text[offset..end], "offset": offset, "first_line": first_line, "first_line_offset": offset - line_start}))
    }

    /// Sends a request and waits for its answer.
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        let id = self.next_id;
        self.next_id += 1;
        self.send(json!({"id": id, "method": method, "params": params}))?;
        loop {
            let v = self.recv()?;
            if let Some(v) = self.handle(v)? {
                ensure!(v["id"] == json!(id), "core-answer", "an answer to no request: {}", v);
                return Ok(v);
            }
        }
    }

    /// Waits until the plugin has done all it was sent.
    pub fn settle(&mut self) -> Result<(), Fail> {
        self.request("collect_trace", json!({})).map(|_| ())
    }

    /// The next notification of the plugin.
    pub fn note(&mut self) -> Result<Value, Fail> {
        loop {
            if let Some(n) = self.notes.pop_front() {
                return Ok(n);
            }
            let v = self.recv()?;
            if let Some(v) = self.handle(v)? {
                return pbt::fail("core-answer", format!("an answer to no request: {}", v));
            }
        }
    }

    pub fn open(&mut self, id: usize, text: &str) -> Result<(), Fail> {
        self.docs.insert(id, (text.to_string(), 1));
        self.send(json!({"method": "new_buffer", "params": {"buffer_info": [{
            "buffer_id": id, "views": [view(id)], "rev": 1, "buf_size": text.len(),
            "nb_lines": text.matches('\n').count() + 1, "path": path(id), "syntax": "rust",
            "config": {"line_ending": "\n", "tab_size": 4, "translate_tabs_to_spaces": true, "use_tab_stops": true,
                "font_face": "x", "font_size": 12.0, "auto_indent": false, "scroll_past_end": false, "wrap_width": 0,
                "word_wrap": false, "autodetect_whitespace": true, "surrounding_pairs": [], "save_with_newline": true}}]}}))?;
        self.settle()
    }

    /// `delta` as the core writes it, or none if it is too large.
    pub fn update(&mut self, id: usize, delta: Option<Value>, new: String) -> Result<(), Fail> {
        let d = self.docs.get_mut(&id).unwrap();
        let rev = d.1 + 1;
        let p = json!({"view_id": view(id), "delta": delta, "new_len": new.len(),
            "new_line_count": new.matches('\n').count() + 1, "rev": rev, "undo_group": 1, "edit_type": "other", "author": "core"});
        *d = (new, rev);
        self.request("update", p).map(|_| ())
    }

    pub fn close(&mut self, id: usize) -> Result<(), Fail> {
        self.send(json!({"method": "did_close", "params": {"view_id": view(id)}}))?;
        self.settle()?;
        self.docs.remove(&id);
        Ok(())
    }

    // the language server

    fn ls(&mut self) -> Result<&mut BufReader<UnixStream>, Fail> {
        if self.ls.is_none() {
            let bad = |e: io::Error| Fail { sig: "setup".into(), msg: format!("{}", e) };
            self.listener.set_nonblocking(true).map_err(bad)?;
            let until = std::time::Instant::now() + patience();
            let (s, _) = loop {
                match self.listener.accept() {
                    Ok(s) => break s,
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock && std::time::Instant::now() < until => {
                        std::thread::sleep(Duration::from_micros(300))
                    }
                    Err(e) => return pbt::fail("no-server", format!("the plugin has not started the language server: {}", e)),
                }
            };
            s.set_nonblocking(false).map_err(bad)?;
            s.set_read_timeout(Some(patience())).map_err(bad)?;
            s.set_write_timeout(Some(patience())).map_err(bad)?;
            self.ls = Some(BufReader::new(s));
        }
        Ok(self.ls.as_mut().unwrap())
    }

    /// The next message to the language server. Its frame has to be exact.
    pub fn ls_recv(&mut self) -> Result<Value, Fail> {
        let ls = self.ls()?;
        let gone = |e: io::Error| {
            if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut {
                Fail { sig: "no-message".into(), msg: "the plugin does not write to the language server".into() }
            } else {
                Fail { sig: "server-cut-off".into(), msg: format!("the plugin has cut the language server off: {}", e) }
            }
        };
        let mut len = None;
        loop {
            let mut line = Vec::new();
            if ls.read_until(b'\n', &mut line).map_err(gone)? == 0 {
                return Err(gone(io::ErrorKind::UnexpectedEof.into()));
            }
            let line = String::from_utf8_lossy(&line).into_owned();
            ensure!(line.ends_with("\r\n"), "frame", "a header line is {:?}", line);
            let line = &line[..line.len() - 2];
            if line.is_empty() {
                break;
            }
            let (k, v) = match line.find(": ") {
                Some(i) => (&line[..i], &line[i + 2..]),
                None => return pbt::fail("frame", format!("a header line is {:?}", line)),
            };
            match k {
                "Content-Length" => len = v.parse::<usize>().ok(),
                "Content-Type" => (),
                _ => return pbt::fail("frame", format!("a header line is {:?}", line)),
            }
        }
        let len = match len {
            Some(n) => n,
            None => return pbt::fail("frame", "a message without length"),
        };
        let mut body = vec![0; len];
        ls.read_exact(&mut body).map_err(gone)?;
        let v: Value = match serde_json::from_slice(&body) {
            Ok(v) => v,
            Err(e) => return pbt::fail("frame", format!("a message of length {} is {:?}: {}", len, String::from_utf8_lossy(&body), e)),
        };
        ensure!(v["jsonrpc"] == "2.0", "frame", "no JSON-RPC 2.0 message: {}", v);
        Ok(v)
    }

    pub fn ls_write(&mut self, bytes: &[u8]) -> Result<(), Fail> {
        self.ls()?.get_mut().write_all(bytes).map_err(|e| Fail { sig: "server-cut-off".into(), msg: e.to_string() })
    }

    pub fn ls_send(&mut self, v: Value) -> Result<(), Fail> {
        let t = v.to_string();
        self.ls_write(format!("Content-Length: {}\r\n\r\n{}", t.len(), t).as_bytes())
    }
}

pub fn path(id: usize) -> String {
    format!("/nowhere/é {}.rs", id)
}

pub fn uri(id: usize) -> String {
    url::Url::from_file_path(path(id)).unwrap().into_string()
}

/// The position of an offset, in UTF-16 units.
pub fn position(text: &str, offset: usize) -> (usize, usize) {
    let line = text[..offset].matches('\n').count();
    let start = text[..offset].rfind('\n').map_or(0, |i| i + 1);
    (line, text[start..offset].encode_utf16().count())
}

/// The offset of a position, as the protocol has it: a place beyond the end of
/// the line is the end of it, before its line ending.
pub fn offset(text: &str, line: usize, ch: usize) -> Option<usize> {
    let start = if line == 0 { 0 } else { text.match_indices('\n').nth(line - 1)?.0 + 1 };
    let mut end = text[start..].find('\n').map_or(text.len(), |i| start + i);
    if end < text.len() && end > start && text.as_bytes()[end - 1] == b'\r' {
        end -= 1;
    }
    let mut n = 0;
    for (i, c) in text[start..end].char_indices() {
        if n == ch {
            return Some(start + i);
        }
        if n > ch {
            // within a surrogate pair
            return None;
        }
        n += c.len_utf16();
    }
    Some(end)
}
