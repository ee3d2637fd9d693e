//! N01: every request is answered once, in order.
use crate::jsongen as jg;
use pbt::{ensure, ensure_eq, fail, Check, Src, R};
use serde_derive::Deserialize;
use serde_json::{json, Value};
use std::io::{self, BufRead, Read, Write};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use xi_rpc::{Handler, ReadError, RemoteError, RpcCtx, RpcLoop};

#[derive(Deserialize, Debug)]
#[serde(tag = "method", content = "params", rename_all = "snake_case")]
pub enum Notif {
    Note { text: String },
    Mark(u64),
    Bare,
}
#[derive(Deserialize, Debug)]
#[serde(tag = "method", content = "params", rename_all = "snake_case")]
pub enum Req {
    Echo(Value),
    Add { a: i64, b: i64 },
    Fail { code: i64, message: String, data: Option<Value> },
    Unit,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Eof,
    Json,
    NotObject,
    Unknown,
    Io,
}

#[derive(Default)]
struct H {
    log: Vec<String>,
}
impl Handler for H {
    type Notification = Notif;
    type Request = Req;
    fn handle_notification(&mut self, _: &RpcCtx, rpc: Notif) {
        self.log.push(format!("{:?}", rpc));
    }
    fn handle_request(&mut self, _: &RpcCtx, rpc: Req) -> Result<Value, RemoteError> {
        self.log.push(format!("{:?}", rpc));
        match rpc {
            Req::Echo(v) => Ok(v),
            Req::Add { a, b } => Ok(json!(a.wrapping_add(b))),
            Req::Fail { code, message, data } => Err(RemoteError::Custom { code, message, data }),
            Req::Unit => Ok(Value::Null),
        }
    }
}

/// Delivers a byte string in given pieces, with optional transient and final errors.
struct Pieces {
    data: Vec<u8>,
    cuts: Vec<usize>,
    pos: usize,
    interrupt: Vec<usize>,
    end_err: bool,
    pauses: bool,
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(b.len());
            b[..n].copy_from_slice(&a[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if let Some(i) = self.interrupt.iter().position(|p| *p == self.pos) {
            self.interrupt.remove(i);
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.pos >= self.data.len() && self.end_err {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        if self.pauses {
            std::thread::yield_now();
        }
        let end = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.data.len());
        Ok(&self.data[self.pos..end.min(self.data.len())])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

/// Accepts a limited number of bytes per write.
#[derive(Clone)]
pub struct Sink(pub Arc<Mutex<Vec<u8>>>, pub usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What a line must cause.
enum Exp {
    Nothing,
    Event(String),
    Answer(String, Value),
    BadRequest(u64),
    End(End),
}

fn obj(es: Vec<(&str, Value)>) -> Value {
    let mut m = serde_json::Map::new();
    for (k, v) in es {
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}

fn id(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => s.below(4),
        1 => u64::max_value() - s.below(3),
        _ => s.u64(),
    }
}

fn bad_id(s: &mut Src) -> Value {
    match s.below(6) {
        0 => json!(jg::string(s)),
        1 => Value::Null,
        2 => json!(-1 - s.below(1 << 40) as i64),
        3 => json!(1.5),
        4 => json!([1]),
        _ => json!({"id": 1}),
    }
}

fn note(s: &mut Src) -> (Value, Exp) {
    match s.below(3) {
        0 => {
            let t = jg::string(s);
            let e = format!("{:?}", Notif::Note { text: t.clone() });
            (obj(vec![("method", json!("note")), ("params", json!({ "text": t }))]), Exp::Event(e))
        }
        1 => {
            let k = s.u64();
            (obj(vec![("method", json!("mark")), ("params", json!(k))]), Exp::Event(format!("{:?}", Notif::Mark(k))))
        }
        _ => (obj(vec![("method", json!("bare"))]), Exp::Event("Bare".into())),
    }
}

fn request(s: &mut Src) -> (Value, Exp) {
    let id = id(s);
    let (m, p, call, res) = match s.below(4) {
        0 => {
            let v = jg::value(s, 3);
            ("echo", Some(v.clone()), Req::Echo(v.clone()), json!({"id": id, "result": v}))
        }
        1 => {
            let (a, b) = (s.irange(-1000, 1000), s.irange(-1000, 1000));
            ("add", Some(json!({"a": a, "b": b})), Req::Add { a, b }, json!({"id": id, "result": a + b}))
        }
        2 => {
            let code = s.irange(-33000, 1000);
            let message = jg::string(s);
            let data = if s.bool() { Some(jg::value(s, 1)).filter(|v| !v.is_null()) } else { None };
            let mut p = json!({"code": code, "message": message});
            let mut e = p.clone();
            if let Some(d) = &data {
                p["data"] = d.clone();
                e["data"] = d.clone();
            }
            ("fail", Some(p), Req::Fail { code, message, data }, json!({"id": id, "error": e}))
        }
        _ => ("unit", None, Req::Unit, json!({"id": id, "result": null})),
    };
    let mut v = obj(vec![("id", json!(id)), ("method", json!(m))]);
    if let Some(p) = p {
        v["params"] = p;
    }
    (v, Exp::Answer(format!("{:?}", call), res))
}

fn message(s: &mut Src) -> (String, Exp) {
    let (mut v, e) = match s.weighted(&[5, 8, 3, 2, 2]) {
        0 => note(s),
        1 => request(s),
        2 => {
            let i = id(s);
            let v = match s.below(6) {
                0 => json!({"id": i, "method": jg::string(s) + "?"}),
                1 => json!({"id": i, "method": jg::value(s, 1)}),
                2 => json!({"id": i, "method": "add", "params": {"a": 1}}),
                3 => json!({"id": i, "method": "fail"}),
                4 => json!({"id": i, "method": "mark", "params": 1}),
                _ => json!({"id": i, "method": "add", "params": {"a": "1", "b": 2}}),
            };
            let m = v["method"].as_str().map(String::from);
            if m.as_ref().map_or(false, |m| ["echo", "unit"].contains(&m.as_str())) {
                (json!({"method": "bare"}), Exp::Event("Bare".into()))
            } else {
                (v, Exp::BadRequest(i))
            }
        }
        3 => {
            // responses nobody waits for
            let i = id(s);
            let v = match s.below(4) {
                0 => json!({"id": i, "result": jg::value(s, 1)}),
                1 => json!({"id": i, "error": jg::value(s, 1)}),
                2 => json!({ "id": i }),
                _ => json!({"id": i, "result": 1, "error": {"code": 1, "message": "x"}}),
            };
            (v, Exp::Nothing)
        }
        _ => {
            // a notification carrying something that is not an identifier
            let (mut v, e) = note(s);
            v["id"] = bad_id(s);
            (v, e)
        }
    };
    if s.chance(1, 6) {
        v["jsonrpc"] = json!("2.0");
    }
    let mut l = jg::line(s, &v);
    if s.chance(1, 100) {
        // a long message
        l.push_str(&" ".repeat(s.range(8000, 300_000)));
    }
    (l, e)
}

fn ending(s: &mut Src) -> (Vec<u8>, End) {
    match s.below(9) {
        0 => {
            let (l, _) = message(s);
            let t = l.trim_end();
            let k = s.range(0, t.len() - 1);
            (t.as_bytes()[..k].to_vec(), if t.is_char_boundary(k) { End::Json } else { End::Io })
        }
        1 => (vec![], End::Json),
        2 => {
            let v = match jg::value(s, 2) {
                Value::Object(_) => json!([]),
                v => v,
            };
            (jg::line(s, &v).into_bytes(), End::NotObject)
        }
        3 => {
            let (l, _) = message(s);
            let mut b = l.into_bytes();
            let k = s.idx(b.len());
            b.insert(k, *s.pick(&[0xff, 0xc0, 0x80, 0xf8]));
            (b, End::Io)
        }
        4 => (json!({"method": jg::string(s) + "?", "params": jg::value(s, 1)}).to_string().into_bytes(), End::Unknown),
        5 => (json!({"method": "note", "params": {"txt": "x"}}).to_string().into_bytes(), End::Unknown),
        6 => (json!({"id": bad_id(s), "result": 1}).to_string().into_bytes(), End::Unknown),
        7 => {
            let k = s.range(200, 100_000);
            (format!("{{\"method\":\"bare\",\"x\":{}", "[".repeat(k)).into_bytes(), End::Json)
        }
        _ => {
            let (l, _) = message(s);
            let (m, _) = message(s);
            (format!("{} {}", l, m).into_bytes(), End::Json)
        }
    }
}

fn session(s: &mut Src) -> R {
    let n = s.skew(30);
    let mut lines: Vec<Vec<u8>> = Vec::new();
    let mut exp = Vec::new();
    let mut end = End::Eof;
    for _ in 0..n {
        let (l, e) = message(s);
        lines.push(l.into_bytes());
        exp.push(e);
    }
    let mut reqs = 0;
    if s.chance(1, 2) {
        let (b, e) = ending(s);
        lines.push(b);
        exp.push(Exp::End(e));
        end = e;
        // what comes after must not be handled
        for _ in 0..s.below(4) {
            let (l, _) = message(s);
            lines.push(l.into_bytes());
        }
    }
    let mut data = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        data.extend_from_slice(l);
        if i + 1 < lines.len() || !(end == End::Eof && s.chance(1, 4)) {
            if s.chance(1, 10) {
                data.push(b'\r');
            }
            data.push(b'\n');
        }
    }
    let end_err = end == End::Eof && !lines.is_empty() && data.last() == Some(&b'\n') && s.chance(1, 6);
    if end_err {
        end = End::Io;
    }
    let mut cuts: Vec<usize> = (0..s.skew(20)).map(|_| s.idx(data.len() + 1)).collect();
    if s.chance(1, 5) && data.len() < 2000 {
        cuts = (0..data.len()).collect();
    }
    cuts.sort();
    let interrupt = (0..s.below(3)).map(|_| s.idx(data.len() + 1)).collect();
    s.log(|| format!("input {:?}", String::from_utf8_lossy(&data)));
    let short = if s.chance(1, 3) { s.range(1, 20) } else { usize::max_value() };
    let out = Arc::new(Mutex::new(Vec::new()));
    let sink = Sink(out.clone(), short);
    let src = Pieces { data, cuts, pos: 0, interrupt, end_err, pauses: s.bool() };
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut h = H::default();
        let mut l = RpcLoop::new(sink);
        let r = l.mainloop(|| src, &mut h);
        let _ = tx.send((r, h.log));
    });
    let (r, log) = match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(x) => x,
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => return fail("hang", "the session did not end"),
        Err(_) => return fail("crash", "the message loop panicked"),
    };
    let mut want_log = Vec::new();
    let mut want_out = Vec::new();
    for e in exp {
        match e {
            Exp::Nothing => (),
            Exp::Event(e) => want_log.push(e),
            Exp::Answer(e, v) => {
                want_log.push(e);
                want_out.push((v, false));
                reqs += 1;
            }
            Exp::BadRequest(i) => {
                want_out.push((json!({ "id": i }), true));
                reqs += 1;
            }
            Exp::End(_) => break,
        }
    }
    if reqs > 1 {
        s.nontrivial();
    }
    ensure_eq!(log, want_log, "handled");
    let out = out.lock().unwrap().clone();
    let text = match String::from_utf8(out) {
        Ok(t) => t,
        Err(_) => return fail("output-utf8", "responses are not UTF-8"),
    };
    ensure!(text.is_empty() || text.ends_with('\n'), "output-lines", "last response has no line end");
    let got: Vec<&str> = text.lines().collect();
    ensure_eq!(got.len(), want_out.len(), "responses", "{}", pbt::trunc(&text, 600));
    for (g, (w, bad)) in got.iter().zip(&want_out) {
        let v: Value = match serde_json::from_str(g) {
            Ok(v) => v,
            Err(e) => return fail("response-json", format!("{}: {}", e, g)),
        };
        if *bad {
            ensure_eq!(v["id"], w["id"], "error-id");
            ensure_eq!(v["error"]["code"], json!(-32600), "error-code");
            ensure!(v["error"]["message"].is_string() && v.get("result").is_none(), "error-shape", "{}", v);
        } else {
            ensure_eq!(v, *w, "response");
        }
    }
    let got = match r {
        Ok(()) => End::Eof,
        Err(ReadError::Json(_)) => End::Json,
        Err(ReadError::NotObject) => End::NotObject,
        Err(ReadError::UnknownRequest(_)) => End::Unknown,
        Err(ReadError::Io(_)) => End::Io,
        Err(ReadError::Disconnect) => return fail("end", "end of input reported as an error"),
    };
    ensure_eq!(got, end, "end");
    Ok(())
}

/// Arbitrary bytes and mutated messages: judged by an independent reading of each line.
fn junk(s: &mut Src) -> R {
    let mut data = Vec::new();
    let n = s.range(1, 6);
    for _ in 0..n {
        let mut b: Vec<u8> = if s.chance(1, 5) {
            (0..s.skew(40)).map(|_| s.below(256) as u8).collect()
        } else {
            message(s).0.into_bytes()
        };
        b.truncate(3000);
        for _ in 0..s.below(4) {
            if b.is_empty() {
                break;
            }
            let i = s.idx(b.len());
            match s.below(4) {
                0 => b[i] = s.below(256) as u8,
                1 => {
                    b.remove(i);
                }
                2 => b.insert(i, *s.pick(b"{}[]\",:0e-.\\ntf\n")),
                _ => {
                    let j = s.idx(b.len());
                    b.swap(i, j);
                }
            }
        }
        data.extend(b);
        data.push(b'\n');
    }
    s.log(|| format!("input {:?}", String::from_utf8_lossy(&data)));
    // model
    let mut want: Vec<u64> = Vec::new();
    let mut end = End::Eof;
    for l in data.split_inclusive(|b| *b == b'\n') {
        let t = match std::str::from_utf8(l) {
            Ok(t) => t,
            Err(_) => {
                end = End::Io;
                break;
            }
        };
        let v: Value = match serde_json::from_str(t) {
            Ok(v) => v,
            Err(_) => {
                end = End::Json;
                break;
            }
        };
        if !v.is_object() {
            end = End::NotObject;
            break;
        }
        let id = v.get("id").and_then(|v| v.as_u64());
        match (id, v.get("method")) {
            (Some(_), None) => (),
            (Some(i), Some(_)) => want.push(i),
            (None, _) => {
                if serde_json::from_value::<Notif>(v).is_err() {
                    end = End::Unknown;
                    break;
                }
            }
        }
    }
    if end == End::Eof || !want.is_empty() {
        s.nontrivial();
    }
    let out = Arc::new(Mutex::new(Vec::new()));
    let sink = Sink(out.clone(), usize::max_value());
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut h = H::default();
        let mut l = RpcLoop::new(sink);
        let r = l.mainloop(|| io::Cursor::new(data), &mut h);
        let _ = tx.send(r);
    });
    let r = match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(x) => x,
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => return fail("hang", "the session did not end"),
        Err(_) => return fail("crash", "the message loop panicked"),
    };
    let got = match r {
        Ok(()) => End::Eof,
        Err(ReadError::Json(_)) => End::Json,
        Err(ReadError::NotObject) => End::NotObject,
        Err(ReadError::UnknownRequest(_)) => End::Unknown,
        Err(ReadError::Io(_)) => End::Io,
        Err(ReadError::Disconnect) => return fail("end", "end of input reported as an error"),
    };
    ensure_eq!(got, end, "end");
    let text = String::from_utf8_lossy(&out.lock().unwrap()).into_owned();
    let mut ids = Vec::new();
    for l in text.lines() {
        match serde_json::from_str::<Value>(l) {
            Ok(v) => ids.push(v["id"].as_u64().unwrap_or(0)),
            Err(e) => return fail("response-json", format!("{}: {}", e, l)),
        }
    }
    ensure_eq!(ids, want, "responses");
    Ok(())
}

pub fn check() -> Check {
    Check::new("N01", "at least two requests answered in one session, or a mutated session that is not refused at once")
        .arm("session", 12_000, 600_000, session)
        .arm("junk", 12_000, 600_000, junk)
        .assume("serde_json decides which lines are JSON")
}
