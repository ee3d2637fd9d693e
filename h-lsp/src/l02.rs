//! L02: the frames of messages from and to a language server.
use crate::l01::Server;
use crate::rig::{uri, view, Rig};
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read};
use xi_lsp_lib::parse_helper::read_message;

pub fn check() -> Check {
    Check::new("L02", "messages after the first were read, a broken frame was read, or messages went over the wire")
        .arm("read", 60_000, 2_000_000, read)
        .arm("broken", 60_000, 2_000_000, broken)
        .arm("wire", 1_500, 40_000, wire)
        .assume("headers are those the protocol has (Content-Length, Content-Type), with \": \" after their names; what follows a broken header is not judged")
}

/// Gives its bytes in pieces.
struct Pieces<'a> {
    bytes: &'a [u8],
    cuts: Vec<usize>,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.cuts.pop().unwrap_or(usize::max_value()).min(self.bytes.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.bytes[..n]);
        self.bytes = &self.bytes[n..];
        Ok(n)
    }
}

fn body(s: &mut Src) -> String {
    let n = if s.below(30) == 0 { s.range(100, 3000) } else { s.skew(40) };
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(s.pick(&["a", "\"", "\\", "\n", "\r\n", "\r\n\r\n", "é", "😀", "語", "{", "}", ":", " ", "\u{0}", "Content-Length: 3\r\n\r\n", "\u{feff}", "\u{2028}"]));
    }
    t
}

fn header(s: &mut Src, len: usize) -> String {
    let name = *s.pick(&["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH"]);
    let length = format!("{}: {}\r\n", name, len);
    let ty = (*s.pick(&["Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", "content-type: application/vscode-jsonrpc; charset=utf8\r\n", "Content-Type: a: b\r\n"])).to_string();
    match s.weighted(&[5, 1, 1]) {
        0 => length + "\r\n",
        1 => length + &ty + "\r\n",
        _ => ty + &length + "\r\n",
    }
}

fn reader<'a>(s: &mut Src, bytes: &'a [u8]) -> BufReader<Pieces<'a>> {
    let cuts = (0..s.skew(30)).map(|_| s.range(1, 9)).collect();
    let cap = *s.pick(&[1, 2, 3, 7, 64, 8192]);
    BufReader::with_capacity(cap, Pieces { bytes, cuts })
}

fn read(s: &mut Src) -> R {
    let n = s.range(1, 5);
    let mut bytes = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let b = body(s);
        bytes.extend_from_slice(header(s, b.len()).as_bytes());
        bytes.extend_from_slice(b.as_bytes());
        want.push(b);
    }
    if n > 1 {
        s.nontrivial();
    }
    s.log(|| format!("bytes {:?}", pbt::trunc(&String::from_utf8_lossy(&bytes), 600)));
    let mut r = reader(s, &bytes);
    for (i, w) in want.iter().enumerate() {
        match read_message(&mut r) {
            Ok(m) => ensure_eq!(m, *w, "message", "message {}", i),
            Err(e) => return pbt::fail("refused", format!("message {}: {:?}", i, e)),
        }
    }
    ensure!(read_message(&mut r).is_err(), "beyond", "there is a message beyond the last");
    Ok(())
}

fn broken(s: &mut Src) -> R {
    let mut bytes = Vec::new();
    let mut want = Vec::new();
    for _ in 0..s.skew(3) {
        let b = body(s);
        bytes.extend_from_slice(header(s, b.len()).as_bytes());
        bytes.extend_from_slice(b.as_bytes());
        want.push(b);
    }
    let b = body(s);
    let head = header(s, b.len());
    s.nontrivial();
    let bad: Vec<u8> = match s.below(8) {
        0 | 1 => {
            // cut short
            let t = [head.as_bytes(), b.as_bytes()].concat();
            let n = s.range(0, t.len() - 1);
            t[..n].to_vec()
        }
        2 => {
            // no number
            let n = *s.pick(&["", "x", "-1", "1.5", "0x10", "99999999999999999999999", "1 2", "é"]);
            format!("Content-Length: {}\r\n\r\n{}", n, b).into_bytes()
        }
        3 => {
            // more than there is
            let n = *s.pick(&[1 << 20, 1 << 40, 1 << 62, i64::max_value() as u64, 1 << 63, u64::max_value()]);
            let n = if n == 1 << 20 { n + s.below(100) } else { n };
            format!("Content-Length: {}\r\n\r\n{}", n, b).into_bytes()
        }
        4 => {
            // no header
            let l = *s.pick(&["Content-Length 5", "nonsense", "5", "Content-Length=5", ":"]);
            format!("{}\r\n\r\n{}", l, b).into_bytes()
        }
        5 => {
            // no length
            let t = if s.bool() { "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n" } else { "" };
            format!("{}\r\n{}", t, b).into_bytes()
        }
        6 => {
            // no text in the header
            let mut t = head.clone().into_bytes();
            let junk: &[u8] = *s.pick(&[&b"X: \xff\xfe\r\n"[..], &b"\xc3\r\n"[..], &b"Content-Type: \x80\r\n"[..]]);
            let at = if s.bool() { 0 } else { head.find("\r\n").unwrap() + 2 };
            t.splice(at..at, junk.iter().cloned());
            t.extend_from_slice(b.as_bytes());
            t
        }
        _ => {
            // no text in the body
            let mut t = b.clone().into_bytes();
            let at = s.range(0, t.len());
            t.insert(at, 0xff);
            let mut u = format!("Content-Length: {}\r\n\r\n", t.len()).into_bytes();
            u.extend(t);
            u
        }
    };
    bytes.extend_from_slice(&bad);
    s.log(|| format!("{} messages, then {:?}", want.len(), pbt::trunc(&String::from_utf8_lossy(&bad), 600)));
    let mut r = reader(s, &bytes);
    for (i, w) in want.iter().enumerate() {
        match read_message(&mut r) {
            Ok(m) => ensure_eq!(m, *w, "message", "message {}", i),
            Err(e) => return pbt::fail("refused", format!("message {}: {:?}", i, e)),
        }
    }
    match read_message(&mut r) {
        Ok(m) => pbt::fail("accepted", format!("{:?} was read as {:?}", pbt::trunc(&String::from_utf8_lossy(&bad), 600), pbt::trunc(&m, 300))),
        Err(_) => {
            // what is left does no harm
            for _ in 0..50 {
                let end = r.fill_buf().map_or(true, |b| b.is_empty());
                let _ = read_message(&mut r);
                if end {
                    break;
                }
            }
            Ok(())
        }
    }
}

/// Messages both ways, of a plugin in a process of its own.
fn wire(s: &mut Src) -> R {
    let mut rig = Rig::new(false)?;
    let mut server = Server::new(json!(2));
    let t = body(s).replace('\r', "");
    s.log(|| format!("open {:?}", pbt::trunc(&t, 400)));
    rig.open(1, &t)?;
    server.start(&mut rig)?;
    s.nontrivial();
    let n = s.range(1, 5);
    let v = rig.ls_recv()?;
    ensure!(server.take(v)?.is_none(), "unexpected", "a message about no document");
    match server.docs.get(&uri(1)) {
        Some((have, _)) => ensure!(*have == t, "document", "{:?} came as {:?}", t, have),
        None => return pbt::fail("document", "the document did not come"),
    }
    let mut asked = Vec::new();
    for i in 0..n {
        rig.send(json!({"method": "get_hover", "params": {"view_id": view(1), "request_id": 100 + i, "position": 0}}))?;
        rig.settle()?;
        let v = rig.ls_recv()?;
        ensure!(v["method"] == "textDocument/hover" && v["params"]["position"] == json!({"line": 0, "character": 0}), "unexpected", "{}", v);
        asked.push((100 + i, v["id"].clone()));
    }
    // all answers at once, in pieces
    let mut bytes = Vec::new();
    let mut want = Vec::new();
    for (request, id) in asked {
        let content = format!("h{}", body(s));
        let m = json!({"jsonrpc": "2.0", "id": id, "result": {"contents": content}});
        let m = if s.bool() { m.to_string() } else { serde_json::to_string_pretty(&m).unwrap() };
        bytes.extend_from_slice(header(s, m.len()).as_bytes());
        bytes.extend_from_slice(m.as_bytes());
        want.push((request, content));
        if s.below(4) == 0 {
            let m = json!({"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 3, "message": body(s)}}).to_string();
            bytes.extend_from_slice(header(s, m.len()).as_bytes());
            bytes.extend_from_slice(m.as_bytes());
        }
    }
    s.log(|| format!("answers {:?}", pbt::trunc(&String::from_utf8_lossy(&bytes), 800)));
    let mut at = 0;
    while at < bytes.len() {
        let k = if s.below(3) == 0 { s.range(1, 5) } else { s.range(1, bytes.len()) }.min(bytes.len() - at);
        rig.ls_write(&bytes[at..at + k])?;
        at += k;
    }
    for (request, content) in want {
        let n: Value = rig.note()?;
        let w = json!({"plugin_id": 1, "view_id": view(1), "request_id": request, "result": {"Ok": {"content": content, "range": null}}});
        ensure!(n["method"] == "show_hover" && n["params"] == w, "answer", "{} came as {}", w, n);
    }
    Ok(())
}
