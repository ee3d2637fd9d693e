//! N02: every outgoing call completes exactly once with its own answer.
use pbt::{ensure, fail, Check, Fail, Rng, Src, R};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{self, BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use xi_rpc::{Error, Handler, Peer, RemoteError, RpcCall, RpcCtx, RpcLoop};

/// Input side: bytes arrive over a channel; closing the channel is end of file.
struct Inp {
    rx: Receiver<Vec<u8>>,
    cur: Vec<u8>,
    pos: usize,
    err: bool,
}
impl Read for Inp {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        unreachable!()
    }
}
impl BufRead for Inp {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        while self.pos >= self.cur.len() {
            match self.rx.recv() {
                Ok(v) => {
                    self.cur = v;
                    self.pos = 0;
                }
                Err(_) => {
                    if self.err {
                        return Err(io::Error::from(io::ErrorKind::BrokenPipe));
                    }
                    return Ok(&[]);
                }
            }
        }
        Ok(&self.cur[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

/// Output side: accepts short writes, hands complete lines to the peer, may fail from some byte on.
struct Out {
    tx: Sender<Vec<u8>>,
    line: Vec<u8>,
    short: usize,
    fail_after: usize,
    yields: bool,
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.yields {
            std::thread::yield_now();
        }
        if self.fail_after == 0 {
            return Err(io::Error::from(io::ErrorKind::BrokenPipe));
        }
        let n = b.len().min(self.short);
        for c in &b[..n] {
            self.line.push(*c);
            if *c == b'\n' {
                self.fail_after -= 1;
                let l = std::mem::replace(&mut self.line, Vec::new());
                let _ = self.tx.send(l);
                if self.fail_after == 0 {
                    // a call writes whole lines, so this is the end of one
                    break;
                }
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Val(Value),
    Rem(RemoteError),
    Invalid,
    Gone,
    Io,
}
fn outcome(r: Result<Value, Error>) -> Outcome {
    match r {
        Ok(v) => Outcome::Val(v),
        Err(Error::RemoteError(e)) => Outcome::Rem(e),
        Err(Error::InvalidResponse) => Outcome::Invalid,
        Err(Error::PeerDisconnect) => Outcome::Gone,
        Err(Error::Io(_)) => Outcome::Io,
    }
}

type Done = Arc<Mutex<Vec<(String, Outcome)>>>;

struct H {
    done: Done,
    seen: Arc<Mutex<Vec<u64>>>,
    out: Arc<AtomicUsize>,
    panic_on: u64,
}
impl Handler for H {
    type Notification = RpcCall;
    type Request = RpcCall;
    fn handle_notification(&mut self, ctx: &RpcCtx, rpc: RpcCall) {
        let k = rpc.params.as_u64().unwrap_or(0);
        self.seen.lock().unwrap().push(k);
        if k == self.panic_on {
            panic!("planned");
        }
        if rpc.method == "call" {
            self.out.fetch_add(1, Ordering::SeqCst);
            let key = format!("main{}", k);
            let r = ctx.get_peer().send_rpc_request("q", &json!(key));
            self.done.lock().unwrap().push((key, outcome(r)));
            self.out.fetch_sub(1, Ordering::SeqCst);
        }
    }
    fn handle_request(&mut self, _: &RpcCtx, rpc: RpcCall) -> Result<Value, RemoteError> {
        let k = rpc.params.as_u64().unwrap_or(0);
        self.seen.lock().unwrap().push(k);
        Ok(rpc.params)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Stop {
    Eof,
    IoErr,
    BadJson,
    Unknown,
    Panic,
}

/// What the peer answers to one request.
fn answer(r: &mut Rng, id: u64, key: &str) -> (Vec<String>, Outcome) {
    let v = json!({ "for": key });
    match r.next() % 12 {
        0..=5 => (vec![json!({"id": id, "result": v}).to_string()], Outcome::Val(v)),
        6 => (
            vec![json!({"id": id, "error": {"code": 7, "message": key}}).to_string()],
            Outcome::Rem(RemoteError::custom(7, key, None)),
        ),
        7 => (vec![json!({"id": id, "error": key}).to_string()], Outcome::Rem(RemoteError::Unknown(json!(key)))),
        8 => (vec![json!({"id": id, "error": {"code": 1, "message": "m"}, "result": 1}).to_string()], Outcome::Invalid),
        9 => (vec![json!({ "id": id }).to_string()], Outcome::Invalid),
        10 => (vec![json!({"id": id, "result": null}).to_string()], Outcome::Val(Value::Null)),
        _ => (
            // answered twice: the first one counts
            vec![json!({"id": id, "result": v}).to_string(), json!({"id": id, "result": "again"}).to_string()],
            Outcome::Val(v),
        ),
    }
}

fn case(s: &mut Src) -> R {
    let threads = s.range(1, 4);
    let calls = s.range(1, 6);
    let stop = match s.weighted(&[5, 1, 2, 2, 1]) {
        0 => Stop::Eof,
        1 => Stop::IoErr,
        2 => Stop::BadJson,
        3 => Stop::Unknown,
        _ => Stop::Panic,
    };
    // the peer ends the session after this many requests, or when nothing moves any more
    let stop_after = if s.chance(1, 2) { s.below(1 + (threads * calls) as u64) as usize } else { usize::max_value() };
    let never = s.pick(&[0u64, 0, 10, 40]) * 1;
    let hold = *s.pick(&[0u64, 30, 70]);
    let noise = *s.pick(&[0u64, 20, 50]);
    let fail_after = if s.chance(1, 6) { s.range(1, threads * calls) } else { usize::max_value() };
    let short = if s.chance(1, 3) { s.range(1, 9) } else { usize::max_value() };
    let yields = s.bool();
    let chain = s.bool();
    let seed = s.below(1 << 32);
    s.log(|| format!(
        "{} threads x {} calls, peer stops after {} requests, never {}% hold {}% noise {}%, write fails after {}, short {}, chain {}, stop {}, seed {}",
        threads, calls, stop_after, never, hold, noise, fail_after, short, chain, stop as u8, seed
    ));

    let (in_tx, in_rx) = channel::<Vec<u8>>();
    let (out_tx, out_rx) = channel::<Vec<u8>>();
    let w = Out { tx: out_tx, line: vec![], short, fail_after, yields };
    let mut lp = RpcLoop::new(w);
    let peer = lp.get_raw_peer();
    let done: Done = Default::default();
    let seen: Arc<Mutex<Vec<u64>>> = Default::default();
    let outstanding = Arc::new(AtomicUsize::new(0));
    let (end_tx, end_rx) = channel();

    // the loop
    let (d2, s2, o2, e2) = (done.clone(), seen.clone(), outstanding.clone(), end_tx.clone());
    let err = stop == Stop::IoErr;
    std::thread::spawn(move || {
        let mut h = H { done: d2, seen: s2, out: o2, panic_on: 999_999 };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            lp.mainloop(|| Inp { rx: in_rx, cur: vec![], pos: 0, err }, &mut h).map_err(|e| e.to_string())
        }));
        let _ = e2.send(("loop", r.is_ok()));
        // keep the writer until everything is finished
        std::mem::forget(lp);
    });

    // callers
    for t in 0..threads {
        let peer = peer.clone();
        let done = done.clone();
        let end = end_tx.clone();
        let mut r = Rng::new(seed ^ (t as u64 + 1) << 40);
        std::thread::spawn(move || {
            for c in 0..calls {
                let key = format!("t{}c{}", t, c);
                match r.next() % 5 {
                    0 | 1 => {
                        let x = peer.send_rpc_request("q", &json!(key));
                        done.lock().unwrap().push((key, outcome(x)));
                    }
                    2 | 3 => {
                        let d = done.clone();
                        let p2 = peer.clone();
                        let more = chain && r.next() % 2 == 0;
                        let k2 = key.clone();
                        peer.send_rpc_request_async(
                            "q",
                            &json!(key),
                            Box::new(move |x| {
                                if more {
                                    let d2 = d.clone();
                                    let k3 = format!("{}+", k2);
                                    let k4 = k3.clone();
                                    p2.send_rpc_request_async(
                                        "q",
                                        &json!(k3),
                                        Box::new(move |x| d2.lock().unwrap().push((k4, outcome(x)))),
                                    );
                                }
                                d.lock().unwrap().push((k2, outcome(x)));
                            }),
                        );
                        if more {
                            // recorded as issued through the callback
                        }
                    }
                    _ => peer.send_rpc_notification("n", &json!(key)),
                }
                if r.next() % 4 == 0 {
                    std::thread::yield_now();
                }
            }
            let _ = end.send(("caller", true));
        });
    }

    // the peer
    let mut r = Rng::new(seed);
    let mut sure: HashMap<String, Outcome> = HashMap::new();
    let mut pool: Vec<(Vec<String>, String, Outcome)> = Vec::new();
    let mut served: Vec<String> = Vec::new();
    let mut nreq = 0;
    let mut noted = 0u64;
    let mut want_seen = Vec::new();
    let mut main_calls = 0;
    let mut bad_line = None;
    let put = |l: &str, r: &mut Rng| {
        let mut b = l.as_bytes().to_vec();
        b.push(b'\n');
        if r.next() % 3 == 0 && b.len() > 2 {
            let k = 1 + (r.next() as usize) % (b.len() - 1);
            let t = b.split_off(k);
            let _ = in_tx.send(b);
            let _ = in_tx.send(t);
        } else {
            let _ = in_tx.send(b);
        }
    };
    let mut releases = 0;
    loop {
        let mut quiet = false;
        match out_rx.recv_timeout(Duration::from_millis(if nreq == 0 { 30 } else { 6 })) {
            Ok(l) => {
                let v: Value = match serde_json::from_slice(&l) {
                    Ok(v) => v,
                    Err(e) => {
                        bad_line = Some(format!("{}: {:?}", e, String::from_utf8_lossy(&l)));
                        break;
                    }
                };
                if v.get("method").is_none() || v.get("id").is_none() {
                    continue;
                }
                nreq += 1;
                let id = v["id"].as_u64().unwrap_or(u64::max_value());
                let key = v["params"].as_str().unwrap_or("?").to_string();
                served.push(key.clone());
                if r.next() % 100 < noise {
                    noted += 1;
                    match r.next() % 5 {
                        0 => put(&json!({"method": "n", "params": noted}).to_string(), &mut r),
                        1 => put(&json!({"id": noted, "method": "r", "params": noted}).to_string(), &mut r),
                        2 => {
                            put(&json!({"method": "call", "params": noted}).to_string(), &mut r);
                            main_calls += 1;
                        }
                        _ => {
                            put(&json!({"id": 1_000_000 + noted, "result": 1}).to_string(), &mut r);
                            noted -= 1;
                        }
                    }
                    if noted > want_seen.len() as u64 {
                        want_seen.push(noted);
                    }
                }
                let p = r.next() % 100;
                if p < never {
                    // not answered
                } else {
                    let (ls, o) = answer(&mut r, id, &key);
                    if r.next() % 100 < hold {
                        pool.push((ls, key, o));
                    } else {
                        for l in ls {
                            put(&l, &mut r);
                        }
                        sure.insert(key, o);
                    }
                }
            }
            Err(RecvTimeoutError::Timeout) => quiet = true,
            Err(_) => break,
        }
        if !pool.is_empty() && (quiet || r.next() % 4 == 0) {
            let k = 1 + (r.next() as usize) % pool.len();
            for _ in 0..k {
                let i = (r.next() as usize) % pool.len();
                let (ls, key, o) = pool.swap_remove(i);
                for l in ls {
                    put(&l, &mut r);
                }
                sure.insert(key, o);
                releases += 1;
            }
            quiet = false;
        }
        if nreq >= stop_after || quiet {
            break;
        }
    }
    let mut maybe: HashMap<String, Outcome> = HashMap::new();
    match stop {
        Stop::BadJson => put("{]", &mut r),
        Stop::Unknown => {
            put("{\"nothing\": 1}", &mut r);
            // answers after the bad message may or may not still be seen
            for (ls, key, o) in pool.drain(..) {
                for l in ls {
                    put(&l, &mut r);
                }
                maybe.insert(key, o);
            }
        }
        Stop::Panic => put(&json!({"method": "n", "params": 999_999}).to_string(), &mut r),
        _ => (),
    }
    drop(put);
    drop(in_tx);
    if releases > 1 || threads > 1 {
        s.nontrivial();
    }

    // everybody must come to an end
    let t0 = Instant::now();
    let mut left = threads + 1;
    while left > 0 {
        match end_rx.recv_timeout(Duration::from_secs(20).checked_sub(t0.elapsed()).unwrap_or_default()) {
            Ok(_) => left -= 1,
            Err(_) => {
                return fail("hang", format!("{} of {} threads still waiting; completed {:?}", left, threads + 1, done.lock().unwrap()))
            }
        }
    }
    if let Some(l) = bad_line {
        return fail("garbled-output", l);
    }
    // a call made now must be refused, not lost
    let late = Arc::new(AtomicUsize::new(0));
    let l2 = late.clone();
    peer.send_rpc_request_async(
        "q",
        &json!("late"),
        Box::new(move |x: Result<Value, Error>| {
            l2.fetch_add(if x.is_err() { 1 } else { 100 }, Ordering::SeqCst);
        }),
    );
    ensure!(late.load(Ordering::SeqCst) == 1, "late-call", "a call made after the end of the session completed {} times", late.load(Ordering::SeqCst));

    let done = done.lock().unwrap().clone();
    let mut got: HashMap<String, Vec<Outcome>> = HashMap::new();
    for (k, o) in done {
        got.entry(k).or_default().push(o);
    }
    let check = |key: &String| -> Result<Option<Outcome>, Fail> {
        let os = got.get(key).cloned().unwrap_or_default();
        ensure!(os.len() == 1, "completions", "call {} completed {} times: {:?}", key, os.len(), os);
        let o = os[0].clone();
        if let Some(w) = sure.get(key) {
            ensure!(o == *w, "wrong-answer", "call {} was answered {:?} but completed with {:?}", key, w, o);
        } else {
            let ok = match (&o, maybe.get(key)) {
                (Outcome::Gone, _) => true,
                (Outcome::Io, _) => fail_after != usize::max_value() && !served.contains(key),
                (o, Some(w)) => o == w,
                _ => false,
            };
            ensure!(ok, "wrong-answer", "call {} was not answered but completed with {:?}", key, o);
        }
        Ok(Some(o))
    };
    // every call that was issued
    for t in 0..threads {
        let mut r = Rng::new(seed ^ (t as u64 + 1) << 40);
        for c in 0..calls {
            let key = format!("t{}c{}", t, c);
            match r.next() % 5 {
                0 | 1 => {
                    check(&key)?;
                }
                2 | 3 => {
                    check(&key)?;
                    if chain && r.next() % 2 == 0 {
                        check(&format!("{}+", key))?;
                    }
                }
                _ => (),
            }
            let _ = r.next();
        }
    }
    let mains = got.keys().filter(|k| k.starts_with("main")).cloned().collect::<Vec<_>>();
    for k in &mains {
        check(k)?;
    }
    if stop != Stop::Panic {
        let mut seen = seen.lock().unwrap().clone();
        seen.retain(|k| *k != 999_999);
        ensure!(seen == want_seen, "messages", "messages handled {:?}, sent {:?}", seen, want_seen);
        ensure!(mains.len() == main_calls, "main-calls", "{} calls from the message loop completed, {} made", mains.len(), main_calls);
    }
    Ok(())
}

pub fn check() -> Check {
    Check::new("N02", "several calling threads, or answers released out of order")
        .arm("calls", 6_000, 300_000, case)
        .assume("thread interleavings are those the operating system produces")
}
