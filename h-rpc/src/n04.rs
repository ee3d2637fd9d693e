//! N04: idle tasks and timers.
use pbt::{ensure, fail, Check, Src, R};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{self, BufRead, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use xi_rpc::{Handler, Peer, RemoteError, RpcCall, RpcCtx, RpcLoop};

struct Null;
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Default)]
struct Shared {
    /// messages certainly in the receive queue (or already taken from it)
    queued: AtomicUsize,
    /// messages the reader may hand out
    gate: AtomicUsize,
    /// end of input may be delivered
    eof: AtomicBool,
}

struct Lines {
    sh: Arc<Shared>,
    lines: Vec<String>,
    next: usize,
    cur: Vec<u8>,
    pos: usize,
}
impl Read for Lines {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        unreachable!()
    }
}
impl BufRead for Lines {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.cur.len() {
            // asking for more means everything before has been queued
            self.sh.queued.store(self.next, Ordering::SeqCst);
            loop {
                if self.next < self.lines.len() {
                    if self.sh.gate.load(Ordering::SeqCst) > self.next {
                        self.cur = self.lines[self.next].clone().into_bytes();
                        self.cur.push(b'\n');
                        self.pos = 0;
                        self.next += 1;
                        break;
                    }
                } else if self.sh.eof.load(Ordering::SeqCst) {
                    return Ok(&[]);
                }
                std::thread::sleep(Duration::from_micros(30));
            }
        }
        Ok(&self.cur[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

#[derive(Clone, Debug)]
enum Act {
    Idle(usize),
    /// token, delay in microseconds from now
    Timer(usize, u64),
    /// let the reader go on to this many messages and wait until they are queued
    Queue(usize),
    /// let the reader go on without waiting
    Open(usize),
    Spend(u64),
    AskPending,
}

#[derive(Clone, Debug)]
enum Ev {
    Msg(usize),
    Tok(usize, Instant),
    IdleSched(usize),
    TimerSched(usize, Instant),
    /// messages queued when a handler returned
    Queued(usize),
    Pending { said: bool, handled: usize, low: usize, high: usize },
}

struct H {
    sh: Arc<Shared>,
    log: Arc<Mutex<Vec<Ev>>>,
    /// actions by what is being handled: message i, or token
    on_msg: BTreeMap<usize, Vec<Act>>,
    on_tok: BTreeMap<usize, Vec<Act>>,
    handled: usize,
    left: Arc<AtomicUsize>,
}

impl H {
    fn push(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }
    fn act(&mut self, ctx: &RpcCtx, acts: Vec<Act>) {
        for a in acts {
            match a {
                Act::Idle(t) => {
                    self.push(Ev::IdleSched(t));
                    ctx.schedule_idle(t);
                }
                Act::Timer(t, d) => {
                    let at = Instant::now() + Duration::from_micros(d);
                    self.push(Ev::TimerSched(t, at));
                    ctx.get_peer().schedule_timer(at, t);
                }
                Act::Queue(n) => {
                    self.sh.gate.fetch_max(n, Ordering::SeqCst);
                    let t0 = Instant::now();
                    while self.sh.queued.load(Ordering::SeqCst) < n && t0.elapsed() < Duration::from_secs(15) {
                        std::thread::yield_now();
                    }
                }
                Act::Open(n) => {
                    self.sh.gate.fetch_max(n, Ordering::SeqCst);
                }
                Act::Spend(us) => std::thread::sleep(Duration::from_micros(us)),
                Act::AskPending => {
                    let low = self.sh.queued.load(Ordering::SeqCst);
                    let said = ctx.get_peer().request_is_pending();
                    let high = self.sh.gate.load(Ordering::SeqCst);
                    self.push(Ev::Pending { said, handled: self.handled, low, high });
                }
            }
        }
        let q = self.sh.queued.load(Ordering::SeqCst);
        self.push(Ev::Queued(q));
    }
    fn dec(&self) {
        self.left.fetch_sub(1, Ordering::SeqCst);
    }
}

impl Handler for H {
    type Notification = RpcCall;
    type Request = RpcCall;
    fn handle_notification(&mut self, ctx: &RpcCtx, rpc: RpcCall) {
        let k = rpc.params.as_u64().unwrap_or(0) as usize;
        self.handled += 1;
        self.push(Ev::Msg(k));
        let a = self.on_msg.remove(&k).unwrap_or_default();
        self.act(ctx, a);
        self.dec();
    }
    fn handle_request(&mut self, ctx: &RpcCtx, rpc: RpcCall) -> Result<Value, RemoteError> {
        self.handle_notification(ctx, rpc);
        Ok(json!(1))
    }
    fn idle(&mut self, ctx: &RpcCtx, token: usize) {
        self.push(Ev::Tok(token, Instant::now()));
        let a = self.on_tok.remove(&token).unwrap_or_default();
        self.act(ctx, a);
        self.dec();
    }
}

fn case(s: &mut Src) -> R {
    let n = s.range(0, 6);
    let mut next_tok = 0;
    let mut idle_toks: Vec<usize> = Vec::new();
    let mut timer_toks: Vec<usize> = Vec::new();
    let mut reg = |s: &mut Src, timer: bool| -> (usize, u64) {
        let t = next_tok;
        next_tok += 1;
        if timer {
            timer_toks.push(t);
            let d = match s.below(4) {
                0 => 0,
                1 => s.below(300),
                2 => s.below(3_000),
                _ => s.below(9_000),
            };
            (t, d)
        } else {
            idle_toks.push(t);
            (t, 0)
        }
    };
    let mut on_msg = BTreeMap::new();
    let mut on_tok = BTreeMap::new();
    let mut pre: Vec<Act> = Vec::new();
    let mut todo: Vec<usize> = Vec::new();
    let mut budget = 24;
    let mut gen_acts = |s: &mut Src, todo: &mut Vec<usize>, first: usize| -> Vec<Act> {
        let mut v = Vec::new();
        for _ in 0..s.below(5) {
            match s.weighted(&[4, 4, 3, 1, 1, 2]) {
                0 | 1 if budget == 0 => (),
                0 => {
                    budget -= 1;
                    let (t, _) = reg(s, false);
                    todo.push(t);
                    v.push(Act::Idle(t));
                }
                1 => {
                    budget -= 1;
                    let (t, d) = reg(s, true);
                    todo.push(t);
                    v.push(Act::Timer(t, d));
                }
                2 if n > 0 => v.push(Act::Queue(s.range(first.min(n), n))),
                3 if n > 0 => v.push(Act::Open(s.range(first.min(n), n))),
                4 => v.push(Act::Spend(s.below(2_000))),
                _ => v.push(Act::AskPending),
            }
        }
        v
    };
    for _ in 0..s.below(8) {
        // before the loop starts
        let a = gen_acts(s, &mut todo, 0);
        pre.extend(a.into_iter().filter(|a| match a {
            Act::Idle(_) | Act::Timer(..) => true,
            _ => false,
        }));
    }
    for k in 0..n {
        let a = gen_acts(s, &mut todo, k + 1);
        on_msg.insert(k, a);
    }
    let mut i = 0;
    while i < todo.len() {
        let t = todo[i];
        let a = gen_acts(s, &mut todo, 0);
        on_tok.insert(t, a);
        i += 1;
    }
    // some tokens also come from another thread while the loop runs
    let ext: Vec<(bool, u64, u64)> = (0..s.below(5)).map(|_| (s.bool(), s.below(4_000), s.below(600))).collect();
    let ext_base = 10_000;
    let far = s.chance(1, 3);
    let lines: Vec<String> = (0..n)
        .map(|k| {
            if s.bool() {
                json!({"method": "m", "params": k}).to_string()
            } else {
                json!({"id": k, "method": "m", "params": k}).to_string()
            }
        })
        .collect();
    let tok_total = todo.len() + ext.len();
    s.log(|| format!("{} messages, before start {:?}, on message {:?}, on token {:?}, from outside {:?}", n, pre, on_msg, on_tok, ext));

    let sh = Arc::new(Shared::default());
    let log: Arc<Mutex<Vec<Ev>>> = Default::default();
    let left = Arc::new(AtomicUsize::new(n + tok_total));
    let mut lp = RpcLoop::new(Null);
    let peer = lp.get_raw_peer();
    if far {
        // never comes due; nothing may wait for it
        peer.schedule_timer(Instant::now() + Duration::from_secs(7200), 99_999);
    }
    for a in &pre {
        match a {
            Act::Idle(t) => {
                log.lock().unwrap().push(Ev::IdleSched(*t));
                peer.schedule_idle(*t);
            }
            Act::Timer(t, d) => {
                let at = Instant::now() + Duration::from_micros(*d);
                log.lock().unwrap().push(Ev::TimerSched(*t, at));
                peer.schedule_timer(at, *t);
            }
            _ => (),
        }
    }
    let (tx, rx) = channel();
    let (l2, s2, left2) = (log.clone(), sh.clone(), left.clone());
    std::thread::spawn(move || {
        let mut h = H { sh: s2.clone(), log: l2, on_msg, on_tok, handled: 0, left: left2 };
        let r = lp.mainloop(|| Lines { sh: s2, lines, next: 0, cur: vec![], pos: 0 }, &mut h);
        let _ = tx.send(r.map_err(|e| e.to_string()));
    });
    for (i, (timer, d, wait)) in ext.iter().enumerate() {
        std::thread::sleep(Duration::from_micros(*wait));
        let t = ext_base + i;
        if *timer {
            let at = Instant::now() + Duration::from_micros(*d);
            // the order against other events is not known, only the time is
            log.lock().unwrap().push(Ev::TimerSched(t, at));
            peer.schedule_timer(at, t);
        } else {
            peer.schedule_idle(t);
        }
    }
    // open the gate in the end and wait for everything to be done
    std::thread::sleep(Duration::from_micros(500));
    sh.gate.fetch_max(n, Ordering::SeqCst);
    let t0 = Instant::now();
    let mut stuck = false;
    while left.load(Ordering::SeqCst) > 0 && left.load(Ordering::SeqCst) <= n + tok_total {
        if t0.elapsed() > Duration::from_secs(15) {
            stuck = true;
            break;
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    if !stuck {
        // anything run twice would show up here
        std::thread::sleep(Duration::from_micros(200));
    }
    sh.eof.store(true, Ordering::SeqCst);
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return fail("end", e),
        Err(_) => return fail("hang", "the loop did not end"),
    }
    let log = log.lock().unwrap().clone();
    s.log(|| format!("{:?}", log));

    let mut msgs = Vec::new();
    let mut ran: Vec<(usize, Instant)> = Vec::new();
    let mut idle_order = Vec::new();
    let mut timers: Vec<(usize, Instant)> = Vec::new();
    let mut must = 0; // messages that must have been handled before more deferred work
    for e in &log {
        match e {
            Ev::Msg(k) => msgs.push(*k),
            Ev::Tok(t, at) => {
                ensure!(msgs.len() >= must, "starved", "token {} ran although {} messages were waiting", t, must - msgs.len());
                ran.push((*t, *at));
                if let Some(i) = timers.iter().position(|x| x.0 == *t) {
                    let (_, due) = timers.remove(i);
                    ensure!(*at >= due, "early", "timer {} fired {:?} early", t, due - *at);
                    if *t < ext_base {
                        for (u, d) in &timers {
                            ensure!(*d >= due || *u >= ext_base, "timer-order", "timer {} fired before timer {} which is due {:?} earlier", t, u, due - *d);
                        }
                    }
                }
            }
            Ev::IdleSched(t) => idle_order.push(*t),
            Ev::TimerSched(t, at) => timers.push((*t, *at)),
            Ev::Queued(q) => must = *q,
            Ev::Pending { said, handled, low, high } => {
                if low > handled {
                    ensure!(*said, "pending", "request_is_pending is false with {} messages waiting", low - handled);
                }
                if high <= handled {
                    ensure!(!*said, "pending", "request_is_pending is true with no message waiting");
                }
            }
        }
    }
    ensure!(msgs == (0..n).collect::<Vec<_>>(), "messages", "messages handled: {:?} of {}", msgs, n);
    let mut counts: BTreeMap<usize, usize> = BTreeMap::new();
    for (t, _) in &ran {
        *counts.entry(*t).or_default() += 1;
    }
    for t in todo.iter().copied().chain(ext_base..ext_base + ext.len()) {
        let c = counts.get(&t).copied().unwrap_or(0);
        ensure!(c == 1, if c == 0 { "lost" } else { "repeated" }, "token {} ran {} times", t, c);
    }
    ensure!(ran.len() == tok_total, "extra", "{} deferred runs, {} scheduled", ran.len(), tok_total);
    let idles: Vec<usize> = ran.iter().map(|x| x.0).filter(|t| idle_order.contains(t)).collect();
    ensure!(idles == idle_order, "idle-order", "idle tasks ran in order {:?}, scheduled {:?}", idles, idle_order);
    let exts: Vec<usize> = ran.iter().map(|x| x.0).filter(|t| *t >= ext_base && !ext[*t - ext_base].0).collect();
    ensure!(exts.windows(2).all(|w| w[0] < w[1]), "idle-order", "idle tasks from outside ran in order {:?}", exts);
    if idle_order.len() > 1 && n > 0 {
        s.nontrivial();
    }
    Ok(())
}

pub fn check() -> Check {
    Check::new("N04", "several idle tasks scheduled and messages arriving")
        .arm("loop", 3_000, 120_000, case)
        .assume("thread interleavings are those the operating system produces")
}
