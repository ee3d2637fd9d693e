//! P02: what a plugin remembers for each line.
use crate::p01::{delta, text, Doc};
use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_plugin_lib::{Cache, StateCache};

pub fn check() -> Check {
    Check::new("P02", "work was done after an edit of a document for which states were stored")
        .arm("histories", 20_000, 300_000, histories)
        .arm("many", 60, 1_500, many)
        .assume("the plugin works as the library's frontier protocol asks: the state of the next line is set before the frontier is moved to it, and a frontier is closed only when the next line's state is already the one computed, or there is no next line")
        .assume("which entries are evicted from a full cache is random and differs between runs")
}

/// How the state of a line gives that of the next.
#[derive(Clone, Copy, Debug)]
enum Kind {
    /// quotes and depth of parentheses, modulo few: often the same again
    Few,
    /// everything before
    All,
}

type State = Option<(u64, u64)>;

fn next(k: Kind, s: &State, line: &str) -> State {
    let (a, b) = s.unwrap_or((0, 0));
    Some(match k {
        Kind::Few => (
            (a + line.matches('a').count() as u64) % 2,
            (b + line.matches('é').count() as u64) % 3,
        ),
        Kind::All => line.bytes().fold((a, b), |(a, b), c| {
            ((a ^ c as u64).wrapping_mul(0x100_0000_01b3), b + 1)
        }),
    })
}

struct World {
    doc: Doc,
    c: StateCache<State>,
    kind: Kind,
    /// lines are never forgotten
    small: bool,
}

impl World {
    fn truth(&self) -> Vec<State> {
        let t = self.doc.text.borrow();
        let mut v = vec![None];
        for l in t.split_inclusive('\n').filter(|l| l.ends_with('\n')) {
            let n = next(self.kind, v.last().unwrap(), l);
            v.push(n);
        }
        v
    }

    /// the work of the syntect plugin on one line
    fn step(&mut self) -> Result<bool, pbt::Fail> {
        let f = match self.c.get_frontier() {
            None => return Ok(false),
            Some(f) => f,
        };
        ensure!(
            f < self.doc.lines(),
            "frontier-outside",
            "line {} of {}",
            f,
            self.doc.lines()
        );
        let (n, off, st) = self.c.get_prev(f);
        ensure!(n <= f, "prev-after", "{} for {}", n, f);
        ensure_eq!(off, self.doc.offset_of_line(n), "prev-offset", "line {}", n);
        let line = self
            .c
            .get_line(&self.doc, n)
            .map_err(|e| pbt::Fail {
                sig: "line-error".into(),
                msg: format!("{:?}", e),
            })?
            .to_string();
        if line.ends_with('\n') {
            let new = next(self.kind, &st, &line);
            if self.c.get(n + 1) != Some(&new) {
                self.c.set(&self.doc, n + 1, new);
                ensure_eq!(self.c.get(n + 1), Some(&new), "set");
                self.c.update_frontier(n + 1);
                return Ok(true);
            }
        }
        self.c.close_frontier();
        Ok(true)
    }

    /// the states up to the frontier are those of the document
    fn current(&self) -> R {
        let truth = self.truth();
        let f = self.c.get_frontier();
        let upto = f.map_or(truth.len() - 1, |f| f.min(truth.len() - 1));
        for k in 1..=upto {
            match self.c.get(k) {
                Some(s) => {
                    ensure!(
                        *s == truth[k],
                        "stale",
                        "line {} has {:?}, should be {:?} (frontier {:?})",
                        k,
                        s,
                        truth[k],
                        f
                    );
                    let (n, off, p) = self.c.get_prev(k);
                    ensure!(
                        n == k && p == truth[k] && off == self.doc.offset_of_line(k),
                        "prev",
                        "line {}: {:?}",
                        k,
                        (n, off, p)
                    );
                }
                None => {
                    ensure!(
                        f.is_some() || !self.small,
                        "no-state",
                        "line {} of {}",
                        k,
                        truth.len()
                    );
                    let (n, off, p) = self.c.get_prev(k);
                    ensure!(
                        n < k && p == truth[n] && off == self.doc.offset_of_line(n),
                        "prev-stale",
                        "line {}: {:?}",
                        k,
                        (n, off, p)
                    );
                }
            }
        }
        ensure!(
            self.c.get(truth.len()).is_none(),
            "state-of-no-line",
            "line {}",
            truth.len()
        );
        Ok(())
    }

    fn update(&mut self, s: &mut Src) {
        let d = delta(s, &self.doc, 3);
        let told = !s.chance(1, 15);
        let before = self.doc.len();
        self.doc.apply(&d);
        s.log(|| {
            format!(
                "update {}: {:?} now {:?}{}",
                if told { "" } else { "(not told what changed)" },
                d.summary(),
                pbt::trunc(&self.doc.text.borrow(), 160),
                if before == self.doc.len() {
                    " (same length)"
                } else {
                    ""
                }
            )
        });
        self.c.update(
            if told { Some(&d) } else { None },
            self.doc.len(),
            self.doc.lines(),
            self.doc.rev.get(),
        );
    }
}

fn world(s: &mut Src, t: String) -> World {
    let kind = *s.pick(&[Kind::Few, Kind::Few, Kind::All]);
    s.log(|| format!("{:?} {:?}", kind, pbt::trunc(&t, 200)));
    let doc = Doc::new(t, if s.bool() { 1 << 20 } else { s.range(4, 60) });
    let mut c: StateCache<State> = Cache::new(doc.len(), doc.rev.get(), doc.lines());
    c.clear();
    World {
        doc,
        c,
        kind,
        small: true,
    }
}

fn histories(s: &mut Src) -> R {
    let t = text(s, 30);
    let mut w = world(s, t);
    let mut edited = false;
    for _ in 0..s.range(2, 14) {
        match s.weighted(&[5, 4, 3, 1, 2]) {
            0 => {
                edited |= w.c.get(1).is_some();
                w.update(s);
            }
            1 => {
                let n = s.range(1, 6);
                s.log(|| format!("{} steps from {:?}", n, w.c.get_frontier()));
                for _ in 0..n {
                    if w.step()? && edited {
                        s.nontrivial();
                    }
                    w.current()?;
                }
            }
            2 => {
                s.log(|| format!("all the work from {:?}", w.c.get_frontier()));
                let mut n = 0;
                while w.step()? {
                    n += 1;
                    if edited {
                        s.nontrivial();
                    }
                    ensure!(n < 20_000, "no-end", "{} steps", n);
                }
            }
            3 => {
                if s.chance(1, 3) {
                    s.log(|| "start over".into());
                    if s.bool() {
                        w.c.set(&w.doc, 0, Some((7, 7)));
                    }
                    w.c.clear();
                    ensure_eq!(w.c.get_frontier(), Some(0), "cleared-frontier");
                    for k in 0..w.doc.lines() {
                        ensure!(w.c.get(k).is_none(), "cleared-state", "line {}", k);
                    }
                }
            }
            _ => {
                // reading moves the cached text, and nothing else
                let n = s.range(0, w.doc.lines() - 1);
                s.log(|| format!("reads line {}", n));
                let want = w.doc.text.borrow()
                    [w.doc.offset_of_line(n)..w.doc.offset_of_line(n + 1)]
                    .to_string();
                ensure_eq!(w.c.get_line(&w.doc, n).ok(), Some(&want[..]), "line");
            }
        }
        w.current()?;
    }
    let mut n = 0;
    while w.step()? {
        n += 1;
        ensure!(n < 20_000, "no-end", "{} steps", n);
    }
    w.current()
}

/// More lines than are remembered.
fn many(s: &mut Src) -> R {
    let unit = text(s, 12) + "a\n";
    let mut t = String::new();
    let lines = s.range(900, 2_600);
    while t.matches('\n').count() < lines {
        for _ in 0..40 {
            t.push_str(&unit);
        }
    }
    let mut w = world(s, t);
    w.doc.limit.set(1 << 20);
    w.small = false;
    let mut n = 0;
    for _ in 0..s.range(2, 5) {
        s.log(|| format!("work from {:?}", w.c.get_frontier()));
        let stop = if s.chance(1, 3) {
            s.range(1, 1_500)
        } else {
            usize::MAX
        };
        let mut k = 0;
        while k < stop && w.step()? {
            k += 1;
            n += 1;
            ensure!(n < 60_000, "no-end", "{} steps", n);
        }
        w.current()?;
        s.nontrivial();
        w.update(s);
        w.current()?;
    }
    while w.step()? {
        n += 1;
        ensure!(n < 60_000, "no-end", "{} steps", n);
    }
    w.current()
}
