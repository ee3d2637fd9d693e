//! P01: a plugin's cached copy of the document.
use pbt::{ensure, ensure_eq, Check, Src, R};
use std::cell::{Cell, RefCell};
use xi_core_lib::plugin_rpc::{GetDataResponse, TextUnit};
use xi_plugin_lib::{Cache, ChunkCache, DataSource, Error};
use xi_rope::delta::{Builder, DeltaElement};
use xi_rope::{Interval, LinesMetric, Rope, RopeDelta, RopeInfo};

pub fn check() -> Check {
    Check::new("P01", "an answer was given after an update to a document of which a part was cached")
        .arm("pieces", 40_000, 600_000, pieces)
        .arm("large", 200, 4_000, large)
        .assume("the core answers get_data with the text of the revision asked for, from the offset or line asked for, up to a character boundary")
}

/// The core's end. Answers in pieces of at most `limit` bytes.
pub struct Doc {
    pub text: RefCell<String>,
    pub rope: RefCell<Rope>,
    pub rev: Cell<u64>,
    pub limit: Cell<usize>,
    /// the answer after this many fails
    pub fail: Cell<Option<usize>>,
    pub asked: Cell<usize>,
}

impl Doc {
    pub fn new(text: String, limit: usize) -> Doc {
        Doc {
            rope: RefCell::new(Rope::from(&text)),
            text: RefCell::new(text),
            rev: Cell::new(1),
            limit: Cell::new(limit),
            fail: Cell::new(None),
            asked: Cell::new(0),
        }
    }
    pub fn lines(&self) -> usize {
        self.text.borrow().matches('\n').count() + 1
    }
    pub fn len(&self) -> usize {
        self.text.borrow().len()
    }
    /// offset of line, for lines up to the number of lines
    pub fn offset_of_line(&self, n: usize) -> usize {
        let t = self.text.borrow();
        if n == 0 {
            return 0;
        }
        t.match_indices('\n')
            .nth(n - 1)
            .map_or(t.len(), |(i, _)| i + 1)
    }
    pub fn line_of_offset(&self, o: usize) -> usize {
        self.text.borrow().as_bytes()[..o]
            .iter()
            .filter(|b| **b == b'\n')
            .count()
    }
    pub fn apply(&self, d: &RopeDelta) {
        let new = {
            let t = self.text.borrow();
            let mut new = String::new();
            for el in &d.els {
                match el {
                    DeltaElement::Copy(b, e) => new.push_str(&t[*b..*e]),
                    DeltaElement::Insert(n) => new.push_str(&String::from(n)),
                }
            }
            new
        };
        *self.rope.borrow_mut() = Rope::from(&new);
        *self.text.borrow_mut() = new;
        self.rev.set(self.rev.get() + 1);
    }
}

impl DataSource for Doc {
    fn get_data(
        &self,
        start: usize,
        unit: TextUnit,
        max_size: usize,
        rev: u64,
    ) -> Result<GetDataResponse, Error> {
        self.asked.set(self.asked.get() + 1);
        if self.asked.get() > 2_000 {
            // ends what would go on for ever
            return Err(Error::Other("asked again and again".into()));
        }
        match self.fail.get() {
            Some(0) => {
                self.fail.set(None);
                return Err(Error::Other("injected".into()));
            }
            Some(n) => self.fail.set(Some(n - 1)),
            None => {}
        }
        if rev != self.rev.get() {
            return Err(Error::Other(format!(
                "revision {} asked for, is {}",
                rev,
                self.rev.get()
            )));
        }
        let t = self.text.borrow();
        let offset = match unit {
            TextUnit::Utf8 if start > t.len() => return Err(Error::Other("offset".into())),
            TextUnit::Utf8 => {
                let mut o = start;
                while !t.is_char_boundary(o) {
                    o -= 1;
                }
                o
            }
            TextUnit::Line if start > self.lines() => return Err(Error::Other("line".into())),
            TextUnit::Line => self.offset_of_line(start),
        };
        let mut end = offset
            .saturating_add(max_size.min(self.limit.get()))
            .min(t.len());
        while !t.is_char_boundary(end) {
            end -= 1;
        }
        let first_line = self.line_of_offset(offset);
        Ok(GetDataResponse {
            chunk: t[offset..end].to_string(),
            offset,
            first_line,
            first_line_offset: offset - self.offset_of_line(first_line),
        })
    }
}

pub fn text(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    for _ in 0..s.range(0, max) {
        t.push_str(s.pick(&[
            "a",
            "bc",
            "\n",
            "\n",
            "é",
            "\r\n",
            "€",
            "😀",
            "defgh ijk",
            "\n\n",
            "0123456789abcdefghij",
        ]));
    }
    t
}

pub fn boundary(s: &mut Src, t: &str) -> usize {
    let mut o = s.range(0, t.len());
    while !t.is_char_boundary(o) {
        o += 1;
    }
    o
}

/// A change of the text of the kinds the core sends.
pub fn delta(s: &mut Src, doc: &Doc, max_regions: usize) -> RopeDelta {
    let t = doc.text.borrow();
    let mut b: Builder<RopeInfo> = Builder::new(t.len());
    let n = if s.chance(3, 4) {
        1
    } else {
        s.range(0, max_regions)
    };
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| boundary(s, &t)).collect();
    cuts.sort_unstable();
    for c in cuts.chunks(2) {
        let (mut x, mut y) = (c[0], c[1]);
        match s.weighted(&[4, 4, 2, 2]) {
            0 => y = x,
            1 | 2 => {}
            _ => {
                // whole lines
                x = doc
                    .offset_of_line(doc.line_of_offset(x))
                    .max(if n > 1 { x } else { 0 });
                y = doc.offset_of_line(doc.line_of_offset(y)).max(x);
            }
        }
        let ins = if x < y && s.chance(3, 4) {
            String::new()
        } else {
            text(s, 3)
        };
        b.replace(Interval::new(x, y), Rope::from(ins));
    }
    drop(t);
    let mut d = b.build();
    if s.chance(1, 12) {
        // the same change in smaller elements
        let mut els = vec![];
        for el in d.els {
            match el {
                DeltaElement::Copy(b, e) if e - b > 1 => {
                    let t = doc.text.borrow();
                    let mut m = s.range(b + 1, e - 1);
                    while !t.is_char_boundary(m) {
                        m += 1;
                    }
                    els.push(DeltaElement::Copy(b, m));
                    if m < e {
                        els.push(DeltaElement::Copy(m, e));
                    }
                }
                DeltaElement::Insert(n) if n.measure::<LinesMetric>() > 0 && s.bool() => {
                    let m = n.offset_of_line(1);
                    els.push(DeltaElement::Insert(n.slice(0..m)));
                    if m < n.len() {
                        els.push(DeltaElement::Insert(n.slice(m..n.len())));
                    }
                }
                el => els.push(el),
            }
        }
        d.els = els;
    }
    d
}

fn show(d: &RopeDelta) -> String {
    d.els
        .iter()
        .map(|e| match e {
            DeltaElement::Copy(b, e) => format!("[{}..{}]", b, e),
            DeltaElement::Insert(n) => format!("{:?}", pbt::trunc(&String::from(n), 60)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn ok<T>(r: Result<T, Error>, failing: bool, sig: &str) -> Result<Option<T>, pbt::Fail> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(Error::Other(ref m)) if m == "injected" && failing => Ok(None),
        Err(e) => {
            ensure!(false, format!("{}-error", sig), "{:?}", e);
            Ok(None)
        }
    }
}

/// One question, with the answer computed from the text.
fn ask(s: &mut Src, c: &mut ChunkCache, doc: &Doc) -> R {
    let t = doc.text.borrow().clone();
    let (lines, len) = (doc.lines(), t.len());
    doc.asked.set(0);
    let failing = s.chance(1, 10);
    if failing {
        doc.fail.set(Some(s.range(0, 2)));
    }
    match s.weighted(&[6, 5, 4, 4, 1, 1]) {
        0 => {
            let n = s.range(0, lines - 1);
            s.log(|| format!("get_line {}", n));
            if let Some(l) = ok(c.get_line(doc, n), failing, "line")? {
                ensure_eq!(
                    l,
                    &t[doc.offset_of_line(n)..doc.offset_of_line(n + 1)],
                    "line"
                );
            }
        }
        1 => {
            let (mut a, mut b) = (boundary(s, &t), boundary(s, &t));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            let r = match s.idx(5) {
                0 => {
                    s.log(|| "get_region ..".into());
                    a = 0;
                    b = len;
                    c.get_region(doc, ..)
                }
                1 => {
                    s.log(|| format!("get_region {}..", a));
                    b = len;
                    c.get_region(doc, a..)
                }
                2 => {
                    s.log(|| format!("get_region {}..{}", a, a));
                    b = a;
                    c.get_region(doc, a..a)
                }
                _ => {
                    s.log(|| format!("get_region {}..{}", a, b));
                    c.get_region(doc, a..b)
                }
            };
            if let Some(r) = ok(r, failing, "region")? {
                ensure_eq!(r, &t[a..b], "region");
            }
        }
        2 => {
            let n = s.range(0, lines);
            s.log(|| format!("offset_of_line {}", n));
            if let Some(o) = ok(c.offset_of_line(doc, n), failing, "offset-of-line")? {
                ensure_eq!(o, doc.offset_of_line(n), "offset-of-line");
            }
        }
        3 => {
            let o = if s.chance(1, 10) {
                s.range(0, len)
            } else {
                boundary(s, &t)
            };
            s.log(|| format!("line_of_offset {}", o));
            if let Some(n) = ok(c.line_of_offset(doc, o), failing, "line-of-offset")? {
                ensure_eq!(n, doc.line_of_offset(o), "line-of-offset");
            }
        }
        4 => {
            s.log(|| "get_document".into());
            if let Some(d) = ok(c.get_document(doc), failing, "document")? {
                ensure_eq!(d, t, "document");
            }
        }
        _ => {
            // outside the document
            let by = s.range(0, 3);
            let o = boundary(s, &t);
            s.log(|| format!("questions {} outside", by));
            doc.fail.set(None);
            ensure!(
                c.get_line(doc, lines + by).is_err(),
                "line-outside",
                "line {} of {}",
                lines + by,
                lines
            );
            ensure!(
                c.offset_of_line(doc, lines + 1 + by).is_err(),
                "offset-of-line-outside",
                "line {} of {}",
                lines + 1 + by,
                lines
            );
            ensure!(
                c.line_of_offset(doc, len + 1 + by).is_err(),
                "line-of-offset-outside",
                "offset {} of {}",
                len + 1 + by,
                len
            );
            ensure!(
                c.get_region(doc, len.min(o)..len + 1 + by).is_err(),
                "region-outside",
                "to {} of {}",
                len + 1 + by,
                len
            );
        }
    }
    doc.fail.set(None);
    ensure!(
        doc.asked.get() <= 2_000,
        "endless",
        "asked {} times",
        doc.asked.get()
    );
    ensure_eq!(c.num_lines, lines, "line-count");
    ensure_eq!(c.buf_size, len, "size");
    // what it holds is there in the document
    ensure!(
        c.contents.is_empty()
            || t.as_bytes()[c.offset.min(len)..].starts_with(c.contents.as_bytes()),
        "contents",
        "at {} {:?}",
        c.offset,
        pbt::trunc(&c.contents, 200)
    );
    Ok(())
}

fn update(s: &mut Src, c: &mut ChunkCache, doc: &Doc) {
    let d = delta(s, doc, 4);
    let whole = s.chance(1, 12);
    s.log(|| {
        format!(
            "update {}{}",
            show(&d),
            if whole {
                " (not told what changed)"
            } else {
                ""
            }
        )
    });
    doc.apply(&d);
    c.update(
        if whole { None } else { Some(&d) },
        doc.len(),
        doc.lines(),
        doc.rev.get(),
    );
}

fn pieces(s: &mut Src) -> R {
    let t = text(s, 40);
    s.log(|| format!("{:?}", t));
    let doc = Doc::new(t, s.range(4, 40));
    s.log(|| format!("pieces of {}", doc.limit.get()));
    let mut c = ChunkCache::new(doc.len(), doc.rev.get(), doc.lines());
    let mut cached = false;
    for _ in 0..s.range(1, 14) {
        if s.chance(2, 5) {
            cached |= !c.contents.is_empty();
            update(s, &mut c, &doc);
        } else if s.chance(1, 30) {
            s.log(|| "clear".into());
            c.clear();
        } else {
            if s.chance(1, 6) {
                doc.limit.set(s.range(4, 40));
            }
            if cached {
                s.nontrivial();
            }
            ask(s, &mut c, &doc)?;
        }
    }
    Ok(())
}

/// Documents of several of the pieces the core really sends.
fn large(s: &mut Src) -> R {
    let unit = text(s, 60) + "end\n";
    let mut t = String::new();
    let want = s.range(900_000, 2_600_000);
    let mut rng = s.bulk_rng();
    while t.len() < want {
        if rng.next() % 200 == 0 {
            for _ in 0..rng.next() % 30_000 {
                t.push('é');
            }
        }
        t.push_str(&unit);
    }
    s.log(|| format!("{} bytes of {:?}", t.len(), unit));
    let doc = Doc::new(t, 1024 * 1024);
    let mut c = ChunkCache::new(doc.len(), doc.rev.get(), doc.lines());
    for i in 0..s.range(4, 12) {
        if s.chance(1, 3) {
            update(s, &mut c, &doc);
        } else {
            if i > 0 {
                s.nontrivial();
            }
            ask(s, &mut c, &doc)?;
        }
    }
    Ok(())
}
