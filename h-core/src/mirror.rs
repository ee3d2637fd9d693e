//! A front end's line cache, maintained only from the update stream as the
//! front-end protocol document defines it.
use pbt::{ensure, Fail};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub text: String,
    pub cursor: Vec<usize>,
    /// (start, end, style id)
    pub styles: Vec<(isize, isize, usize)>,
    pub ln: Option<usize>,
}

#[derive(Clone, Default)]
pub struct Mirror {
    pub rows: Vec<Option<Row>>,
    pub annotations: Value,
    pub pristine: Option<bool>,
    pub updates: usize,
    /// last scroll_to
    pub scroll_to: Option<(usize, usize)>,
}

fn styles(v: &Value) -> Result<Vec<(isize, isize, usize)>, Fail> {
    let a: Vec<i64> = v
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_i64().unwrap())
        .collect();
    ensure!(a.len() % 3 == 0, "styles-shape", "{:?}", a);
    let (mut at, mut out) = (0, vec![]);
    for c in a.chunks(3) {
        ensure!(
            c[1] > 0,
            "styles-shape",
            "empty or negative span in {:?}",
            a
        );
        let s = at + c[0] as isize;
        let e = s + c[1] as isize;
        ensure!(s >= 0 && c[2] >= 0, "styles-shape", "{:?}", a);
        out.push((s, e, c[2] as usize));
        at = e;
    }
    Ok(out)
}

fn cursors(l: &Value) -> Vec<usize> {
    l["cursor"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
        .unwrap_or_default()
}

impl Mirror {
    pub fn apply(&mut self, u: &Value) -> Result<(), Fail> {
        let mut new: Vec<Option<Row>> = vec![];
        let mut at = 0;
        for op in u["ops"].as_array().unwrap() {
            let n = op["n"].as_u64().unwrap() as usize;
            let kind = op["op"].as_str().unwrap();
            ensure!(n > 0, "op-empty", "{}", u);
            if kind == "copy" || kind == "skip" || kind == "update" {
                ensure!(
                    at + n <= self.rows.len(),
                    "op-beyond",
                    "{} {} lines from {} of {}: {}",
                    kind,
                    n,
                    at,
                    self.rows.len(),
                    u
                );
            }
            match kind {
                "copy" => {
                    let mut ln = op["ln"].as_u64().unwrap() as usize;
                    let mut known = true;
                    for (i, r) in self.rows[at..at + n].iter().enumerate() {
                        let mut r = r.clone();
                        match r.as_mut() {
                            None => known = false, // cannot count through what we do not know
                            Some(r) if known => match r.ln.as_mut() {
                                Some(l) => {
                                    *l = ln;
                                    ln += 1;
                                }
                                None if i == 0 => ln += 1,
                                None => (),
                            },
                            _ => (),
                        }
                        new.push(r);
                    }
                    at += n;
                }
                "skip" => at += n,
                "invalidate" => new.extend((0..n).map(|_| None)),
                "ins" | "update" => {
                    let lines = op["lines"].as_array().unwrap();
                    ensure!(
                        lines.len() == n,
                        "op-count",
                        "{} lines for n = {}",
                        lines.len(),
                        n
                    );
                    for l in lines {
                        let st = if l["styles"].is_null() {
                            None
                        } else {
                            Some(styles(&l["styles"])?)
                        };
                        let ln = l["ln"].as_u64().map(|x| x as usize);
                        if kind == "ins" {
                            let text = l["text"].as_str();
                            ensure!(text.is_some(), "ins-text", "{}", u);
                            new.push(Some(Row {
                                text: text.unwrap().into(),
                                cursor: cursors(l),
                                styles: st.unwrap_or_default(),
                                ln,
                            }));
                        } else {
                            let mut r = self.rows[at].clone();
                            if let Some(r) = r.as_mut() {
                                if !l["cursor"].is_null() {
                                    r.cursor = cursors(l);
                                }
                                if let Some(s) = st {
                                    r.styles = s;
                                }
                                r.ln = ln;
                            }
                            new.push(r);
                            at += 1;
                        }
                    }
                }
                k => return pbt::fail("op-kind", k.to_string()),
            }
        }
        self.rows = new;
        self.annotations = u["annotations"].clone();
        self.pristine = u["pristine"].as_bool();
        self.updates += 1;
        Ok(())
    }

    /// takes in everything sent about this view
    pub fn follow(&mut self, msgs: &[(String, Value)], view: &str) -> Result<(), Fail> {
        for (m, p) in msgs {
            if p["view_id"] != view {
                continue;
            }
            match m.as_str() {
                "update" => self.apply(&p["update"])?,
                "scroll_to" => {
                    self.scroll_to = Some((
                        p["line"].as_u64().unwrap() as usize,
                        p["col"].as_u64().unwrap() as usize,
                    ))
                }
                _ => (),
            }
        }
        Ok(())
    }

    pub fn valid(&self) -> bool {
        self.rows.iter().all(|r| r.is_some())
    }
    pub fn text(&self) -> String {
        self.rows
            .iter()
            .map(|r| r.as_ref().unwrap().text.as_str())
            .collect()
    }
    /// start offset of each line; only when all are valid
    pub fn starts(&self) -> Vec<usize> {
        let mut o = 0;
        self.rows
            .iter()
            .map(|r| {
                let s = o;
                o += r.as_ref().unwrap().text.len();
                s
            })
            .collect()
    }
}
