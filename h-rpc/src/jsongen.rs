use pbt::Src;
use serde_json::{json, Value};

pub fn string(s: &mut Src) -> String {
    let n = s.skew(20);
    (0..n).map(|_| ch(s)).collect()
}

pub fn ch(s: &mut Src) -> char {
    match s.weighted(&[8, 3, 3, 1, 1]) {
        0 => (b'a' + s.idx(26) as u8) as char,
        1 => *s.pick(&['"', '\\', '/', '{', '}', '[', ']', ',', ':', ' ']),
        2 => *s.pick(&['é', '日', '𝕏', '👨', '\u{200d}', '\u{feff}', '\u{2028}', '\u{fffd}', '\u{ffff}', '\u{10ffff}']),
        3 => (s.idx(0x20) as u8) as char,
        _ => *s.pick(&['\u{7f}', '\u{80}', '\u{d7ff}', '\u{e000}', '\n', '\r', '\t', '\0']),
    }
}

pub fn int(s: &mut Src) -> Value {
    match s.below(5) {
        0 => json!(s.u64()),
        1 => json!(-(s.below(1 << 62) as i64)),
        2 => json!(*s.pick(&[0i64, -1, i64::max_value(), i64::min_value()])),
        3 => json!(u64::max_value()),
        _ => json!(s.below(100)),
    }
}

pub fn value(s: &mut Src, depth: usize) -> Value {
    match s.weighted(&[2, 2, 4, 4, 1, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
        0 => Value::Null,
        1 => json!(s.bool()),
        2 => int(s),
        3 => json!(string(s)),
        4 => json!(*s.pick(&[0.5f64, -1.25, 1e300, -0.0, 3.0])),
        5 => Value::Array((0..s.range(0, 4)).map(|_| value(s, depth - 1)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..s.range(0, 4) {
                let k = if s.chance(1, 4) {
                    s.pick(&["id", "method", "params", "result", "error"]).to_string()
                } else {
                    string(s)
                };
                m.insert(k, value(s, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// Serialize with random whitespace, key order and escapes.
pub fn write(s: &mut Src, v: &Value, out: &mut String) {
    ws(s, out);
    match v {
        Value::Object(m) => {
            out.push('{');
            let mut es: Vec<_> = m.iter().collect();
            if s.bool() {
                for i in (1..es.len()).rev() {
                    let j = s.idx(i + 1);
                    es.swap(i, j);
                }
            }
            for (i, (k, v)) in es.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, out);
                str_out(s, k, out);
                ws(s, out);
                out.push(':');
                write(s, v, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(s, v, out);
            }
            out.push(']');
        }
        Value::String(t) => str_out(s, t, out),
        v => out.push_str(&v.to_string()),
    }
    ws(s, out);
}

fn ws(s: &mut Src, out: &mut String) {
    if s.chance(1, 8) {
        out.push(*s.pick(&[' ', '\t', '\r']));
    }
}

fn str_out(s: &mut Src, t: &str, out: &mut String) {
    if s.chance(1, 4) {
        out.push('"');
        for c in t.chars() {
            if s.chance(1, 3) || c == '"' || c == '\\' || (c as u32) < 0x20 {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
    } else {
        out.push_str(&Value::String(t.to_string()).to_string());
    }
}

pub fn line(s: &mut Src, v: &Value) -> String {
    let mut o = String::new();
    write(s, v, &mut o);
    o
}
