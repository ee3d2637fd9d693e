//! Files of a scratch directory.
use crate::drive::Scratch;
use crate::text;
use pbt::Src;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;

pub const BOM: &[u8] = b"\xef\xbb\xbf";

pub type Fs = BTreeMap<String, (Vec<u8>, u32)>;

pub fn listing(sc: &Scratch) -> Fs {
    fn walk(dir: &std::path::Path, pre: &str, out: &mut Fs) {
        for e in std::fs::read_dir(dir).unwrap() {
            let e = e.unwrap();
            let name = format!("{}{}", pre, e.file_name().to_str().unwrap());
            let md = std::fs::symlink_metadata(e.path()).unwrap();
            if md.is_dir() {
                walk(&e.path(), &format!("{}/", name), out);
            } else {
                out.insert(
                    name,
                    (
                        std::fs::read(e.path()).unwrap(),
                        md.permissions().mode() & 0o7777,
                    ),
                );
            }
        }
    }
    let mut out = Fs::new();
    walk(sc.dir(), "", &mut out);
    out
}

pub fn show(b: &[u8]) -> String {
    pbt::trunc(&format!("{:?}", String::from_utf8_lossy(b)), 160)
}

pub fn body(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => text::short(s, 12),
        1 => {
            // several leaves
            let unit = *s.pick(&["x", "é", "日本", "ab\r\n", "🦀", "\r", "word word\n"]);
            let n = if s.bool() {
                s.range(200, 4000)
            } else {
                s.range(1, 3) * 1024 - s.range(0, 2)
            };
            let mut t = text::short(s, 3);
            while t.len() + unit.len() <= n {
                t.push_str(unit);
            }
            t.push_str(*s.pick(&["", "", "\r", "\r\n"]));
            t
        }
        2 => s
            .pick(&[
                "",
                "a",
                "a\n",
                "a\r\n",
                "\r",
                "\r\n",
                "a\r",
                "\u{0}",
                "\n\n",
                "end\r\n\n",
            ])
            .to_string(),
        _ => crate::cmds::doc(s, 30),
    }
}

pub fn decode(b: &[u8]) -> (String, bool) {
    let bom = b.starts_with(BOM);
    (
        String::from_utf8(if bom { b[3..].to_vec() } else { b.to_vec() }).unwrap(),
        bom,
    )
}
