//! C13: detection of line endings and indentation.
use crate::text::*;
use pbt::{ensure, ensure_eq, Check, Src, R};
use xi_core_lib::line_ending::LineEnding;
use xi_core_lib::whitespace::Indentation;
use xi_rope::Rope;

pub fn check() -> Check {
    Check::new(
        "C13",
        "the text has several lines and more than one storage chunk, or a mixture",
    )
    .arm("endings", 10_000, 200_000, endings)
    .arm("indent", 10_000, 200_000, indent)
    .arm("detected", 2_500, 40_000, detected)
}

/// the text stored in a randomly cut rope
fn store(s: &mut Src, t: &str) -> Rope {
    match s.below(4) {
        0 => Rope::from(t),
        1 => {
            let k = offset(s, t);
            Rope::from(&t[..k]) + Rope::from(&t[k..])
        }
        2 => {
            let f = "x".repeat(s.range(400, 1040));
            let mut r = Rope::from(format!("{}{}", f, t));
            r.edit(0..f.len(), "");
            r
        }
        _ => {
            let mut r = Rope::default();
            let mut at = 0;
            while at < t.len() {
                let e = bound(t, at + s.range(1, 900));
                let e = if e <= at { t.len() } else { e };
                let l = r.len();
                r.edit(l..l, &t[at..e]);
                at = e;
            }
            r
        }
    }
}

fn ending_of(t: &str) -> Result<Option<LineEnding>, ()> {
    let b = t.as_bytes();
    let (mut crlf, mut lf, mut cr) = (0, 0, 0);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' {
            if b.get(i + 1) == Some(&b'\n') {
                crlf += 1;
                i += 1;
            } else {
                cr += 1;
            }
        } else if b[i] == b'\n' {
            lf += 1;
        }
        i += 1;
    }
    match (crlf > 0, lf > 0, cr > 0) {
        (false, false, false) => Ok(None),
        (true, false, false) => Ok(Some(LineEnding::CrLf)),
        (false, true, false) => Ok(Some(LineEnding::Lf)),
        _ => Err(()),
    }
}

fn body(s: &mut Src, mix: usize) -> String {
    let mut t = String::new();
    let n = s.range(0, 60);
    for _ in 0..n {
        let w = match s.below(5) {
            0 => 0,
            1 => s.range(0, 8),
            2 => s.range(20, 80),
            3 => s.range(500, 520),
            _ => s.range(0, 30),
        };
        let c = *s.pick(&['a', 'é', '漢', ' ', '\t']);
        t.extend(std::iter::repeat(c).take(w));
        let e = match mix {
            0 => "\n",
            1 => "\r\n",
            2 => *s.pick(&["\n", "\r\n"]),
            _ => *s.pick(&["\n", "\r\n", "\r", ""]),
        };
        t.push_str(e);
    }
    if s.bool() {
        t.push_str("end");
    }
    // one odd one out
    if mix < 2 && s.chance(1, 3) {
        let at = offset(s, &t);
        let odd = *s.pick(&["\n", "\r\n", "\r"]);
        t.insert_str(at, odd);
    }
    t
}

fn endings(s: &mut Src) -> R {
    let mix = s.weighted(&[3, 6, 2, 2]);
    let t = body(s, mix);
    let want = ending_of(&t);
    let r = store(s, &t);
    s.log(|| format!("{:?} in chunks {:?}, want {:?}", show(&t), chunks(&r), want));
    if chunks(&r).len() > 1 || want.is_err() {
        s.nontrivial();
    }
    let got = LineEnding::parse(&r).map_err(|_| ());
    ensure_eq!(
        got,
        want,
        if want.is_err() {
            "mixture-missed"
        } else {
            "uniform-wrong"
        }
    );
    Ok(())
}

fn indent(s: &mut Src) -> R {
    let unit = s.range(2, 9);
    let tabs = s.chance(1, 3);
    let mixed = s.chance(1, 4);
    let mut t = String::new();
    let mut depths = vec![];
    let mut any_tab = false;
    let mut any_space = false;
    let mut bad_line = false;
    for _ in 0..s.range(1, 80) {
        let d = s.weighted(&[4, 4, 2, 2, 1]);
        let as_tab = if mixed && s.chance(1, 5) { !tabs } else { tabs };
        if d > 0 {
            if as_tab {
                any_tab = true;
                t.push_str(&"\t".repeat(d));
                if s.chance(1, 5) {
                    t.push_str("  "); // alignment after tabs
                }
            } else {
                any_space = true;
                depths.push(d);
                t.push_str(&" ".repeat(d * unit));
                if mixed && s.chance(1, 12) {
                    t.push('\t');
                    bad_line = true;
                }
            }
        }
        let w = if s.chance(1, 6) {
            s.range(480, 540)
        } else {
            s.range(1, 30)
        };
        t.push_str(&"x".repeat(w));
        let e = *s.pick(&["\n", "\n", "\r\n"]);
        t.push_str(e);
    }
    let r = store(s, &t);
    s.log(|| format!("unit {} tabs {} {:?}", unit, tabs, show(&t)));
    if chunks(&r).len() > 1 || (any_tab && any_space) {
        s.nontrivial();
    }
    let got = Indentation::parse(&r);
    let flat = Indentation::parse(&Rope::from(t.as_str()));
    ensure_eq!(
        format!("{:?}", got),
        format!("{:?}", flat),
        "layout",
        "indentation depends on the storage"
    );
    if bad_line || (any_tab && any_space) {
        ensure!(got.is_err(), "mixture-missed", "{:?}", got);
    } else if any_tab {
        ensure_eq!(got.ok(), Some(Some(Indentation::Tabs)), "tabs");
    } else if any_space {
        if depths.contains(&1) {
            ensure_eq!(
                got.ok(),
                Some(Some(Indentation::Spaces(unit))),
                "unit",
                "consistent indent of {}",
                unit
            );
        } else {
            match got {
                Ok(Some(Indentation::Spaces(k))) => ensure!(
                    k % unit == 0,
                    "unit-multiple",
                    "{} not a multiple of {}",
                    k,
                    unit
                ),
                o => return pbt::fail("unit-none", format!("{:?}", o)),
            }
        }
    } else {
        ensure_eq!(got.ok(), Some(None), "none");
    }
    Ok(())
}

/// through the core: the settings announced for a freshly opened file
fn detected(s: &mut Src) -> R {
    let mix = s.weighted(&[3, 4, 1, 1]);
    let mut t = body(s, mix);
    let ind = s.below(3);
    let unit = s.range(2, 8);
    match ind {
        0 => {
            t = format!(
                "{}{}{}",
                "\tq",
                if mix == 1 { "\r\n" } else { "\n" },
                t.replace(' ', "x")
            )
        }
        1 => {
            t = format!(
                "{}q{}{}",
                " ".repeat(unit),
                if mix == 1 { "\r\n" } else { "\n" },
                t.replace(' ', "x").replace('\t', "y")
            )
        }
        _ => t = t.replace(' ', "x").replace('\t', "y"),
    }
    let dir = crate::drive::Scratch::new();
    let f = dir.path("f.txt");
    std::fs::write(&f, &t).unwrap();
    let mut d = crate::drive::Driver::new();
    // the user's own preferences, which what the file says overrides
    let mut prefs = serde_json::Map::new();
    if s.chance(1, 2) {
        prefs.insert("line_ending".into(), (*s.pick(&["\r\n", "\n"])).into());
    }
    if s.chance(1, 2) {
        prefs.insert("translate_tabs_to_spaces".into(), s.bool().into());
    }
    if s.chance(1, 2) {
        prefs.insert("tab_size".into(), s.range(1, 9).into());
    }
    let detect = !s.chance(1, 6);
    if !detect || s.chance(1, 4) {
        prefs.insert("autodetect_whitespace".into(), detect.into());
    }
    s.log(|| format!("{:?} preferences {:?}", show(&t), prefs));
    // set before the file is opened, or (when they only are defaults) after
    let late = detect && s.chance(1, 4);
    let domain = serde_json::json!({"general": null});
    if !late {
        d.set_config(domain.clone(), prefs.clone().into());
    }
    let v = d.open(Some(&f)).unwrap();
    if late {
        d.set_config(domain, prefs.clone().into());
    }
    let cfg = d.config(&v);
    if !detect {
        s.nontrivial();
        for (k, w) in &prefs {
            ensure_eq!(&cfg[k], w, "detected-anyway", "{}", k);
        }
        return Ok(());
    }
    s.nontrivial();
    match ending_of(&t) {
        Ok(Some(LineEnding::CrLf)) => ensure_eq!(
            cfg["line_ending"].as_str(),
            Some("\r\n"),
            "announced-ending"
        ),
        Ok(Some(LineEnding::Lf)) => {
            ensure_eq!(cfg["line_ending"].as_str(), Some("\n"), "announced-ending")
        }
        // nothing the file settles: the preference stands
        _ => {
            if let Some(e) = prefs.get("line_ending") {
                ensure_eq!(&cfg["line_ending"], e, "preference-lost");
            }
        }
    }
    match ind {
        1 => {
            ensure_eq!(
                cfg["translate_tabs_to_spaces"].as_bool(),
                Some(true),
                "announced-spaces"
            );
            ensure_eq!(
                cfg["tab_size"].as_u64(),
                Some(unit as u64),
                "announced-size"
            );
        }
        0 if !t.contains(' ') => ensure_eq!(
            cfg["translate_tabs_to_spaces"].as_bool(),
            Some(false),
            "announced-tabs"
        ),
        _ => {}
    }
    Ok(())
}
