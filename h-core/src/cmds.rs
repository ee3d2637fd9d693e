//! Generation of front-end commands.
use crate::text;
use pbt::Src;
use serde_json::{json, Value};

pub type Cmd = (String, Value);

pub fn unit(m: &str) -> Cmd {
    (m.to_string(), json!([]))
}

pub const MOVES: &[&str] = &[
    "move_up",
    "move_down",
    "move_left",
    "move_right",
    "move_backward",
    "move_forward",
    "move_word_left",
    "move_word_right",
    "move_to_beginning_of_paragraph",
    "move_to_end_of_paragraph",
    "move_to_left_end_of_line",
    "move_to_right_end_of_line",
    "move_to_beginning_of_document",
    "move_to_end_of_document",
    "scroll_page_up",
    "scroll_page_down",
];
pub const MODIFY: &[&str] = &[
    "move_up_and_modify_selection",
    "move_down_and_modify_selection",
    "move_left_and_modify_selection",
    "move_right_and_modify_selection",
    "move_word_left_and_modify_selection",
    "move_word_right_and_modify_selection",
    "move_to_beginning_of_paragraph_and_modify_selection",
    "move_to_end_of_paragraph_and_modify_selection",
    "move_to_left_end_of_line_and_modify_selection",
    "move_to_right_end_of_line_and_modify_selection",
    "move_to_beginning_of_document_and_modify_selection",
    "move_to_end_of_document_and_modify_selection",
    "page_up_and_modify_selection",
    "page_down_and_modify_selection",
];
pub const SELS: &[&str] = &[
    "select_all",
    "add_selection_above",
    "add_selection_below",
    "collapse_selections",
    "selection_into_lines",
];
pub const EDITS: &[&str] = &[
    "delete_forward",
    "delete_backward",
    "delete_word_forward",
    "delete_word_backward",
    "delete_to_end_of_paragraph",
    "delete_to_beginning_of_line",
    "insert_newline",
    "insert_tab",
    "yank",
    "transpose",
    "uppercase",
    "lowercase",
    "capitalize",
    "indent",
    "outdent",
    "duplicate_line",
    "increase_number",
    "decrease_number",
];

pub const BITS: &[&str] = &[
    "a",
    "b",
    "ab",
    "X",
    "foo",
    "bar",
    " ",
    "  ",
    "    ",
    "\t",
    "\n",
    "\r\n",
    "\r",
    "1",
    "42",
    "-7",
    "99",
    "é",
    "ß",
    "ﬁ",
    "İ",
    "漢字",
    "😀",
    "e\u{301}",
    "👩\u{200d}👧",
    "🇫🇷",
    "🇫",
    "\u{301}",
    "_",
    ".",
    ", ",
    "(",
    "[",
    "\"",
    "{",
    "foo_bar",
    "x.y",
    "\u{2028}",
    "\u{85}",
    "\u{a0}",
    "\u{feff}",
    "-",
    "--",
    "ΑΣ",
    "ǆ",
];

pub fn doc(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    match s.weighted(&[8, 3, 2, 1]) {
        0 => {
            for _ in 0..s.range(0, max) {
                t.push_str(*s.pick(BITS));
            }
        }
        1 => {
            // many short lines
            for _ in 0..s.range(0, max) {
                for _ in 0..s.range(0, 4) {
                    t.push_str(*s.pick(BITS));
                }
                t.push('\n');
            }
        }
        2 => {
            // plain words
            for _ in 0..s.range(0, max) {
                t.push_str(*s.pick(&[
                    "foo ", "bar ", "a ", "b\n", "\n", "12 ", "foo\n", "    x\n", "\ty\n",
                ]));
            }
        }
        _ => t.push_str(&text::piece(s)),
    }
    t
}

pub fn chars(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 1, 1]) {
        0 => s.pick(BITS).to_string(),
        1 => (0..s.range(0, 4)).map(|_| *s.pick(BITS)).collect(),
        2 => String::new(),
        _ => (0..s.range(0, 8))
            .map(|_| *s.pick(&["a", "foo", "\n", "x\n", "\r\n", "é"]))
            .collect(),
    }
}

/// a line/column, mostly inside a text of `lines` lines
pub fn pos(s: &mut Src, lines: usize) -> (u64, u64) {
    let l = match s.weighted(&[20, 2, 1]) {
        0 => s.range(0, lines.max(1) - 1) as u64,
        1 => s.range(lines, lines + 3) as u64,
        _ => *s.pick(&[1 << 20, 1 << 33, (1 << 53) - 1]),
    };
    let c = match s.weighted(&[20, 3, 1]) {
        0 => s.range(0, 12) as u64,
        1 => s.range(0, 600) as u64,
        _ => *s.pick(&[1 << 20, 1 << 33, (1 << 53) - 1]),
    };
    (l, c)
}

pub fn gesture(s: &mut Src, lines: usize) -> Cmd {
    let (line, col) = pos(s, lines);
    let g = *s.pick(&["point", "point", "word", "line"]);
    let ty = match s.weighted(&[4, 6, 3, 3, 1]) {
        0 => json!({"select": {"granularity": g, "multi": false}}),
        1 => json!({"select": {"granularity": g, "multi": true}}),
        2 => json!({"select_extend": {"granularity": g}}),
        3 => json!("drag"),
        _ => json!(*s.pick(&[
            "point_select",
            "toggle_sel",
            "range_select",
            "line_select",
            "word_select",
            "multi_line_select",
            "multi_word_select"
        ])),
    };
    (
        "gesture".into(),
        json!({"line": line, "col": col, "ty": ty}),
    )
}

pub fn range(s: &mut Src, lines: usize) -> Value {
    let a = s.range(0, lines + 3) as i64 - 1;
    let b = a + s.range(0, 12) as i64;
    json!([a, b])
}

pub fn regex(s: &mut Src) -> String {
    s.pick(&[
        "a",
        "a*",
        "b+",
        "^",
        "$",
        "^a",
        "x?",
        ".",
        ".*",
        "\\b",
        "\\w+",
        "\\s",
        "\n",
        "a\\nb",
        "(foo|bar)",
        "[é漢]",
        "\\d+",
        "(",
        "[",
        "\\B",
        "a|",
        "|",
        "\\n+",
        "(?m)^",
        "(?s).",
        "$\\n",
        "\\r\\n",
        "",
    ])
    .to_string()
}

pub fn query(s: &mut Src) -> (String, bool, bool, bool) {
    let re = s.chance(1, 3);
    let c = if re { regex(s) } else { chars(s) };
    (c, s.bool(), re, s.chance(1, 3))
}

pub fn search(s: &mut Src) -> Cmd {
    let m = *s.pick(&["none", "set", "set", "add", "add_removing_current"]);
    match s.below(13) {
        0 | 1 | 2 => {
            let (c, case, re, ww) = query(s);
            (
                "find".into(),
                json!({"chars": c, "case_sensitive": case, "regex": re, "whole_words": ww}),
            )
        }
        3 => {
            let n = s.range(0, 3);
            let q: Vec<Value> = (0..n)
                .map(|_| {
                    let (c, case, re, ww) = query(s);
                    let id = if s.bool() { json!(null) } else { json!(s.range(1, 4)) };
                    json!({"id": id, "chars": c, "case_sensitive": case, "regex": re, "whole_words": ww})
                })
                .collect();
            ("multi_find".into(), json!({ "queries": q }))
        }
        4 | 5 => (
            "find_next".into(),
            json!({"wrap_around": s.bool(), "allow_same": s.bool(), "modify_selection": m}),
        ),
        6 => (
            "find_previous".into(),
            json!({"wrap_around": s.bool(), "allow_same": s.bool(), "modify_selection": m}),
        ),
        7 => unit("find_all"),
        8 => ("highlight_find".into(), json!({"visible": s.bool()})),
        9 => (
            "selection_for_find".into(),
            json!({"case_sensitive": s.bool()}),
        ),
        10 => (
            "replace".into(),
            json!({"chars": chars(s), "preserve_case": s.bool()}),
        ),
        11 => unit(*s.pick(&["replace_next", "replace_all"])),
        _ => unit("selection_for_replace"),
    }
}

/// any well-formed edit command; `lines` steers positions
pub fn any(s: &mut Src, lines: usize) -> Cmd {
    match s.weighted(&[8, 8, 6, 14, 6, 4, 10, 8, 3, 4, 3, 2, 2, 1, 2]) {
        0 => unit(*s.pick(MOVES)),
        1 => unit(*s.pick(MODIFY)),
        2 => unit(*s.pick(SELS)),
        3 => unit(*s.pick(EDITS)),
        4 => ("insert".into(), json!({ "chars": chars(s) })),
        5 => ("paste".into(), json!({ "chars": chars(s) })),
        6 => gesture(s, lines),
        7 => search(s),
        8 => ("scroll".into(), range(s, lines)),
        9 => unit(*s.pick(&["undo", "undo", "redo"])),
        10 => ("request_lines".into(), range(s, lines)),
        11 => {
            let (l, c) = pos(s, lines);
            match s.below(3) {
                0 => ("goto_line".into(), json!({ "line": l })),
                1 => (
                    "click".into(),
                    json!([l, c, *s.pick(&[0, 2]), *s.pick(&[1, 2, 3])]),
                ),
                _ => ("drag".into(), json!([l, c, 0])),
            }
        }
        12 => (
            "resize".into(),
            json!({"width": *s.pick(&[0.0, 1.0, 5.0, 8.5, 20.0, 1000.0]), "height": s.range(0, 500)}),
        ),
        13 => unit(*s.pick(&[
            "debug_rewrap",
            "debug_wrap_width",
            "debug_print_spans",
            "debug_toggle_comment",
            "reindent",
        ])),
        _ => match s.below(4) {
            0 | 1 => {
                let n = if s.chance(1, 4) {
                    json!(null)
                } else {
                    json!(*s.pick(&["r", "q"]))
                };
                ("toggle_recording".into(), json!({ "recording_name": n }))
            }
            2 => (
                "play_recording".into(),
                json!({ "recording_name": *s.pick(&["r", "q", "zz"]) }),
            ),
            _ => (
                "clear_recording".into(),
                json!({ "recording_name": *s.pick(&["r", "q", "zz"]) }),
            ),
        },
    }
}

/// a valid settings change
pub fn setting(s: &mut Src) -> Value {
    match s.below(8) {
        0 => json!({ "tab_size": *s.pick(&[1usize, 2, 3, 4, 8, 33, 100]) }),
        1 => json!({ "translate_tabs_to_spaces": s.bool() }),
        2 => json!({ "wrap_width": *s.pick(&[0usize, 1, 3, 8, 20, 80]) }),
        3 => json!({ "word_wrap": s.bool() }),
        4 => json!({ "use_tab_stops": s.bool() }),
        5 => json!({ "line_ending": *s.pick(&["\n", "\r\n"]) }),
        6 => json!({ "auto_indent": s.bool() }),
        _ => {
            json!({ "surrounding_pairs": *s.pick(&[&[["(", ")"], ["a", "bb"]][..], &[["[", "]"]][..]]) })
        }
    }
}
