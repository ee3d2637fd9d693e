//! N03: the messages of the front-end and plugin protocols.
//!
//! `schemas` is a table of every message, written down from the protocol
//! documents. Messages are generated from it along with their canonical form
//! (optional fields filled in); perturbed ones must be refused.
use pbt::{ensure, ensure_eq, Check, Src, R};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use xi_core_lib::plugin_manifest as man;
use xi_core_lib::plugin_rpc as prpc;
use xi_core_lib::rpc as crpc;

type JMap = serde_json::Map<String, Value>;

pub fn check() -> Check {
    Check::new("N03", "a message with parameters was decoded, or a perturbed message was judged")
        .arm("messages", 500_000, 12_000_000, messages)
        .arm("refused", 500_000, 12_000_000, refused)
        .arm("mutated", 300_000, 9_000_000, mutated)
        .arm("fields", 150_000, 1_000_000, fields)
        .assume("unknown extra fields, arrays in place of objects (positional parameters) and parameters of commands which take none are not judged")
}

#[derive(Clone, Debug)]
enum K {
    Str,
    Bool,
    U,
    U32,
    I,
    F,
    View,
    /// absent or null
    Opt(Box<K>),
    /// absent; left out when encoded
    Skip(Box<K>),
    /// absent: this value
    Def(Box<K>, Value),
    List(Box<K>),
    Obj(Vec<(&'static str, K)>),
    Enum(Vec<&'static str>),
    /// one of several forms
    One(Vec<K>),
    /// a table
    Map,
    Any,
    /// an array of two integers
    Pair,
    Mouse,
    Delta,
    /// an error sent by a peer
    Error,
}
use K::*;

fn opt(k: K) -> K {
    Opt(Box::new(k))
}
fn def(k: K, v: Value) -> K {
    Def(Box::new(k), v)
}
fn list(k: K) -> K {
    List(Box::new(k))
}

/// how a message is wrapped
#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    /// {method, params}
    Plain,
    /// {method: edit, params: {method, params, view_id}}
    Edit,
    /// {method: plugin, params: {command, …}}
    Plugin,
    /// {method, params: {…, view_id, plugin_id}}
    FromPlugin,
    /// the object itself
    Bare,
}

type Dec = fn(&Value) -> Result<Value, String>;

struct M {
    name: &'static str,
    w: W,
    params: Option<K>,
    dec: Dec,
}

/// Decodes, from a tree and from text, and encodes again.
fn dec<T: DeserializeOwned + Serialize>(v: &Value) -> Result<Value, String> {
    let a = serde_json::from_value::<T>(v.clone());
    let b = serde_json::from_str::<T>(&v.to_string());
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let a = serde_json::to_value(&a).map_err(|e| format!("ENCODE {}", e))?;
            let b = serde_json::to_value(&b).map_err(|e| format!("ENCODE {}", e))?;
            if a != b {
                return Err(format!("ENCODE from a tree {} but from text {}", a, b));
            }
            Ok(a)
        }
        (Err(a), Err(_)) => Err(a.to_string()),
        (Ok(_), Err(b)) => Err(format!(
            "ENCODE decoded from a tree but not from text: {}",
            b
        )),
        (Err(a), Ok(_)) => Err(format!(
            "ENCODE decoded from text but not from a tree: {}",
            a
        )),
    }
}

const UNIT_EDITS: &[&str] = &[
    "delete_forward",
    "delete_backward",
    "delete_word_forward",
    "delete_word_backward",
    "delete_to_end_of_paragraph",
    "delete_to_beginning_of_line",
    "insert_newline",
    "insert_tab",
    "move_up",
    "move_up_and_modify_selection",
    "move_down",
    "move_down_and_modify_selection",
    "move_left",
    "move_backward",
    "move_left_and_modify_selection",
    "move_right",
    "move_forward",
    "move_right_and_modify_selection",
    "move_word_left",
    "move_word_left_and_modify_selection",
    "move_word_right",
    "move_word_right_and_modify_selection",
    "move_to_beginning_of_paragraph",
    "move_to_beginning_of_paragraph_and_modify_selection",
    "move_to_end_of_paragraph",
    "move_to_end_of_paragraph_and_modify_selection",
    "move_to_left_end_of_line",
    "move_to_left_end_of_line_and_modify_selection",
    "move_to_right_end_of_line",
    "move_to_right_end_of_line_and_modify_selection",
    "move_to_beginning_of_document",
    "move_to_beginning_of_document_and_modify_selection",
    "move_to_end_of_document",
    "move_to_end_of_document_and_modify_selection",
    "scroll_page_up",
    "page_up_and_modify_selection",
    "scroll_page_down",
    "page_down_and_modify_selection",
    "select_all",
    "add_selection_above",
    "add_selection_below",
    "yank",
    "transpose",
    "undo",
    "redo",
    "find_all",
    "debug_rewrap",
    "debug_wrap_width",
    "debug_print_spans",
    "debug_toggle_comment",
    "uppercase",
    "lowercase",
    "capitalize",
    "reindent",
    "indent",
    "outdent",
    "replace_next",
    "replace_all",
    "selection_for_replace",
    "selection_into_lines",
    "duplicate_line",
    "increase_number",
    "decrease_number",
    "collapse_selections",
];

fn schemas() -> Vec<M> {
    let mut v = Vec::new();
    let cn: Dec = dec::<crpc::CoreNotification>;
    let cr: Dec = dec::<crpc::CoreRequest>;
    let mut add = |name, w, params, dec| {
        v.push(M {
            name,
            w,
            params,
            dec,
        })
    };
    // front-end, notifications
    let lang = || Str;
    add(
        "close_view",
        W::Plain,
        Some(Obj(vec![("view_id", View)])),
        cn,
    );
    add(
        "save",
        W::Plain,
        Some(Obj(vec![("view_id", View), ("file_path", Str)])),
        cn,
    );
    add(
        "set_theme",
        W::Plain,
        Some(Obj(vec![("theme_name", Str)])),
        cn,
    );
    add(
        "client_started",
        W::Plain,
        Some(Obj(vec![
            ("config_dir", opt(Str)),
            ("client_extras_dir", opt(Str)),
        ])),
        cn,
    );
    let domain = || {
        One(vec![
            Enum(vec!["general"]),
            Obj(vec![("syntax", lang())]),
            Obj(vec![("language", lang())]),
            Obj(vec![("user_override", View)]),
        ])
    };
    add(
        "modify_user_config",
        W::Plain,
        Some(Obj(vec![("domain", domain()), ("changes", Map)])),
        cn,
    );
    add(
        "tracing_config",
        W::Plain,
        Some(Obj(vec![("enabled", Bool)])),
        cn,
    );
    add(
        "save_trace",
        W::Plain,
        Some(Obj(vec![("destination", Str), ("frontend_samples", Any)])),
        cn,
    );
    add(
        "set_language",
        W::Plain,
        Some(Obj(vec![("view_id", View), ("language_id", lang())])),
        cn,
    );
    // front-end, requests
    add(
        "new_view",
        W::Plain,
        Some(Obj(vec![("file_path", opt(Str))])),
        cr,
    );
    add(
        "get_config",
        W::Plain,
        Some(Obj(vec![("view_id", View)])),
        cr,
    );
    add(
        "debug_get_contents",
        W::Plain,
        Some(Obj(vec![("view_id", View)])),
        cr,
    );
    add("cut", W::Edit, None, cr);
    add("copy", W::Edit, None, cr);
    // the edit namespace
    for name in UNIT_EDITS {
        add(name, W::Edit, None, cn);
    }
    let granularity = || Enum(vec!["point", "word", "line"]);
    let gesture = || {
        One(vec![
            Obj(vec![(
                "select",
                Obj(vec![("granularity", granularity()), ("multi", Bool)]),
            )]),
            Obj(vec![(
                "select_extend",
                Obj(vec![("granularity", granularity())]),
            )]),
            Enum(vec![
                "drag",
                "point_select",
                "toggle_sel",
                "range_select",
                "line_select",
                "word_select",
                "multi_line_select",
                "multi_word_select",
            ]),
        ])
    };
    let modifier = || Enum(vec!["none", "set", "add", "add_removing_current"]);
    let find_next = || {
        Obj(vec![
            ("wrap_around", def(Bool, json!(false))),
            ("allow_same", def(Bool, json!(false))),
            ("modify_selection", def(modifier(), json!("set"))),
        ])
    };
    let position = || Obj(vec![("line", U), ("column", U)]);
    for (name, k) in vec![
        ("insert", Obj(vec![("chars", Str)])),
        ("paste", Obj(vec![("chars", Str)])),
        ("scroll", Pair),
        ("request_lines", Pair),
        ("resize", Obj(vec![("width", F), ("height", F)])),
        ("goto_line", Obj(vec![("line", U)])),
        ("click", Mouse),
        ("drag", Mouse),
        (
            "gesture",
            Obj(vec![("line", U), ("col", U), ("ty", gesture())]),
        ),
        (
            "find",
            Obj(vec![
                ("chars", Str),
                ("case_sensitive", Bool),
                ("regex", def(Bool, json!(false))),
                ("whole_words", def(Bool, json!(false))),
            ]),
        ),
        (
            "multi_find",
            Obj(vec![(
                "queries",
                list(Obj(vec![
                    ("id", opt(U)),
                    ("chars", Str),
                    ("case_sensitive", Bool),
                    ("regex", def(Bool, json!(false))),
                    ("whole_words", def(Bool, json!(false))),
                ])),
            )]),
        ),
        ("find_next", find_next()),
        ("find_previous", find_next()),
        ("highlight_find", Obj(vec![("visible", Bool)])),
        (
            "selection_for_find",
            Obj(vec![("case_sensitive", def(Bool, json!(false)))]),
        ),
        (
            "replace",
            Obj(vec![
                ("chars", Str),
                ("preserve_case", def(Bool, json!(false))),
            ]),
        ),
        (
            "request_hover",
            Obj(vec![("request_id", U), ("position", opt(position()))]),
        ),
        ("toggle_recording", Obj(vec![("recording_name", opt(Str))])),
        ("play_recording", Obj(vec![("recording_name", Str)])),
        ("clear_recording", Obj(vec![("recording_name", Str)])),
    ] {
        add(name, W::Edit, Some(k), cn);
    }
    // the plugin namespace
    let rpc = || {
        Obj(vec![
            ("method", Str),
            ("params", Any),
            ("rpc_type", Enum(vec!["notification", "request"])),
        ])
    };
    add(
        "start",
        W::Plugin,
        Some(Obj(vec![("view_id", View), ("plugin_name", Str)])),
        cn,
    );
    add(
        "stop",
        W::Plugin,
        Some(Obj(vec![("view_id", View), ("plugin_name", Str)])),
        cn,
    );
    add(
        "plugin_rpc",
        W::Plugin,
        Some(Obj(vec![
            ("view_id", View),
            ("receiver", Str),
            ("rpc", rpc()),
        ])),
        cn,
    );
    // core to plugin
    let hn: Dec = dec::<prpc::HostNotification>;
    let hr: Dec = dec::<prpc::HostRequest>;
    let info = || {
        list(Obj(vec![
            ("buffer_id", U),
            ("views", list(View)),
            ("rev", U),
            ("buf_size", U),
            ("nb_lines", U),
            ("path", Skip(Box::new(Str))),
            ("syntax", lang()),
            ("config", Map),
        ]))
    };
    for (name, k) in vec![
        ("ping", Obj(vec![])),
        (
            "initialize",
            Obj(vec![("plugin_id", U), ("buffer_info", info())]),
        ),
        ("did_save", Obj(vec![("view_id", View), ("path", Str)])),
        (
            "config_changed",
            Obj(vec![("view_id", View), ("changes", Map)]),
        ),
        ("new_buffer", Obj(vec![("buffer_info", info())])),
        ("did_close", Obj(vec![("view_id", View)])),
        (
            "get_hover",
            Obj(vec![("view_id", View), ("request_id", U), ("position", U)]),
        ),
        ("shutdown", Obj(vec![])),
        ("tracing_config", Obj(vec![("enabled", Bool)])),
        (
            "language_changed",
            Obj(vec![("view_id", View), ("new_lang", lang())]),
        ),
        (
            "custom_command",
            Obj(vec![("view_id", View), ("method", Str), ("params", Any)]),
        ),
    ] {
        add(name, W::Plain, Some(k), hn);
    }
    let update = Obj(vec![
        ("view_id", View),
        ("delta", opt(Delta)),
        ("new_len", U),
        ("new_line_count", U),
        ("rev", U),
        ("undo_group", opt(U)),
        ("edit_type", Str),
        ("author", Str),
    ]);
    add("update", W::Plain, Some(update), hr);
    add("collect_trace", W::Plain, Some(Obj(vec![])), hr);
    // plugin to core
    let pn: Dec = dec::<prpc::PluginCommand<prpc::PluginNotification>>;
    let pr: Dec = dec::<prpc::PluginCommand<prpc::PluginRequest>>;
    let edit = || {
        Obj(vec![
            ("rev", U),
            ("delta", Delta),
            ("priority", U),
            ("after_cursor", Bool),
            ("undo_group", opt(U)),
            ("author", Str),
        ])
    };
    let hover = || {
        Obj(vec![
            ("content", Str),
            ("range", opt(Obj(vec![("start", U), ("end", U)]))),
        ])
    };
    for (name, k) in vec![
        ("add_scopes", Obj(vec![("scopes", list(list(Str)))])),
        (
            "update_spans",
            Obj(vec![
                ("start", U),
                ("len", U),
                (
                    "spans",
                    list(Obj(vec![("start", U), ("end", U), ("scope_id", U32)])),
                ),
                ("rev", U),
            ]),
        ),
        ("edit", Obj(vec![("edit", edit())])),
        ("alert", Obj(vec![("msg", Str)])),
        (
            "add_status_item",
            Obj(vec![("key", Str), ("value", Str), ("alignment", Str)]),
        ),
        (
            "update_status_item",
            Obj(vec![("key", Str), ("value", Str)]),
        ),
        ("remove_status_item", Obj(vec![("key", Str)])),
        (
            "show_hover",
            Obj(vec![
                ("request_id", U),
                (
                    "result",
                    One(vec![
                        Obj(vec![("Ok", hover())]),
                        Obj(vec![("Err", K::Error)]),
                    ]),
                ),
            ]),
        ),
        (
            "update_annotations",
            Obj(vec![
                ("start", U),
                ("len", U),
                (
                    "spans",
                    list(Obj(vec![("start", U), ("end", U), ("data", Any)])),
                ),
                (
                    "annotation_type",
                    One(vec![
                        Enum(vec!["Selection", "Find"]),
                        Obj(vec![("Other", Str)]),
                    ]),
                ),
                ("rev", U),
            ]),
        ),
    ] {
        add(name, W::FromPlugin, Some(k), pn);
    }
    add(
        "get_data",
        W::FromPlugin,
        Some(Obj(vec![
            ("start", U),
            ("unit", Enum(vec!["utf8", "line"])),
            ("max_size", U),
            ("rev", U),
        ])),
        pr,
    );
    add("line_count", W::FromPlugin, Some(Obj(vec![])), pr);
    add("get_selections", W::FromPlugin, Some(Obj(vec![])), pr);
    // parts of messages
    add(
        "(get_data response)",
        W::Bare,
        Some(Obj(vec![
            ("chunk", Str),
            ("offset", U),
            ("first_line", U),
            ("first_line_offset", U),
        ])),
        dec::<prpc::GetDataResponse>,
    );
    add(
        "(plugin info)",
        W::Bare,
        Some(Obj(vec![("name", Str), ("running", Bool)])),
        dec::<prpc::ClientPluginInfo>,
    );
    let option = || Obj(vec![("title", Str), ("value", Any)]);
    let arg = Obj(vec![
        ("title", Str),
        ("description", Str),
        ("key", Str),
        (
            "arg_type",
            Enum(vec!["Number", "Int", "PosInt", "Bool", "String", "Choice"]),
        ),
        ("options", Skip(Box::new(list(option())))),
    ]);
    add(
        "(command)",
        W::Bare,
        Some(Obj(vec![
            ("title", Str),
            ("description", Str),
            ("rpc_cmd", rpc()),
            ("args", list(arg)),
        ])),
        dec::<man::Command>,
    );
    v
}

fn all() -> &'static [M] {
    static ALL: std::sync::OnceLock<Vec<M>> = std::sync::OnceLock::new();
    ALL.get_or_init(schemas)
}

fn string(s: &mut Src) -> String {
    let n = s.skew(12);
    (0..n)
        .map(|_| {
            *s.pick(&[
                'a', 'Z', '0', ' ', '"', '\\', '\n', '\u{0}', '\u{7f}', 'é', '語', '😀',
                '\u{2028}', '\u{feff}', '/',
            ])
        })
        .collect()
}
fn uint(s: &mut Src) -> u64 {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.below(200),
        1 => s.below(1 << 40),
        2 => *s.pick(&[
            u64::MAX,
            i64::MAX as u64,
            i64::MAX as u64 + 1,
            u64::from(u32::MAX),
            1 << 53,
        ]),
        _ => s.u64(),
    }
}
fn int(s: &mut Src) -> i64 {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.below(200) as i64 - 100,
        1 => s.below(1 << 40) as i64 - (1 << 39),
        2 => *s.pick(&[i64::MAX, i64::MIN, -1, 0]),
        _ => s.u64() as i64,
    }
}
fn any(s: &mut Src, depth: usize) -> Value {
    match s.weighted(&[
        2,
        2,
        2,
        2,
        2,
        if depth > 0 { 3 } else { 0 },
        if depth > 0 { 3 } else { 0 },
    ]) {
        0 => Value::Null,
        1 => json!(s.bool()),
        2 => json!(int(s)),
        3 => json!((s.below(4000) as f64 - 2000.0) / 4.0),
        4 => json!(string(s)),
        5 => Value::Array((0..s.skew(4)).map(|_| any(s, depth - 1)).collect()),
        _ => {
            let mut m = JMap::new();
            for _ in 0..s.skew(4) {
                let k = match s.below(4) {
                    0 => (*s.pick(&["method", "params", "view_id", "plugin_id", "command", "id"]))
                        .to_string(),
                    _ => string(s),
                };
                m.insert(k, any(s, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn delta(s: &mut Src) -> Value {
    let n = s.skew(60);
    let mut els = Vec::new();
    let mut at = 0;
    for _ in 0..s.skew(6) {
        if s.bool() {
            let t = string(s) + "x";
            // two insertions in a row are one
            if matches!(els.last(), Some(Value::Object(m)) if m.contains_key("insert")) {
                continue;
            }
            els.push(json!({ "insert": t }));
        } else if at < n {
            let b = s.range(at, n - 1);
            let e = s.range(b + 1, n);
            els.push(json!({ "copy": [b, e] }));
            at = e;
        }
    }
    json!({ "els": els, "base_len": n })
}

/// A value as sent, and in canonical form.
fn gen(s: &mut Src, k: &K) -> (Value, Value) {
    let same = |v: Value| (v.clone(), v);
    match k {
        Str => same(json!(string(s))),
        Bool => same(json!(s.bool())),
        U => same(json!(uint(s))),
        U32 => same(json!(uint(s) as u32)),
        I => same(json!(int(s))),
        F => {
            let x = s.below(8000) as f64 / 4.0 - 1000.0;
            if x.fract() == 0.0 && s.bool() {
                (json!(x as i64), json!(x))
            } else {
                same(json!(x))
            }
        }
        View => same(json!(format!("view-id-{}", uint(s)))),
        Opt(k) => match s.below(4) {
            0 => same(Value::Null),
            _ => gen(s, k),
        },
        Skip(k) | Def(k, _) => gen(s, k),
        List(k) => {
            let (a, b) = (0..s.skew(4))
                .map(|_| gen(s, k))
                .unzip::<_, _, Vec<_>, Vec<_>>();
            (Value::Array(a), Value::Array(b))
        }
        Obj(fs) => {
            let (mut a, mut b) = (JMap::new(), JMap::new());
            for (name, k) in fs {
                let absent = match k {
                    Opt(_) | Skip(_) | Def(..) => s.chance(1, 3),
                    _ => false,
                };
                let (x, y) = if absent {
                    (
                        None,
                        match k {
                            Opt(_) => Some(Value::Null),
                            Def(_, d) => Some(d.clone()),
                            _ => None,
                        },
                    )
                } else {
                    let (x, y) = gen(s, k);
                    (Some(x), Some(y))
                };
                if let Some(x) = x {
                    a.insert(name.to_string(), x);
                }
                if let Some(y) = y {
                    b.insert(name.to_string(), y);
                }
            }
            (Value::Object(a), Value::Object(b))
        }
        Enum(names) => same(json!(*s.pick(names))),
        One(ks) => {
            let i = s.idx(ks.len());
            gen(s, &ks[i])
        }
        K::Map => {
            let mut m = JMap::new();
            for _ in 0..s.skew(4) {
                m.insert(string(s), any(s, 2));
            }
            same(Value::Object(m))
        }
        Any => same(any(s, 2)),
        Pair => same(json!([int(s), int(s)])),
        Mouse => {
            let mut v = vec![json!(uint(s)), json!(uint(s)), json!(uint(s))];
            if s.bool() {
                v.push(json!(uint(s)));
            }
            same(Value::Array(v))
        }
        K::Delta => same(delta(s)),
        K::Error => {
            let data = if s.bool() {
                Some(json!(string(s)))
            } else {
                None
            };
            let (code, msg) = if s.below(4) == 0 {
                (-32600, "Invalid request".to_string())
            } else {
                (s.below(2000) as i64 - 1000, string(s))
            };
            let mut v = json!({ "code": code, "message": msg });
            if let Some(d) = data {
                v["data"] = d;
            }
            same(v)
        }
    }
}

fn pick_schema(s: &mut Src, all: &'static [M]) -> &'static M {
    // the commands without parameters are many but alike
    let with: Vec<usize> = (0..all.len())
        .filter(|i| all[*i].params.is_some())
        .collect();
    let i = if s.below(5) == 0 {
        s.idx(all.len())
    } else {
        *s.pick(&with)
    };
    &all[i]
}

fn wrap(s: &mut Src, m: &M, params: Option<(Value, Value)>) -> (Value, Value) {
    let (a, b) = match params {
        Some((a, b)) => (Some(a), Some(b)),
        None => (None, None),
    };
    match m.w {
        W::Plain => (
            json!({"method": m.name, "params": a.unwrap()}),
            json!({"method": m.name, "params": b.unwrap()}),
        ),
        W::Edit => {
            let view = format!("view-id-{}", uint(s));
            let mk = |p: Option<Value>| {
                let mut e = json!({"method": m.name, "view_id": view});
                if let Some(p) = p {
                    e["params"] = p;
                }
                json!({"method": "edit", "params": e})
            };
            let a = if m.params.is_none() {
                match s.below(3) {
                    0 => None,
                    1 => Some(json!([])),
                    _ => Some(json!({})),
                }
            } else {
                a
            };
            (mk(a), mk(b))
        }
        W::Plugin => {
            let mk = |mut p: Value| {
                p["command"] = json!(m.name);
                json!({"method": "plugin", "params": p})
            };
            (mk(a.unwrap()), mk(b.unwrap()))
        }
        W::FromPlugin => {
            let (view, id) = (format!("view-id-{}", uint(s)), uint(s));
            let mk = |mut p: Value| {
                p["view_id"] = json!(view);
                p["plugin_id"] = json!(id);
                json!({"method": m.name, "params": p})
            };
            (mk(a.unwrap()), mk(b.unwrap()))
        }
        W::Bare => (a.unwrap(), b.unwrap()),
    }
}

/// Where a message has its parameters.
fn params_at<'a>(m: &M, v: &'a mut Value) -> &'a mut Value {
    match m.w {
        W::Plain | W::FromPlugin | W::Plugin => &mut v["params"],
        W::Edit => &mut v["params"]["params"],
        W::Bare => v,
    }
}

fn messages(s: &mut Src) -> R {
    let all = all();
    let m = pick_schema(s, all);
    let p = m.params.as_ref().map(|k| gen(s, k));
    if m.params.is_some() {
        s.nontrivial();
    }
    let (wire, canon) = wrap(s, m, p);
    s.log(|| format!("message {}", wire));
    match (m.dec)(&wire) {
        Err(e) if e.starts_with("ENCODE") => pbt::fail("encode", format!("{}: {}", wire, e)),
        Err(e) => pbt::fail("decode", format!("{} is not understood: {}", wire, e)),
        Ok(v) => {
            ensure!(
                v == canon,
                "roundtrip",
                "{} was encoded again as {}, not {}",
                wire,
                v,
                canon
            );
            match (m.dec)(&v) {
                Ok(w) => ensure!(w == v, "again", "{} was encoded again as {}", v, w),
                Err(e) => {
                    return pbt::fail(
                        "own-encoding",
                        format!(
                            "{} is not understood, which is how {} is encoded: {}",
                            v, wire, e
                        ),
                    )
                }
            }
            Ok(())
        }
    }
}

fn misspell(s: &mut Src, name: &str) -> String {
    match s.below(5) {
        0 => format!("{}_", name),
        1 => name.to_uppercase().replace('8', "_8"),
        2 if name.len() > 1 => name[1..].to_string(),
        3 => name.replace('_', "-") + "x",
        _ => String::new(),
    }
}

/// Replaces something in a value of the kind by something which is not of it.
fn spoil(s: &mut Src, k: &K, v: &mut Value) -> Option<String> {
    let set = |v: &mut Value, to: Value, what: &str| {
        let t = format!("{} {} -> {}", what, v, to);
        *v = to;
        Some(t)
    };
    let bad_uint = |s: &mut Src| -> Value {
        match s.below(7) {
            0 => json!(-1 - s.below(5) as i64),
            1 => json!(1.5),
            2 => json!("3"),
            3 => json!(true),
            4 => json!([1]),
            5 => json!({ "a": 1 }),
            _ => Value::Null,
        }
    };
    match k {
        Str => {
            let to = s
                .pick(&[
                    json!(1),
                    json!(true),
                    json!({}),
                    json!(["a"]),
                    Value::Null,
                    json!(1.5),
                ])
                .clone();
            set(v, to, "string")
        }
        Bool => {
            let to = s
                .pick(&[
                    json!(0),
                    json!(1),
                    json!("true"),
                    json!(""),
                    Value::Null,
                    json!([]),
                    json!({}),
                ])
                .clone();
            set(v, to, "boolean")
        }
        U => {
            let to = bad_uint(s);
            set(v, to, "number")
        }
        U32 => {
            let to = if s.below(4) == 0 {
                json!(u64::from(u32::MAX) + 1 + s.below(10))
            } else {
                bad_uint(s)
            };
            set(v, to, "number")
        }
        I => {
            let to = s
                .pick(&[
                    json!(0.5),
                    json!(u64::MAX),
                    json!("0"),
                    Value::Null,
                    json!(true),
                ])
                .clone();
            set(v, to, "integer")
        }
        F => {
            let to = s
                .pick(&[json!("1.0"), json!(true), Value::Null, json!([1.0])])
                .clone();
            set(v, to, "float")
        }
        View => {
            let to = s
                .pick(&[
                    json!(1),
                    json!("view-id-x"),
                    json!("view-id-"),
                    json!("buffer-id-1"),
                    json!(""),
                    Value::Null,
                    json!("view-id--1"),
                    json!("view-id-1 "),
                    json!("view-id-1.5"),
                    json!("view-id-99999999999999999999"),
                    json!(["view-id-1"]),
                ])
                .clone();
            set(v, to, "view id")
        }
        Opt(k) | Skip(k) => {
            if v.is_null() {
                return None;
            }
            let old = v.clone();
            let t = spoil(s, k, v)?;
            if v.is_null() {
                *v = old;
                return None;
            }
            Some(t)
        }
        Def(k, _) => spoil(s, k, v),
        List(k) => {
            let n = v.as_array().map_or(0, |a| a.len());
            if n > 0 && s.below(4) > 0 {
                let i = s.idx(n);
                return spoil(s, k, &mut v[i]);
            }
            let to = s
                .pick(&[
                    json!(1),
                    json!("a"),
                    json!(true),
                    Value::Null,
                    json!({ "a": 1 }),
                ])
                .clone();
            set(v, to, "list")
        }
        Obj(fs) => {
            let need: Vec<&str> = fs
                .iter()
                .filter(|f| !matches!(f.1, Opt(_) | Skip(_) | Def(..)))
                .map(|f| f.0)
                .collect();
            let here: Vec<usize> = (0..fs.len())
                .filter(|i| v.get(fs[*i].0).is_some())
                .collect();
            match s.weighted(&[2, 2, 8, 1]) {
                0 if !need.is_empty() => {
                    let f = *s.pick(&need);
                    v.as_object_mut()?.remove(f);
                    Some(format!("without {}", f))
                }
                1 if !need.is_empty() => {
                    let f = *s.pick(&need);
                    let g = misspell(s, f);
                    if fs.iter().any(|x| x.0 == g) {
                        return None;
                    }
                    let x = v.as_object_mut()?.remove(f)?;
                    v[&g] = x;
                    Some(format!("{} as {:?}", f, g))
                }
                2 if !here.is_empty() => {
                    let f = &fs[*s.pick(&here)];
                    spoil(s, &f.1, &mut v[f.0]).map(|t| format!("{}: {}", f.0, t))
                }
                _ => {
                    let to = s
                        .pick(&[json!(1), json!("a"), json!(true), json!(1.5)])
                        .clone();
                    set(v, to, "object")
                }
            }
        }
        Enum(names) => {
            let to = match s.below(3) {
                0 => json!(s.below(3)),
                1 => {
                    let n = *s.pick(names);
                    let g = misspell(s, n);
                    if names.contains(&&*g) {
                        return None;
                    }
                    json!(g)
                }
                _ => s
                    .pick(&[json!("nonsense"), json!(true), json!([]), json!({})])
                    .clone(),
            };
            set(v, to, "name")
        }
        One(ks) => {
            // which one is it?
            for k in ks {
                match k {
                    Enum(ns) if v.as_str().map_or(false, |x| ns.contains(&x)) => {
                        if s.bool() {
                            let to = s
                                .pick(&[
                                    json!("nonsense"),
                                    json!(1),
                                    json!([]),
                                    json!({}),
                                    json!({"nonsense": {}}),
                                ])
                                .clone();
                            return set(v, to, "form");
                        }
                        // a name of another form in place of this is not a name alone
                        let to = misspell(s, ns[0]);
                        return set(v, json!(to), "form");
                    }
                    Obj(fs) if v.get(fs[0].0).is_some() => {
                        if s.below(4) == 0 {
                            // the tag without its content
                            let to = json!(fs[0].0);
                            return set(v, to, "form");
                        }
                        if s.below(4) == 0 {
                            // two at once
                            v["nonsense"] = json!(1);
                            return Some("two forms".into());
                        }
                        return spoil(s, &fs[0].1, &mut v[fs[0].0]);
                    }
                    _ => (),
                }
            }
            None
        }
        K::Map => {
            let to = s
                .pick(&[
                    json!(1),
                    json!("a"),
                    json!(true),
                    Value::Null,
                    json!([]),
                    json!([1]),
                ])
                .clone();
            set(v, to, "table")
        }
        Any => None,
        Pair => match s.below(4) {
            0 => {
                let to = s
                    .pick(&[
                        json!([]),
                        json!([1]),
                        json!([1, 2, 3]),
                        json!(1),
                        json!("a"),
                        Value::Null,
                        json!({"first": 1, "last": 2}),
                    ])
                    .clone();
                set(v, to, "pair")
            }
            _ => {
                let i = s.idx(2);
                spoil(s, &I, &mut v[i])
            }
        },
        Mouse => match s.below(4) {
            0 => {
                let to = s
                    .pick(&[
                        json!([]),
                        json!([1]),
                        json!([1, 2]),
                        json!([1, 2, 3, 4, 5]),
                        json!([1, 2, 3, 4, 5, 6]),
                        json!(1),
                        json!("a"),
                        Value::Null,
                        json!({"line": 1, "column": 2, "flags": 0}),
                    ])
                    .clone();
                set(v, to, "mouse action")
            }
            _ => {
                let n = v.as_array()?.len();
                let i = s.idx(n);
                let old = v.clone();
                let t = spoil(s, &U, &mut v[i]);
                if i == 3 && v[i].is_null() {
                    *v = old;
                    return None;
                }
                t
            }
        },
        K::Delta => {
            let n = v["els"].as_array()?.len();
            match s.below(5) {
                0 => {
                    v.as_object_mut()?.remove("els");
                    Some("delta without els".into())
                }
                1 => {
                    v.as_object_mut()?.remove("base_len");
                    Some("delta without base_len".into())
                }
                2 => {
                    let to = bad_uint(s);
                    set(&mut v["base_len"], to, "base_len")
                }
                _ if n > 0 => {
                    let i = s.idx(n);
                    let to = s
                        .pick(&[
                            json!({}),
                            json!({"copy": [1]}),
                            json!({"copy": 1}),
                            json!({"copy": [0, "a"]}),
                            json!({"copy": [-1, 1]}),
                            json!({"insert": 1}),
                            json!({"insert": null}),
                            json!({"remove": [0, 1]}),
                            json!("insert"),
                            json!(1),
                            json!({"copy": [0, 1, 2]}),
                        ])
                        .clone();
                    set(&mut v["els"][i], to, "element")
                }
                _ => set(v, json!(1), "delta"),
            }
        }
        // anything goes for an error
        K::Error => None,
    }
}

fn refused(s: &mut Src) -> R {
    let all = all();
    let m = pick_schema(s, all);
    let p = m.params.as_ref().map(|k| gen(s, k));
    let (mut wire, _) = wrap(s, m, p);
    let good = wire.to_string();
    let what = match s.weighted(&[8, 1, 1, 1, 2]) {
        1 if m.w != W::Bare => {
            // the name of the message
            let (at, key) = match m.w {
                W::Edit => (&mut wire["params"], "method"),
                W::Plugin => (&mut wire["params"], "command"),
                _ => (&mut wire, "method"),
            };
            let g = misspell(s, m.name);
            if all.iter().any(|m| m.name == g) {
                return Ok(());
            }
            let to = match s.below(4) {
                0 => json!(1),
                1 => Value::Null,
                2 => {
                    at.as_object_mut().unwrap().remove(key);
                    Value::Null
                }
                _ => json!(g),
            };
            if at.get(key).is_some() {
                at[key] = to.clone();
            }
            Some(format!("name {}", to))
        }
        2 if m.w == W::Edit => {
            // the ids
            if s.bool() {
                wire["params"].as_object_mut().unwrap().remove("view_id");
                Some("without view_id".into())
            } else {
                spoil(s, &View, &mut wire["params"]["view_id"])
            }
        }
        2 if m.w == W::FromPlugin => {
            let k = if s.bool() { "view_id" } else { "plugin_id" };
            if s.bool() {
                wire["params"].as_object_mut().unwrap().remove(k);
                Some(format!("without {}", k))
            } else {
                spoil(
                    s,
                    if k == "view_id" { &View } else { &U },
                    &mut wire["params"][k],
                )
            }
        }
        3 if m.params.is_some() && m.w != W::Bare => {
            // parameters which are none
            let to = s
                .pick(&[json!(1), json!("a"), json!(true), json!(1.5)])
                .clone();
            *params_at(m, &mut wire) = to;
            Some("params".into())
        }
        3 if m.w == W::Edit => {
            let to = s.pick(&[json!(1), json!("a"), json!(true)]).clone();
            wire["params"]["params"] = to;
            Some("params".into())
        }
        4 if m.w != W::Bare && m.params.is_some() => {
            // no parameters where there have to be some
            let need = match m.params.as_ref().unwrap() {
                Obj(fs) => fs
                    .iter()
                    .any(|f| !matches!(f.1, Opt(_) | Skip(_) | Def(..))),
                _ => true,
            };
            if !need {
                None
            } else {
                match m.w {
                    W::Edit => {
                        match s.below(3) {
                            0 => wire["params"]["params"] = json!({}),
                            1 => wire["params"]["params"] = json!([]),
                            _ => {
                                wire["params"].as_object_mut().unwrap().remove("params");
                            }
                        };
                        Some("no parameters".into())
                    }
                    _ => {
                        wire.as_object_mut().unwrap().remove("params");
                        Some("no parameters".into())
                    }
                }
            }
        }
        _ => match &m.params {
            Some(k) => spoil(s, k, params_at(m, &mut wire)),
            None => None,
        },
    };
    let what = match what {
        Some(w) => w,
        None => return Ok(()),
    };
    s.nontrivial();
    s.log(|| format!("message {}\nspoilt ({}): {}", good, what, wire));
    match (m.dec)(&wire) {
        Err(e) if e.starts_with("ENCODE") => pbt::fail("encode", format!("{}: {}", wire, e)),
        Err(_) => Ok(()),
        Ok(v) => pbt::fail(
            "accepted",
            format!("{} ({}) was taken for {}", wire, what, v),
        ),
    }
}

fn subtree<'a>(s: &mut Src, v: &'a mut Value) -> &'a mut Value {
    let n = match v {
        Value::Array(a) => a.len(),
        Value::Object(m) => m.len(),
        _ => 0,
    };
    if n == 0 || s.below(4) == 0 {
        return v;
    }
    let i = s.idx(n);
    match v {
        Value::Array(a) => subtree(s, &mut a[i]),
        Value::Object(m) => subtree(s, m.values_mut().nth(i).unwrap()),
        _ => unreachable!(),
    }
}

/// Anything at all is either refused or taken for some message which is then
/// encoded and decoded as that.
fn mutated(s: &mut Src) -> R {
    let all = all();
    let m = pick_schema(s, all);
    let p = m.params.as_ref().map(|k| gen(s, k));
    let (mut wire, _) = wrap(s, m, p);
    for _ in 0..s.range(1, 3) {
        let to = match s.below(3) {
            0 => any(s, 2),
            1 => {
                let o = pick_schema(s, all);
                let p = o.params.as_ref().map(|k| gen(s, k));
                let mut w = wrap(s, o, p).0;
                subtree(s, &mut w).clone()
            }
            _ => subtree(s, &mut wire).clone(),
        };
        let at = subtree(s, &mut wire);
        if s.bool() && at.is_object() {
            let k = match s.below(2) {
                0 => string(s),
                _ => (*s.pick(&[
                    "method",
                    "params",
                    "view_id",
                    "plugin_id",
                    "command",
                    "queries",
                    "delta",
                ]))
                .to_string(),
            };
            at[&k] = to;
        } else {
            *at = to;
        }
    }
    // an error which is none is kept as it is, and can't be sent again
    if wire.to_string().contains("\"Err\"") {
        return Ok(());
    }
    s.log(|| format!("message {}", wire));
    // also as another kind of message
    let m = if s.below(4) == 0 {
        pick_schema(s, all)
    } else {
        m
    };
    match (m.dec)(&wire) {
        Err(e) if e.starts_with("ENCODE") => {
            return pbt::fail("encode", format!("{}: {}", wire, e))
        }
        Err(_) => s.label("refused"),
        Ok(v) => {
            s.nontrivial();
            match (m.dec)(&v) {
                Ok(w) => ensure!(
                    w == v,
                    "again",
                    "{} is taken for {}, which is encoded again as {}",
                    wire,
                    v,
                    w
                ),
                Err(e) => {
                    return pbt::fail(
                        "own-encoding",
                        format!(
                            "{} is not understood, which is how {} is encoded: {}",
                            v, wire, e
                        ),
                    )
                }
            }
        }
    }
    Ok(())
}

/// The fields of what is decoded, and the encoding of what is built.
fn fields(s: &mut Src) -> R {
    use crpc::EditNotification as E;
    s.nontrivial();
    let view = s.range(0, 1 << 40);
    let (a, b) = (int(s), int(s));
    let (x, y, z, w) = (uint(s), uint(s), uint(s), uint(s));
    let (t, u) = (string(s), string(s));
    let (f, g) = (s.bool(), s.bool());
    let (cmd, method, params) = match s.below(12) {
        0 => (
            E::Scroll(crpc::LineRange { first: a, last: b }),
            "scroll",
            json!([a, b]),
        ),
        1 => (
            E::RequestLines(crpc::LineRange { first: a, last: b }),
            "request_lines",
            json!([a, b]),
        ),
        2 => (
            E::Click(crpc::MouseAction {
                line: x,
                column: y,
                flags: z,
                click_count: Some(w),
            }),
            "click",
            json!([x, y, z, w]),
        ),
        3 => (
            E::Drag(crpc::MouseAction {
                line: x,
                column: y,
                flags: z,
                click_count: None,
            }),
            "drag",
            json!([x, y, z]),
        ),
        4 => (
            E::Resize(xi_core_lib::view::Size {
                width: 1.5,
                height: a as i32 as f64,
            }),
            "resize",
            json!({"width": 1.5, "height": a as i32 as f64}),
        ),
        5 => (
            E::Gesture {
                line: x,
                col: y,
                ty: crpc::GestureType::Select {
                    granularity: crpc::SelectionGranularity::Word,
                    multi: f,
                },
            },
            "gesture",
            json!({"line": x, "col": y, "ty": {"select": {"granularity": "word", "multi": f}}}),
        ),
        6 => (
            E::Gesture {
                line: x,
                col: y,
                ty: crpc::GestureType::SelectExtend {
                    granularity: crpc::SelectionGranularity::Line,
                },
            },
            "gesture",
            json!({"line": x, "col": y, "ty": {"select_extend": {"granularity": "line"}}}),
        ),
        7 => (
            E::Insert { chars: t.clone() },
            "insert",
            json!({ "chars": t }),
        ),
        8 => (
            E::Find {
                chars: t.clone(),
                case_sensitive: f,
                regex: g,
                whole_words: !g,
            },
            "find",
            json!({"chars": t, "case_sensitive": f, "regex": g, "whole_words": !g}),
        ),
        9 => (
            E::FindNext {
                wrap_around: f,
                allow_same: g,
                modify_selection: crpc::SelectionModifier::AddRemovingCurrent,
            },
            "find_next",
            json!({"wrap_around": f, "allow_same": g, "modify_selection": "add_removing_current"}),
        ),
        10 => (
            E::RequestHover {
                request_id: x as usize,
                position: Some(crpc::Position {
                    line: y as usize,
                    column: z as usize,
                }),
            },
            "request_hover",
            json!({"request_id": x, "position": {"line": y, "column": z}}),
        ),
        _ => (
            E::MultiFind {
                queries: vec![
                    crpc::FindQuery {
                        id: None,
                        chars: t.clone(),
                        case_sensitive: f,
                        regex: g,
                        whole_words: f,
                    },
                    crpc::FindQuery {
                        id: Some(x as usize),
                        chars: u.clone(),
                        case_sensitive: !f,
                        regex: f,
                        whole_words: g,
                    },
                ],
            },
            "multi_find",
            json!({"queries": [
                {"id": null, "chars": t, "case_sensitive": f, "regex": g, "whole_words": f},
                {"id": x, "chars": u, "case_sensitive": !f, "regex": f, "whole_words": g},
            ]}),
        ),
    };
    let msg = crpc::CoreNotification::Edit(crpc::EditCommand {
        view_id: view.into(),
        cmd,
    });
    let want = json!({"method": "edit", "params": {"method": method, "params": params, "view_id": format!("view-id-{}", view)}});
    s.log(|| format!("{:?}", msg));
    let got: crpc::CoreNotification = serde_json::from_value(want.clone())
        .or_else(|e| pbt::fail("decode", format!("{} is not understood: {}", want, e)))?;
    ensure_eq!(got, msg, "decoded", "{}", want);
    let enc =
        serde_json::to_value(&msg).or_else(|e| pbt::fail("encode", format!("{:?}: {}", msg, e)))?;
    let dec: crpc::CoreNotification = serde_json::from_value(enc.clone())
        .or_else(|e| pbt::fail("own-encoding", format!("{} is not understood: {}", enc, e)))?;
    ensure_eq!(dec, msg, "own-encoding", "{}", enc);
    // from plugins
    let wire = json!({"method": "update_spans", "params": {"view_id": format!("view-id-{}", view), "plugin_id": 3, "start": x, "len": y,
        "spans": [{"start": z, "end": w, "scope_id": 7}], "rev": x ^ y}});
    let c: prpc::PluginCommand<prpc::PluginNotification> = serde_json::from_value(wire.clone())
        .or_else(|e| pbt::fail("decode", format!("{} is not understood: {}", wire, e)))?;
    ensure!(
        c.view_id == view.into(),
        "decoded",
        "{}: view {:?}",
        wire,
        c.view_id
    );
    match c.cmd {
        prpc::PluginNotification::UpdateSpans {
            start,
            len,
            ref spans,
            rev,
        } => {
            ensure!(
                start as u64 == x && len as u64 == y && rev == x ^ y && spans.len() == 1,
                "decoded",
                "{}: {} {} {:?} {}",
                wire,
                start,
                len,
                spans,
                rev
            );
            let p = &spans[0];
            ensure!(
                p.start as u64 == z && p.end as u64 == w && p.scope_id == 7,
                "decoded",
                "{}: {:?}",
                wire,
                p
            );
        }
        _ => return pbt::fail("decoded", format!("{}", wire)),
    }
    let wire = json!({"chunk": t, "offset": x, "first_line": y, "first_line_offset": z});
    let d: prpc::GetDataResponse = serde_json::from_value(wire.clone())
        .or_else(|e| pbt::fail("decode", format!("{} is not understood: {}", wire, e)))?;
    ensure!(
        d.chunk == t
            && d.offset as u64 == x
            && d.first_line as u64 == y
            && d.first_line_offset as u64 == z,
        "decoded",
        "{}: {:?}",
        wire,
        d
    );
    Ok(())
}
