//! Generators of worlds, options and requests.
use crate::dict;
use crate::src::Src;
use crate::world::{Opts, World};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Flavor {
    /// package.json files in plain directories (not only in packages)
    pub pkg_in_dirs: bool,
    pub mains: bool,
    pub exports: bool,
    pub imports: bool,
    pub browser: bool,
    pub symlinks: bool,
    pub modules: bool,
    pub unicode: bool,
    pub side_effects: bool,
    /// exports/imports only with folder and pattern keys
    pub no_literal_keys: bool,
    /// hostile targets and requests
    pub hostile: bool,
    pub queries: bool,
    pub null_targets: bool,
    pub arrays: bool,
    pub folders: bool,
    pub empty_dirs: bool,
    /// node_modules directly inside node_modules
    pub own_modules: bool,
    /// entries that are neither files nor directories, and description files that are links
    pub pipes: bool,
}

impl Default for Flavor {
    fn default() -> Self {
        Flavor {
            pkg_in_dirs: true,
            mains: true,
            exports: false,
            imports: false,
            browser: false,
            symlinks: false,
            modules: true,
            unicode: false,
            side_effects: false,
            no_literal_keys: false,
            hostile: false,
            queries: false,
            null_targets: true,
            arrays: true,
            folders: true,
            empty_dirs: true,
            own_modules: false,
            pipes: true,
        }
    }
}

pub const STEMS: &[&str] = &["a", "b", "index", "main", "lib", "c", "x", "a.b", "a-b"];
pub const USTEMS: &[&str] = &["é", "日本", "ß", "💥a", "aé", "$x", "a b", "ü.a", "x$&", "a+"];
pub const EXTS: &[&str] = &[".js", ".json", "", ".ts", ".mjs", ".node", ".d.ts"];
pub const DIRS: &[&str] = &["lib", "src", "a", "x", "dist", "b", "a.js", "_"];
pub const PKGS: &[&str] = &["foo", "bar", "@s/foo", "@s/bar", "foo-bar", "fo", "baz", "@t/foo"];
pub const UPKGS: &[&str] = &["fóo", "@é/日本", "日本", "@s/ö"];

thread_local! {
    /// what the words above are called in the current case
    static VOCABULARY: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new());
}

const SPECIAL: &[&str] = &["(b)", "[1]", "{b}", "^", "|", ";", "=", ",", "'", "@2", "~", "!", "+", "&", " ", "__", "..", "...", ".", "-", "$", "$1", "%"];

fn random_word(s: &mut Src, n: usize) -> String {
    const L: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
    (0..n).map(|i| L[s.below(if i == 0 { 52 } else { L.len() })] as char).collect()
}

fn other_word(s: &mut Src, w: &str, words: &[&str], path: bool) -> String {
    match s.below(13) {
        0 => w.to_uppercase(),
        12 => match s.below(6) {
            0 => format!("{w}{}", dict::word(s)),
            2 if path => format!("{w}{}", dict::frag(s)),
            3 if path => format!("{w}{}{w}", dict::frag(s)),
            1 => format!("{}{w}", dict::word(s)),
            _ => dict::word(s),
        },
        1 => {
            let mut c = w.chars();
            c.next().map(|x| x.to_uppercase().collect::<String>()).unwrap_or_default() + c.as_str()
        }
        2 if path => format!(".{w}"),
        3 => format!("{w}{w}"),
        4 => format!("{w}{}", s.below(20)),
        5 => {
            let o = s.s(words);
            format!("{}{w}", o.chars().next().unwrap_or('z'))
        }
        6 => {
            let n = s.range(1, 12);
            random_word(s, n)
        }
        7 => {
            let n = match s.below(6) {
                0 => s.range(76, 220),
                1 => dict::int(s, 220),
                _ => s.range(30, 75),
            };
            random_word(s, n)
        }
        8 => {
            let o = s.s(words);
            o.to_uppercase()
        }
        11 if path => match s.below(4) {
            0 => format!("{w}_node_modules"),
            1 => format!("node_modules_{w}"),
            2 => format!("node_modules.{w}"),
            _ => format!("{w} node_modules"),
        },
        9 if path => {
            let x = s.s(SPECIAL);
            if s.chance(1, 4) && !x.starts_with(['~', '@', '!']) {
                format!("{x}{w}")
            } else {
                format!("{w}{x}")
            }
        }
        _ => {
            let o = s.s(words);
            format!("{w}-{o}")
        }
    }
}

/// Chooses what the words are called in the case to come: half of the time as they are listed.
pub fn vocabulary(s: &mut Src) {
    let mut v = HashMap::new();
    if s.chance(1, 2) {
        let some = s.range(2, 5);
        for w in STEMS.iter().chain(DIRS) {
            if *w != "index" && s.chance(1, some) {
                v.insert(w.to_string(), other_word(s, w, STEMS, true));
            }
        }
        let parts: Vec<&str> = PKGS.iter().filter(|p| !p.contains('/')).copied().collect();
        for p in PKGS {
            if s.chance(1, some) {
                let n = match p.split_once('/') {
                    Some((scope, name)) => match s.below(3) {
                        0 => format!("{scope}/{}", other_word(s, name, &parts, false)),
                        1 => format!("@{}/{name}", other_word(s, &scope[1..], &parts, false)),
                        _ => format!("{scope}/{}", s.s(&parts)),
                    },
                    None => other_word(s, p, &parts, false),
                };
                v.insert(p.to_string(), n);
            }
        }
        for c in CONDS {
            if s.chance(1, 2 * some) {
                let mut n = other_word(s, c, CONDS, false);
                if s.chance(1, 4) {
                    n += &s.s(&[".x", "/x", "/", ".", "#", "*", " ", ":"]);
                }
                v.insert(format!("cond {c}"), n);
            }
        }
        if s.chance(1, 3) {
            let d = format!(".{}", dict::word(s));
            v.insert(".mjs".to_string(), if s.chance(1, 5) { d } else { s.s(&[".JS", ".vue", ".x.y", "js", ".jsx", "-ext", ".", ".é"]) });
        }
    }
    VOCABULARY.with(|x| *x.borrow_mut() = v);
}
fn called(w: &'static str) -> String {
    VOCABULARY.with(|v| v.borrow().get(w).cloned().unwrap_or_else(|| w.to_string()))
}
pub fn ext(s: &mut Src) -> String {
    called(*s.pick(EXTS))
}
pub fn cond(s: &mut Src) -> String {
    let c = *s.pick(CONDS);
    cond_called(c)
}
fn cond_called(c: &str) -> String {
    VOCABULARY.with(|v| v.borrow().get(&format!("cond {c}")).cloned().unwrap_or_else(|| c.to_string()))
}

pub fn stem(s: &mut Src, f: &Flavor) -> String {
    if f.unicode && s.chance(1, 2) {
        s.s(USTEMS)
    } else {
        called(*s.pick(STEMS))
    }
}
pub fn fname(s: &mut Src, f: &Flavor) -> String {
    let st = stem(s, f);
    let e = ext(s);
    format!("{st}{e}")
}
pub fn dname(s: &mut Src, f: &Flavor) -> String {
    if f.unicode && s.chance(1, 3) {
        s.s(USTEMS)
    } else {
        called(*s.pick(DIRS))
    }
}
pub fn pname(s: &mut Src, f: &Flavor) -> String {
    if f.unicode && s.chance(1, 2) {
        s.s(UPKGS)
    } else {
        called(*s.pick(PKGS))
    }
}
pub fn j(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.to_string()
    } else {
        format!("{dir}/{name}")
    }
}

pub fn tree(s: &mut Src, w: &mut World, f: &Flavor, dir: &str, depth: usize) {
    let n = s.range(1, 4);
    for _ in 0..n {
        let name = match ext(s) {
            // named by an extension alone
            e if e.len() > 1 && s.chance(1, 30) => e,
            // by two, or twice by the same
            e if s.chance(1, 25) => {
                let st = stem(s, f);
                let e2 = if s.chance(1, 2) { e.clone() } else { ext(s) };
                format!("{st}{e2}{e}")
            }
            e => format!("{}{e}", stem(s, f)),
        };
        if f.pipes && s.chance(1, 25) && !name.ends_with("json") {
            w.pipe(&j(dir, &name));
            continue;
        }
        w.file(&j(dir, &name), "//");
    }
    if depth > 0 {
        let n = s.below(3);
        for _ in 0..n {
            let d = dname(s, f);
            let p = j(dir, &d);
            if w.nodes.contains_key(&p) {
                continue;
            }
            if f.empty_dirs && s.chance(1, 8) {
                w.dir(&p);
                continue;
            }
            tree(s, w, f, &p, depth - 1);
            if f.pkg_in_dirs && s.chance(1, 4) {
                let v = plain_pkg(s, w, f, &p);
                w.file(&j(&p, "package.json"), &v.to_string());
            }
        }
    }
}

/// files below `dir`, relative to it
pub fn files_below(w: &World, dir: &str) -> Vec<String> {
    let pre = if dir.is_empty() { String::new() } else { format!("{dir}/") };
    w.files()
        .into_iter()
        .filter(|p| p.starts_with(&pre) && !p.ends_with("package.json"))
        .map(|p| p[pre.len()..].to_string())
        .collect()
}
pub fn own_files(w: &World, dir: &str) -> Vec<String> {
    files_below(w, dir).into_iter().filter(|p| !has_segment(p, "node_modules")).collect()
}
pub fn has_segment(p: &str, x: &str) -> bool {
    p.split('/').any(|y| y == x)
}
pub fn last_segment(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or("")
}
/// what follows the last node_modules of a path
pub fn below_modules(p: &str) -> Option<&str> {
    let segs: Vec<&str> = p.split('/').collect();
    let i = segs.iter().rposition(|x| *x == "node_modules")?;
    let skip: usize = segs[..=i].iter().map(|x| x.len() + 1).sum();
    p.get(skip..).filter(|x| !x.is_empty())
}

fn strip_ext(s: &str) -> String {
    let cut = s.rfind('/').map(|i| i + 1).unwrap_or(0);
    match s[cut..].rfind('.') {
        Some(i) if i > 0 => s[..cut + i].to_string(),
        _ => s.to_string(),
    }
}

/// now and then the word, slightly misspelt
pub fn near(s: &mut Src, x: String) -> String {
    if !s.chance(1, 40) || dict::is_fixed() {
        return x;
    }
    let head = if x.starts_with("${R}") { 4 } else { 0 };
    let cs: Vec<char> = x.chars().collect();
    if cs.len() <= head {
        return x;
    }
    let at = s.range(head, cs.len() - 1);
    let put = |i: usize, n: usize, y: &str| -> String { cs[..i].iter().collect::<String>() + y + &cs[i + n..].iter().collect::<String>() };
    let c = cs[at];
    match s.below(8) {
        0 if c.is_lowercase() => put(at, 1, &c.to_uppercase().to_string()),
        0 => put(at, 1, &c.to_lowercase().to_string()),
        1 => put(at, 0, &c.to_string()),
        2 => put(at, 1, ""),
        3 if c.is_ascii() => put(at, 1, &format!("%{:02x}", c as u32)),
        4 => format!("{x} "),
        5 => put(head, 0, " "),
        6 => {
            let y = dict::frag(s);
            put(at, 0, &y)
        }
        _ => {
            let y = s.s(&["/", "//", ".", "./", "\\", "*", "?", "@"]);
            put(at, 0, &y)
        }
    }
}

/// some spelling of a path inside `dir`
pub fn some_path(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> String {
    let files = own_files(w, dir);
    if !files.is_empty() && s.chance(4, 5) {
        let p = s.pick(&files).clone();
        match s.below(6) {
            0 | 1 => p,
            2 | 3 => strip_ext(&p),
            4 => match p.rfind('/') {
                Some(i) => p[..i].to_string(),
                None => p,
            },
            _ => {
                let e = ext(s);
                format!("{}{e}", strip_ext(&p))
            }
        }
    } else {
        let d = dname(s, f);
        if s.chance(1, 2) {
            d
        } else {
            let n = fname(s, f);
            format!("{d}/{n}")
        }
    }
}

pub fn main_value(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> Value {
    match plain_main_value(s, w, f, dir) {
        Value::String(x) => json!(near(s, x)),
        v => v,
    }
}
fn plain_main_value(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> Value {
    match s.below(15) {
        14 => json!(s.s(&[".", "./", ".", "./", "", "..", "./.", "../", "./..", "././"])),
        0..=8 => {
            let p = some_path(s, w, f, dir);
            if s.chance(1, 16) {
                // "/a" is looked up below the directory as well
                let o = s.s(&["/", "//", "././", "x/../", "../"]);
                json!(format!("{o}{p}"))
            } else if s.chance(1, 2) {
                json!(format!("./{p}"))
            } else {
                json!(p)
            }
        }
        9 => json!("./missing"),
        10 => json!("missing.js"),
        11 => json!(["./a.js"]),
        12 => json!({"./a.js": "./b.js"}),
        _ => {
            let p = some_path(s, w, f, dir);
            json!(format!("./{p}/"))
        }
    }
}

/// Lists are short as a rule; now and then entries that lead nowhere make one long.
pub fn pad<T>(s: &mut Src, v: &mut Vec<T>, mut make: impl FnMut(&mut Src, usize) -> T) {
    if !s.chance(1, 10) {
        return;
    }
    let n = if s.chance(1, 6) { dict::int(s, 40) } else { s.range(1, 9) };
    for i in 0..n {
        let x = make(s, i);
        // mostly in front
        let at = if s.chance(3, 4) { 0 } else { s.below(v.len() + 1) };
        v.insert(at, x);
    }
}
pub fn pad_map(s: &mut Src, m: Map<String, Value>, make: impl FnMut(&mut Src, usize) -> (String, Value)) -> Map<String, Value> {
    let mut v: Vec<(String, Value)> = m.into_iter().collect();
    pad(s, &mut v, make);
    let mut out = Map::new();
    for (k, x) in v {
        if !out.contains_key(&k) {
            out.insert(k, x);
        }
    }
    out
}

pub const ODD_FIELDS: &[&str] = &["x/main", "x.main", "/main", "main/", "m~1ain", "Main", " main", "é", "main.main", "m/0"];
pub const MAIN_FIELDS: &[&str] = &["main", "module", "browser", "x-main"];

/// a description file without exports / imports / browser maps
pub fn plain_pkg(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> Value {
    let mut m = Map::new();
    if s.chance(1, 2) {
        m.insert("name".into(), json!(s.s(PKGS)));
    }
    if f.mains {
        let n = s.weighted(&[1, 4, 2]);
        for _ in 0..n {
            let k = if s.chance(2, 3) { "main" } else { *s.pick(MAIN_FIELDS) };
            if f.browser && k == "browser" {
                continue;
            }
            let v = main_value(s, w, f, dir);
            m.insert(k.into(), v);
        }
        if s.chance(1, 6) {
            // fields that lead nowhere, whether or not they are asked for
            for i in 0..s.range(1, 9) {
                let v = match s.below(8) {
                    0 => json!(""),
                    1 => Value::Null,
                    2 => json!(i),
                    3 => json!([]),
                    4 => json!({}),
                    5 => json!(true),
                    6 => json!("./missing"),
                    _ => json!(["./a.js"]),
                };
                m.insert(format!("f{i}"), v);
            }
        }
        if s.chance(1, 8) {
            // fields with names like paths
            for k in ODD_FIELDS {
                if s.chance(1, 3) {
                    let v = main_value(s, w, f, dir);
                    m.insert(k.to_string(), v);
                }
            }
            for k in ["x", "main", "m"] {
                if s.chance(1, 2) && !m.contains_key(k) {
                    let v = main_value(s, w, f, dir);
                    m.insert(k.into(), json!({"main": v, "": "./a", "0": "./a"}));
                }
            }
        }
    }
    if f.browser && s.chance(1, 2) {
        let v = if s.chance(1, 16) {
            let p = some_path(s, w, f, dir);
            match s.below(6) {
                0 => json!([format!("./{p}")]),
                1 => json!(true),
                2 => json!(false),
                3 => Value::Null,
                _ => json!(format!("./{p}")),
            }
        } else {
            browser_value(s, w, f, dir)
        };
        m.insert("browser".into(), v);
    }
    if f.side_effects && s.chance(3, 4) {
        m.insert("sideEffects".into(), side_effects_value(s));
    }
    if s.chance(1, 6) {
        // what other programs read
        for (k, v) in [
            ("version", json!("1.2.3")),
            ("private", json!(true)),
            ("type", json!(if s.chance(1, 2) { "module" } else { "commonjs" })),
            ("workspaces", json!(["packages/*"])),
            ("files", json!(["lib"])),
            ("directories", json!({"lib": "lib"})),
            ("types", json!("./index.d.ts")),
            ("bin", json!("./a.js")),
            ("dependencies", json!({"foo": "1", "bar": "file:../bar"})),
        ] {
            if s.chance(1, 3) {
                m.insert(k.into(), v);
            }
        }
    }
    Value::Object(m)
}

pub fn side_effects_value(s: &mut Src) -> Value {
    match s.below(6) {
        0 => json!(true),
        1 => json!(false),
        2 => json!([]),
        3 => json!(["./a.js"]),
        4 => json!(["*.css", "./src/**", "./b.js", "*.css", ""]),
        _ => {
            let n = s.below(4);
            let mut v: Vec<String> = (0..n).map(|_| s.s(&["./a.js", "./b.js", "é", "*", "./x/*.js"])).collect();
            pad(s, &mut v, |s, i| format!("{}{i}", s.s(&["", " ", "./zz", "*"])));
            json!(v)
        }
    }
}

pub fn browser_value(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> Value {
    let n = s.range(1, 4);
    let mut m = Map::new();
    let mut keys: Vec<String> = vec![];
    for _ in 0..n {
        let k = match s.below(6) {
            0..=2 => {
                let p = some_path(s, w, f, dir);
                format!("./{p}")
            }
            3 => {
                let p = some_path(s, w, f, dir);
                p
            }
            4 => pname(s, f),
            _ => {
                let p = pname(s, f);
                let b = fname(s, f);
                format!("{p}/{b}")
            }
        };
        keys.push(near(s, k));
    }
    for k in keys.clone() {
        let v = match s.below(9) {
            0 | 1 => json!(false),
            2..=4 => {
                let p = some_path(s, w, f, dir);
                json!(format!("./{p}"))
            }
            5 => json!(pname(s, f)),
            6 => {
                // chain
                let o = s.pick(&keys).clone();
                if o == k {
                    json!(false)
                } else {
                    json!(o)
                }
            }
            7 => {
                let p = pname(s, f);
                let b = fname(s, f);
                json!(format!("{p}/{b}"))
            }
            _ => {
                let p = some_path(s, w, f, dir);
                json!(p)
            }
        };
        m.insert(k, v);
    }
    Value::Object(pad_map(s, m, |s, i| (format!("./zz{i}"), if s.chance(1, 2) { json!(false) } else { json!("./zz") })))
}

pub const CONDS: &[&str] = &["node", "import", "require", "browser", "development", "a", "production"];

pub fn conds(s: &mut Src) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in CONDS {
        if s.chance(2, 5) {
            v.push(cond_called(c));
        }
    }
    pad(s, &mut v, |_, i| format!("extra{i}"));
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum KeyKind {
    Exact,
    Folder,
    Pattern,
}

fn key_kind(k: &str) -> KeyKind {
    if k.ends_with('/') {
        KeyKind::Folder
    } else if k.ends_with('*') {
        KeyKind::Pattern
    } else {
        KeyKind::Exact
    }
}

/// a spelling that leads from `dir` (about) to something outside of it
fn escape(s: &mut Src, w: &World, dir: &str, kind: KeyKind) -> String {
    let segs: Vec<&str> = dir.split('/').collect();
    let mut out: Vec<String> = vec![".".into()];
    let mut depth = 0;
    for _ in 0..s.below(4) {
        let x = match s.below(5) {
            0 | 1 => String::new(),
            2 => ".".into(),
            _ => {
                depth += 1;
                s.s(&["lib", "a", "...", "..a"])
            }
        };
        out.push(x);
    }
    let up = s.range(1, segs.len() + 1);
    for _ in 0..depth + up {
        if s.chance(1, 8) {
            out.push(s.s(&["", "."]));
        }
        out.push("..".into());
    }
    let at = segs[..segs.len() - up.min(segs.len())].join("/");
    let files = files_below(w, &at);
    let p = if files.is_empty() { "secret.js".to_string() } else { s.pick(&files).clone() };
    let head = out.join("/");
    let folder = p.rfind('/').map(|i| &p[..=i]).unwrap_or("");
    match kind {
        KeyKind::Exact => format!("{head}/{p}"),
        KeyKind::Folder => format!("{head}/{folder}"),
        KeyKind::Pattern => format!("{head}/{folder}*"),
    }
}

fn target_string(s: &mut Src, w: &World, f: &Flavor, dir: &str, kind: KeyKind) -> String {
    let t = plain_target_string(s, w, f, dir, kind);
    let u = near(s, t.clone());
    // the kind of a target has to fit its key
    if u.starts_with("./") && key_kind(&u) == key_kind(&t) {
        u
    } else {
        t
    }
}
fn plain_target_string(s: &mut Src, w: &World, f: &Flavor, dir: &str, kind: KeyKind) -> String {
    if f.hostile && s.chance(1, 4) {
        if !dir.is_empty() && s.chance(2, 3) {
            return escape(s, w, dir, kind);
        }
        return match kind {
            KeyKind::Exact => s.s(&[
                "./../../secret.js", "./lib/../../../secret.js", "./lib//../../../secret.js", "././/../../../secret.js",
                "./a/./../../secret.js", "./..", "./lib/..", "./lib/../a.js", "./node_modules/bar/index.js",
            ]),
            KeyKind::Folder => s.s(&["./../", "./lib/../", "./lib/../../", "././/", "./lib//", "./a/../../", "./"]),
            KeyKind::Pattern => s.s(&["./../*", "./lib/../*", "./lib/../../*", "./*/../*", "././/*", "./*/*", "./*", "./lib//*.js"]),
        };
    }
    match kind {
        KeyKind::Exact => {
            let files = own_files(w, dir);
            if !files.is_empty() && s.chance(5, 6) {
                let mut p = s.pick(&files).clone();
                if s.chance(1, 24) {
                    // a star that stands for itself
                    let cut: Vec<usize> = p.char_indices().map(|x| x.0).filter(|i| *i > p.rfind('/').map_or(0, |x| x + 1)).collect();
                    if !cut.is_empty() {
                        let at = *s.pick(&cut);
                        p.insert(at, '*');
                    }
                }
                format!("./{p}")
            } else {
                let p = some_path(s, w, f, dir);
                format!("./{}", p.trim_end_matches('/'))
            }
        }
        KeyKind::Folder => {
            let mut dirs: Vec<String> = vec!["./".into()];
            for p in own_files(w, dir) {
                if let Some(i) = p.rfind('/') {
                    dirs.push(format!("./{}/", &p[..i]));
                }
            }
            dirs.dedup();
            s.pick(&dirs).clone()
        }
        KeyKind::Pattern => {
            let mut dirs: Vec<String> = vec!["".into()];
            for p in own_files(w, dir) {
                if let Some(i) = p.rfind('/') {
                    dirs.push(format!("{}/", &p[..i]));
                }
            }
            dirs.dedup();
            let d = s.pick(&dirs).clone();
            let tail = s.s(&["*", "*.js", "*", "*/index.js", "*.ts", "*.json", "*/*.js"]);
            // sometimes a literal (no star): every match gives one file
            if s.chance(1, 10) {
                return target_string(s, w, f, dir, KeyKind::Exact);
            }
            if s.chance(1, 8) {
                let st = stem(s, f);
                return format!("./{d}{st}*");
            }
            format!("./{d}{tail}")
        }
    }
}

pub fn target_value(s: &mut Src, w: &World, f: &Flavor, dir: &str, kind: KeyKind, depth: usize, bare: bool) -> Value {
    if depth > 1 && s.chance(1, 24) {
        // conditions below conditions
        let n = s.range(3, 9);
        let mut v = target_value(s, w, f, dir, kind, 0, bare);
        for _ in 0..n {
            let mut m = Map::new();
            if s.chance(1, 2) {
                m.insert("default".into(), v);
            } else {
                m.insert(cond(s), v);
                if s.chance(1, 3) {
                    m.insert("default".into(), target_value(s, w, f, dir, kind, 0, bare));
                }
            }
            v = Value::Object(m);
        }
        return v;
    }
    let ws = [
        8,
        if depth > 0 { 4 } else { 0 },
        if depth > 0 && f.arrays { 2 } else { 0 },
        if f.null_targets { 1 } else { 0 },
    ];
    match s.weighted(&ws) {
        0 => {
            if bare && s.chance(1, 3) {
                let p = pname(s, f);
                return json!(match kind {
                    KeyKind::Exact => {
                        if s.chance(1, 2) {
                            p
                        } else {
                            let n = fname(s, f);
                            format!("{p}/{n}")
                        }
                    }
                    KeyKind::Folder => format!("{p}/"),
                    KeyKind::Pattern => format!("{p}/*"),
                });
            }
            json!(target_string(s, w, f, dir, kind))
        }
        1 => {
            let mut m = Map::new();
            let n = s.range(1, 3);
            for _ in 0..n {
                let c = cond(s);
                let v = target_value(s, w, f, dir, kind, depth - 1, bare);
                m.insert(c, v);
            }
            let mut m = pad_map(s, m, |s, i| (format!("never{i}"), if s.chance(1, 2) { Value::Null } else { json!("./zz.js") }));
            if s.chance(1, 2) {
                let v = target_value(s, w, f, dir, kind, depth - 1, bare);
                m.insert("default".into(), v);
            }
            Value::Object(m)
        }
        2 => {
            let n = s.range(0, 3);
            let mut a = vec![];
            for _ in 0..n {
                let v = target_value(s, w, f, dir, kind, depth - 1, bare);
                if !v.is_array() {
                    a.push(v);
                }
            }
            pad(s, &mut a, |_, i| {
                json!(match kind {
                    KeyKind::Exact => format!("./zz{i}.js"),
                    KeyKind::Folder => format!("./zz{i}/"),
                    KeyKind::Pattern => format!("./zz{i}/*"),
                })
            });
            Value::Array(a)
        }
        _ => Value::Null,
    }
}

pub fn map_key(s: &mut Src, w: &World, f: &Flavor, dir: &str, lead: &str) -> String {
    let k = plain_map_key(s, w, f, dir, lead);
    let u = near(s, k.clone());
    if u.starts_with(lead) && !u.starts_with("#/") && key_kind(&u) == key_kind(&k) && u.matches('*').count() == k.matches('*').count() {
        u
    } else {
        k
    }
}
fn plain_map_key(s: &mut Src, w: &World, f: &Flavor, dir: &str, lead: &str) -> String {
    // lead: "./" or "#"
    let mut pieces: Vec<String> = vec![];
    for p in own_files(w, dir) {
        pieces.push(p);
    }
    let base = if !pieces.is_empty() && s.chance(1, 2) {
        s.pick(&pieces).clone()
    } else {
        let d = s.s(&["lib", "lib/x", "features", "a", "x/a", "l", "lib/a"]);
        if f.unicode && s.chance(1, 2) {
            let u = s.s(USTEMS);
            format!("{d}/{u}")
        } else {
            d
        }
    };
    let base = if s.chance(1, 2) { strip_ext(&base) } else { base };
    let kinds = [if f.no_literal_keys { 0 } else { 4 }, 4, if f.folders { 2 } else { 0 }];
    match s.weighted(&kinds) {
        0 => format!("{lead}{base}"),
        1 => {
            // pattern: cut anywhere
            let cs: Vec<char> = base.chars().collect();
            let cut = s.below(cs.len() + 1);
            let pre: String = cs[..cut].iter().collect();
            if lead == "#" && pre.is_empty() {
                return format!("{lead}{base}/*");
            }
            match s.below(3) {
                0 => format!("{lead}{pre}*"),
                1 => format!("{lead}{base}/*"),
                _ => match base.rfind('/') {
                    Some(i) => format!("{lead}{}/*", &base[..i]),
                    None if lead == "#" => format!("{lead}{base}*"),
                    None => format!("{lead}*"),
                },
            }
        }
        _ => match base.rfind('/') {
            Some(i) => format!("{lead}{}/", &base[..i]),
            None if lead == "#" => format!("{lead}{base}/"),
            None => s.s(&["./", "./lib/", "./a/"]),
        },
    }
}

pub fn exports_value(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> Value {
    let shape = if f.no_literal_keys { 9 } else { s.below(12) };
    match shape {
        0 => json!(target_string(s, w, f, dir, KeyKind::Exact)),
        1 => target_value(s, w, f, dir, KeyKind::Exact, 2, false),
        _ => {
            let mut m = Map::new();
            if !f.no_literal_keys && s.chance(2, 3) {
                let v = target_value(s, w, f, dir, KeyKind::Exact, 2, false);
                m.insert(".".into(), v);
            }
            let n = s.range(1, 5);
            for _ in 0..n {
                let k = map_key(s, w, f, dir, "./");
                let v = target_value(s, w, f, dir, key_kind(&k), 2, false);
                m.insert(k, v);
            }
            Value::Object(pad_map(s, m, |s, i| filler_key(s, f, "./", i)))
        }
    }
}
/// a key that nobody asks for, beside the others
fn filler_key(s: &mut Src, f: &Flavor, lead: &str, i: usize) -> (String, Value) {
    let k = match s.below(3) {
        0 if !f.no_literal_keys => format!("{lead}zz{i}"),
        1 if f.folders => format!("{lead}zz{i}/"),
        _ => format!("{lead}zz{i}/*"),
    };
    let v = match key_kind(&k) {
        KeyKind::Exact => json!("./zz.js"),
        KeyKind::Folder => json!("./zz/"),
        KeyKind::Pattern => json!("./zz/*"),
    };
    (k, v)
}

pub fn imports_value(s: &mut Src, w: &World, f: &Flavor, dir: &str) -> Value {
    let mut m = Map::new();
    let n = s.range(1, 5);
    for _ in 0..n {
        let k = map_key(s, w, f, dir, "#");
        if k == "#" || k.starts_with("#/") {
            continue;
        }
        let v = if s.chance(1, 10) {
            // chain to another imports key (possibly itself)
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() {
                json!("#lib")
            } else {
                json!(s.pick(&keys).clone())
            }
        } else {
            let v = target_value(s, w, f, dir, key_kind(&k), 2, true);
            if s.chance(1, 16) {
                // as the first of several targets, or below a condition
                let keys: Vec<String> = m.keys().cloned().collect();
                let to = if keys.is_empty() { "#lib".to_string() } else { s.pick(&keys).clone() };
                match v {
                    Value::Array(mut a) => {
                        let i = s.below(a.len() + 1);
                        a.insert(i, json!(to));
                        Value::Array(a)
                    }
                    v if s.chance(1, 2) => json!([to, v]),
                    _ => json!({ "default": to }),
                }
            } else {
                v
            }
        };
        m.insert(k, v);
    }
    Value::Object(pad_map(s, m, |s, i| filler_key(s, f, "#", i)))
}

/// one package directory
pub fn package(s: &mut Src, w: &mut World, f: &Flavor, dir: &str, name: &str) {
    tree(s, w, f, dir, 2);
    if s.chance(1, 2) {
        w.file(&j(dir, "index.js"), "//");
    }
    if s.chance(7, 8) {
        let mut v = plain_pkg(s, w, f, dir);
        let m = v.as_object_mut().unwrap();
        match s.below(24) {
            0 => {
                m.remove("name");
            }
            1 => {
                // the folder and the package have different names
                m.insert("name".into(), json!(pname(s, f)));
            }
            _ => {
                m.insert("name".into(), json!(name));
            }
        }
        if f.exports && s.chance(3, 4) {
            let e = exports_value(s, w, f, dir);
            m.insert("exports".into(), e);
        }
        if f.imports && s.chance(1, 2) {
            let e = imports_value(s, w, f, dir);
            m.insert("imports".into(), e);
        }
        w.file(&j(dir, "package.json"), &v.to_string());
    }
}

pub fn node_modules(s: &mut Src, w: &mut World, f: &Flavor, dir: &str, n: usize, nest: usize) {
    let mut nm = j(dir, "node_modules");
    if w.exists(&nm) && !w.is_dir(&nm) {
        return;
    }
    if f.symlinks && !w.exists(&nm) && s.chance(1, 8) {
        // all of it lies elsewhere
        let st = s.s(&["store/nm/node_modules", "store/modules", "lib/modules"]);
        if !w.exists(&st) && w.parent_ok(&st) {
            w.dir(&st);
            w.link(&nm, &format!("${{R}}/{st}"));
            nm = st;
        }
    }
    w.dir(&nm);
    if f.own_modules && s.chance(1, 10) {
        let own = j(&nm, "node_modules");
        for _ in 0..s.range(1, 2) {
            let name = pname(s, f);
            let p = j(&own, &name);
            if !w.exists(&p) {
                package(s, w, f, &p, &name);
            }
        }
    }
    for _ in 0..n {
        let name = pname(s, f);
        let p = j(&nm, &name);
        if w.exists(&p) {
            continue;
        }
        match s.below(10) {
            0 => {
                // single-file module
                let e = ext(s);
                if !name.contains('/') || s.chance(1, 2) {
                    w.file(&format!("{p}{e}"), "//");
                }
            }
            1 => {
                // partial package: a directory that lacks an entry
                w.dir(&p);
                if s.chance(1, 2) {
                    let n = fname(s, f);
                    w.file(&j(&p, &n), "//");
                }
            }
            2 if f.symlinks => {
                // linked package (workspace / pnpm style)
                let store = j("store", &name);
                if !w.exists(&store) {
                    package(s, w, f, &store, &name);
                }
                w.link(&p, &format!("${{R}}/{store}"));
            }
            _ => {
                package(s, w, f, &p, &name);
                if nest > 0 && s.chance(1, 4) {
                    let k = s.range(1, 2);
                    node_modules(s, w, f, &p, k, nest - 1);
                }
            }
        }
    }
}

pub fn links(s: &mut Src, w: &mut World, f: &Flavor) {
    let n = s.range(0, 4);
    for _ in 0..n {
        let dirs: Vec<String> = w.all_dirs().into_iter().filter(|d| last_segment(d) != "node_modules" && last_segment(d) != "@s").collect();
        let d = s.pick(&dirs).clone();
        let name = match s.below(3) {
            0 => fname(s, f),
            1 => dname(s, f),
            _ => "link".to_string(),
        };
        let lp = j(&d, &name);
        let target = match s.below(4) {
            0 => {
                let files = w.files();
                if files.is_empty() {
                    "missing".to_string()
                } else {
                    format!("${{R}}/{}", s.pick(&files))
                }
            }
            1 => format!("${{R}}/{}", s.pick(&dirs)),
            2 => {
                let files = own_files(w, &d);
                if files.is_empty() {
                    "missing".to_string()
                } else {
                    s.pick(&files).clone()
                }
            }
            _ => "missing.js".to_string(),
        };
        // no directory cycles: a directory link never points at an ancestor of itself
        let t = target.replace("${R}/", "").replace("${R}", "");
        if target.starts_with("${R}") && w.is_dir(&t) && (t.is_empty() || lp == t || lp.starts_with(&format!("{t}/"))) {
            continue;
        }
        if w.exists(&lp) || !w.parent_ok(&lp) {
            continue;
        }
        w.link(&lp, &target);
        // (Node remembers the ends of such rows wrongly)
        if !dict::is_fixed() && s.chance(1, 6) {
            // links in a row
            let mut to = lp;
            for _ in 0..s.range(1, 9) {
                let n = fname(s, f);
                let next = j(&d, &n);
                if w.exists(&next) || !w.parent_ok(&next) {
                    continue;
                }
                let t = if s.chance(1, 2) { format!("${{R}}/{to}") } else { last_segment(&to).to_string() };
                w.link(&next, &t);
                to = next;
            }
        }
    }
}

/// description files that are links to files that lie elsewhere
pub fn link_descriptions(s: &mut Src, w: &mut World, desc: &str) {
    let l: Vec<String> = w.files().into_iter().filter(|p| last_segment(p) == desc && !p.starts_with("zz-")).collect();
    if l.is_empty() {
        return;
    }
    for i in 0..s.range(1, 2) {
        let p = s.pick(&l).clone();
        let to = format!("zz-real{i}/{desc}");
        if let Some(crate::world::Node::File(t)) = w.nodes.get(&p).cloned() {
            if w.file(&to, &t) {
                w.nodes.insert(p, crate::world::Node::Link(format!("${{R}}/{to}")));
            }
        }
    }
}

pub fn world(s: &mut Src, f: &Flavor) -> World {
    let mut w = World::default();
    tree(s, &mut w, f, "", 1);
    tree(s, &mut w, f, "src", 2);
    if s.chance(1, 2) {
        tree(s, &mut w, f, "packages/p", 1);
        if s.chance(1, 2) {
            tree(s, &mut w, f, "packages/p/src", 0);
        }
    }
    if f.modules {
        let n = s.range(1, 4);
        node_modules(s, &mut w, f, "", n, 1);
        if s.chance(1, 2) {
            let n = s.range(1, 3);
            node_modules(s, &mut w, f, "src", n, 0);
        }
        if w.exists("packages/p") && s.chance(1, 2) {
            let n = s.range(1, 3);
            node_modules(s, &mut w, f, "packages/p", n, 0);
        }
    }
    for d in ["", "packages/p", "src"] {
        if w.is_dir(d) && s.chance(if d == "src" { 1 } else { 2 }, 4) {
            let mut v = plain_pkg(s, &w, f, d);
            let m = v.as_object_mut().unwrap();
            if f.imports && s.chance(2, 3) {
                let e = imports_value(s, &w, f, d);
                m.insert("imports".into(), e);
            }
            if f.exports && s.chance(1, 3) {
                let n = s.s(&["self", "@s/self", "foo", "sel"]);
                m.insert("name".into(), json!(n));
                let e = exports_value(s, &w, f, d);
                m.insert("exports".into(), e);
            }
            w.file(&j(d, "package.json"), &v.to_string());
        }
    }
    if f.pipes && s.chance(1, 20) {
        // a directory that is called like the description file
        let ds: Vec<String> = w.all_dirs().into_iter().filter(|d| !w.exists(&j(d, "package.json"))).collect();
        if !ds.is_empty() {
            let d = s.pick(&ds).clone();
            w.dir(&j(&d, "package.json"));
        }
    }
    if f.symlinks {
        links(s, &mut w, f);
        if f.pipes && s.chance(1, 5) {
            link_descriptions(s, &mut w, "package.json");
        }
    }
    if s.chance(1, 12) {
        // a base far below everything
        let n = s.range(4, 40);
        let d = gen_deep(s, n);
        if w.parent_ok(&j("src", &d)) {
            w.dir(&j("src", &d));
        }
    }
    w
}
fn gen_deep(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| s.s(&["d", "e", "lib", "a"])).collect::<Vec<_>>().join("/")
}

pub fn bases(s: &mut Src, w: &World, n: usize) -> Vec<String> {
    let dirs: Vec<String> = w
        .all_dirs()
        .into_iter()
        .filter(|d| last_segment(d) != "node_modules" && !last_segment(d).starts_with('@'))
        .collect();
    let pref: Vec<String> = ["", "src", "packages/p"].iter().map(|x| x.to_string()).filter(|d| w.is_dir(d)).collect();
    let mut out = vec![];
    for _ in 0..n {
        if s.chance(1, 2) {
            out.push(s.pick(&pref).clone());
        } else {
            let d = s.pick(&dirs).clone();
            out.push(d);
        }
    }
    out
}

pub fn rel(base: &str, target: &str) -> String {
    let b: Vec<&str> = base.split('/').filter(|x| !x.is_empty()).collect();
    let t: Vec<&str> = target.split('/').filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i < b.len() && i < t.len() && b[i] == t[i] {
        i += 1;
    }
    let mut out: Vec<String> = vec![];
    for _ in i..b.len() {
        out.push("..".into());
    }
    for x in &t[i..] {
        out.push(x.to_string());
    }
    let r = out.join("/");
    if r.starts_with("..") && (r.len() == 2 || r.as_bytes()[2] == b'/') {
        r
    } else if r.is_empty() {
        ".".into()
    } else {
        format!("./{r}")
    }
}

pub fn dots(s: &mut Src, r: &str) -> String {
    match s.below(12) {
        0 => format!("{r}/"),
        1 => match r.find('/') {
            Some(i) => format!("{}/.{}", &r[..i], &r[i..]),
            None => r.to_string(),
        },
        2 => match r.find('/') {
            Some(i) => format!("{}/zz/..{}", &r[..i], &r[i..]),
            None => r.to_string(),
        },
        3 => match r.rfind('/') {
            Some(i) => format!("{}/{}", &r[..i], &r[i..]),
            None => r.to_string(),
        },
        4 => format!("{r}/."),
        5 => format!("{r}/x/.."),
        _ => r.to_string(),
    }
}

/// a path-style request near something that exists
pub fn path_request(s: &mut Src, w: &World, f: &Flavor, base: &str) -> String {
    let all: Vec<String> = w.nodes.keys().filter(|k| !k.ends_with("package.json")).cloned().collect();
    let dirs = w.all_dirs();
    let t = match s.below(10) {
        0..=5 if !all.is_empty() => s.pick(&all).clone(),
        6 | 7 => s.pick(&dirs).clone(),
        8 => some_path(s, w, f, base),
        _ => {
            let n = fname(s, f);
            j(base, &n)
        }
    };
    let t = match s.below(4) {
        0 | 1 => strip_ext(&t),
        2 => t,
        _ => match s.below(3) {
            0 => {
                let e = ext(s);
                format!("{}{e}", strip_ext(&t))
            }
            _ => t,
        },
    };
    let r = if s.chance(1, 6) { format!("${{R}}/{t}") } else { rel(base, &t) };
    if s.chance(1, 3) {
        dots(s, &r)
    } else {
        r
    }
}

/// directories that look like packages visible from anywhere: (name, dir)
pub fn packages(w: &World) -> Vec<(String, String)> {
    let mut v = vec![];
    for (k, n) in &w.nodes {
        // a node_modules that lies elsewhere
        if let crate::world::Node::Link(t) = n {
            if last_segment(k) == "node_modules" {
                let t = t.replace("${R}/", "");
                for d in w.all_dirs() {
                    if let Some(name) = d.strip_prefix(&format!("{t}/")) {
                        if name.split('/').count() == if name.starts_with('@') { 2 } else { 1 } {
                            v.push((name.to_string(), d.clone()));
                        }
                    }
                }
            }
        }
    }
    for d in w.all_dirs().into_iter().chain(w.nodes.iter().filter(|(_, n)| matches!(n, crate::world::Node::Link(_))).map(|(k, _)| k.clone())) {
        if let Some(name) = below_modules(&d) {
            let segs = name.split('/').count();
            if (name.starts_with('@') && segs == 2) || (!name.starts_with('@') && segs == 1) {
                v.push((name.to_string(), d.clone()));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn pkg_json_of(w: &World, dir: &str) -> Option<Value> {
    match w.nodes.get(&j(dir, "package.json")) {
        Some(crate::world::Node::File(c)) => serde_json::from_str(c).ok(),
        _ => None,
    }
}

/// a subpath ("" or "/x") that has something to do with the keys of `map`
pub fn subpath_from_map(s: &mut Src, w: &World, f: &Flavor, dir: &str, map: &Value, lead: &str) -> String {
    let keys: Vec<String> = map.as_object().map(|m| m.keys().filter(|k| k.starts_with(lead.trim_end_matches('/'))).cloned().collect()).unwrap_or_default();
    if keys.is_empty() {
        return if s.chance(1, 2) { lead.trim_end_matches('/').to_string() } else { format!("{lead}{}", some_path(s, w, f, dir)) };
    }
    let k = s.pick(&keys).clone();
    let fill = |s: &mut Src, pre: &str| -> String {
        match s.below(8) {
            0..=2 => {
                let files = own_files(w, dir);
                if files.is_empty() {
                    return format!("{pre}a");
                }
                let p = s.pick(&files).clone();
                let p = match s.below(4) {
                    0 => p,
                    1 => strip_ext(&p),
                    2 => p.rsplit('/').next().unwrap().to_string(),
                    _ => strip_ext(p.rsplit('/').next().unwrap()),
                };
                format!("{pre}{p}")
            }
            3 => {
                // the remainder that makes the first target exist
                let files = own_files(w, dir);
                if files.is_empty() {
                    return format!("{pre}b");
                }
                let p = s.pick(&files).clone();
                let key_tail = pre.trim_start_matches("./").trim_start_matches('#');
                match p.strip_prefix(key_tail) {
                    Some(r) if !r.is_empty() => format!("{pre}{r}"),
                    _ => format!("{pre}{}", p.rsplit('/').next().unwrap()),
                }
            }
            4 => {
                let n = fname(s, f);
                format!("{pre}{n}")
            }
            5 => {
                let d = dname(s, f);
                let n = fname(s, f);
                format!("{pre}{d}/{n}")
            }
            6 => {
                let n = stem(s, f);
                format!("{pre}{n}")
            }
            _ => {
                if f.hostile && !dir.is_empty() && s.chance(1, 2) {
                    let t = escape(s, w, dir, KeyKind::Exact);
                    let t = if s.chance(1, 2) { &t[2..] } else { &t };
                    format!("{pre}{t}")
                } else if f.hostile {
                    let t = s.s(&[
                        "../../secret.js", "../secret.js", "/../../secret.js", "x/../../../secret.js", "//../../../secret.js",
                        "./../secret.js", "a/..//../../secret.js", ".//.//../../secret.js", "..", "../private.js", "../../bar/index.js",
                        "x/..", "./a.js", "/a.js", "..foo/../../../secret.js", "...//../../../secret.js", "lib/../private.js",
                    ]);
                    format!("{pre}{t}")
                } else {
                    format!("{pre}a")
                }
            }
        }
    };
    match key_kind(&k) {
        KeyKind::Exact => match s.below(8) {
            0 => {
                let e = ext(s);
                format!("{k}{e}")
            }
            1 => strip_ext(&k),
            2 => format!("{k}/a.js"),
            _ => k,
        },
        KeyKind::Folder => fill(s, &k),
        KeyKind::Pattern => fill(s, &k[..k.len() - 1]),
    }
}

pub fn bare_request(s: &mut Src, w: &World, f: &Flavor) -> String {
    let pk = packages(w);
    if pk.is_empty() || s.chance(1, 10) {
        let n = pname(s, f);
        if s.chance(1, 2) {
            return n;
        }
        let p = fname(s, f);
        return format!("{n}/{p}");
    }
    let (name, dir) = s.pick(&pk).clone();
    let ex = pkg_json_of(w, &dir).and_then(|v| v.get("exports").cloned());
    let r = if let (Some(ex), true) = (&ex, s.chance(5, 6)) {
        let sp = subpath_from_map(s, w, f, &dir, ex, "./");
        format!("{name}{}", &sp[1..])
    } else {
        match s.below(8) {
            0..=2 => name.clone(),
            3..=6 => {
                let p = some_path(s, w, f, &dir);
                format!("{name}/{p}")
            }
            _ => format!("{name}/"),
        }
    };
    if f.hostile && s.chance(1, 8) {
        match s.below(5) {
            0 => r.replacen('/', "//", 1),
            1 => format!("{r}/"),
            2 => format!("{name}/./{}", r.get(name.len() + 1..).unwrap_or("a.js")),
            3 => format!("{name}/lib/../{}", r.get(name.len() + 1..).unwrap_or("a.js")),
            _ => format!("{name}/node_modules/../private.js"),
        }
    } else if has_segment(&r, "node_modules") || s.chance(9, 10) {
        r
    } else {
        dots(s, &r)
    }
}

pub fn self_request(s: &mut Src, w: &World, f: &Flavor, base: &str) -> Option<String> {
    let mut d = base.to_string();
    loop {
        if let Some(v) = pkg_json_of(w, &d) {
            let n = v.get("name")?.as_str()?.to_string();
            let ex = v.get("exports")?;
            let sp = subpath_from_map(s, w, f, &d, ex, "./");
            return Some(format!("{n}{}", &sp[1..]));
        }
        match d.rfind('/') {
            Some(i) => d.truncate(i),
            None if d.is_empty() => return None,
            None => d.clear(),
        }
    }
}

pub fn imports_request(s: &mut Src, w: &World, f: &Flavor, base: &str) -> String {
    let mut d = base.to_string();
    loop {
        if let Some(v) = pkg_json_of(w, &d) {
            if let Some(im) = v.get("imports") {
                let r = subpath_from_map(s, w, f, &d, im, "#");
                if r.len() > 1 {
                    if s.chance(1, 16) {
                        let x = s.s(&["/", "/", "/.", "/..", "//"]);
                        return format!("{r}{x}");
                    }
                    return r;
                }
            }
            break;
        }
        match d.rfind('/') {
            Some(i) => d.truncate(i),
            None if d.is_empty() => break,
            None => d.clear(),
        }
    }
    let n = stem(s, f);
    format!("#{n}")
}

pub fn query(s: &mut Src) -> String {
    s.s(&["?q", "?", "?a=b&c", "?x?y", "?é", "?a.js", "? ", "?!#"]).replace("#", "")
}
pub fn fragment(s: &mut Src) -> String {
    s.s(&["#f", "#", "#a?b", "##", "#é", "#a#b", "#/x"])
}

pub fn request(s: &mut Src, w: &World, f: &Flavor, base: &str) -> String {
    let ws = [
        5,
        if f.modules { 6 } else { 0 },
        if f.imports { 4 } else { 0 },
        if f.exports { 1 } else { 0 },
    ];
    let r = match s.weighted(&ws) {
        0 => path_request(s, w, f, base),
        1 => bare_request(s, w, f),
        2 => imports_request(s, w, f, base),
        _ => self_request(s, w, f, base).unwrap_or_else(|| bare_request(s, w, f)),
    };
    let r = near(s, r);
    if f.queries && s.chance(1, 4) {
        let q = if s.chance(2, 3) { query(s) } else { String::new() };
        let fr = if s.chance(1, 3) { fragment(s) } else { String::new() };
        return format!("{r}{q}{fr}");
    }
    r
}

pub fn extensions(s: &mut Src) -> Vec<String> {
    let l: &[&[&'static str]] = &[
        &[".js", ".json", ".node"],
        &[".ts", ".js"],
        &[".js", ".ts", ".json"],
        &[".json", ".js"],
        &[".mjs", ".d.ts", ".ts"],
        &["", ".js"],
        &[".js", ""],
        &[],
        &[".ts", "", ".js", ".json"],
        &[".node"],
        &[".b", ".js", ".ts"],
    ];
    let mut v: Vec<String> = s.pick(l).iter().map(|x| called(*x)).collect();
    pad(s, &mut v, |_, i| format!(".x{i}"));
    v
}

pub fn main_files(s: &mut Src) -> Vec<String> {
    let l: &[&[&'static str]] = &[&["index"], &["index", "main"], &["main", "index"], &["a", "index"], &[], &["b", "a"], &["index.js"], &["lib"]];
    let mut v: Vec<String> = s.pick(l).iter().map(|x| called(*x)).collect();
    pad(s, &mut v, |_, i| format!("mf{i}"));
    v
}
pub fn main_fields(s: &mut Src) -> Vec<String> {
    let l: &[&[&str]] = &[
        &["main"],
        &["module", "main"],
        &["main", "module"],
        &["browser", "module", "main"],
        &["x-main", "main", "module", "browser"],
        &[],
        &["module"],
    ];
    let mut v: Vec<String> = s.pick(l).iter().map(|x| x.to_string()).collect();
    pad(s, &mut v, |_, i| format!("f{i}"));
    if s.chance(1, 8) {
        for _ in 0..s.range(1, 4) {
            let k = s.s(ODD_FIELDS);
            let at = s.below(v.len() + 1);
            v.insert(at, k);
        }
    }
    v
}

pub fn opts_paths(s: &mut Src, o: &mut Opts) {
    if s.chance(2, 3) {
        o.ext = extensions(s);
    }
    if s.chance(1, 4) {
        o.enforce = Some(s.chance(1, 2));
    }
    if s.chance(1, 2) {
        o.main_files = main_files(s);
    }
    if s.chance(1, 2) {
        o.main_fields = main_fields(s);
    }
}
/// options under which exports / imports are in the domain
pub fn opts_maps(s: &mut Src, o: &mut Opts) {
    if s.chance(1, 2) {
        o.ext = extensions(s).into_iter().filter(|e| !e.is_empty()).collect();
    }
    if s.chance(1, 4) {
        o.enforce = Some(false);
    }
    o.conds = conds(s);
}

pub fn alias(s: &mut Src, w: &World, f: &Flavor) -> Vec<(String, Option<String>)> {
    let n = s.range(1, 5);
    let mut v = vec![];
    for _ in 0..n {
        let k = alias_key(s, w, f);
        let t = match s.below(9) {
            0 => None,
            1 | 2 => {
                let p = some_path(s, w, f, "");
                Some(format!("${{R}}/{p}"))
            }
            3 => {
                let p = some_path(s, w, f, "src");
                Some(format!("./{p}"))
            }
            4 => Some(pname(s, f)),
            5 => {
                let p = pname(s, f);
                let n = dname(s, f);
                Some(format!("{p}/{n}"))
            }
            6 => Some(alias_key(s, w, f)),
            7 => Some("./missing".into()),
            _ => Some(s.s(&["${R}/src", "${R}/", "${R}/src/", "${R}", "./", "../"])),
        };
        v.push((k, t));
    }
    pad(s, &mut v, |_, i| (format!("zz{i}"), None));
    v
}
pub fn alias_key(s: &mut Src, w: &World, f: &Flavor) -> String {
    let k = plain_alias_key(s, w, f);
    if s.chance(1, 12) {
        let x = dict::frag(s);
        format!("{k}{}", s.s(&["$", "*", "/*", "$", ".", "~", "^", "+", "-", &x, &x]))
    } else {
        k
    }
}
fn plain_alias_key(s: &mut Src, w: &World, f: &Flavor) -> String {
    match s.below(8) {
        0 => "@".into(),
        1 | 2 => pname(s, f),
        3 => {
            let p = some_path(s, w, f, "src");
            format!("./{p}")
        }
        4 => "@/".into(),
        5 => s.s(&["#a", "#lib", "~", "alias", "al/ias", "~/"]),
        6 if s.chance(1, 2) => dname(s, f),
        6 => {
            let p = pname(s, f);
            let n = fname(s, f);
            format!("{p}/{n}")
        }
        _ => {
            let p = some_path(s, w, f, "");
            format!("${{R}}/{p}")
        }
    }
}
pub fn alias_request(s: &mut Src, w: &World, f: &Flavor, al: &[(String, Option<String>)]) -> String {
    let r = plain_alias_request(s, w, f, al);
    near(s, r)
}
fn plain_alias_request(s: &mut Src, w: &World, f: &Flavor, al: &[(String, Option<String>)]) -> String {
    let (k, t) = s.pick(al).clone();
    match s.below(6) {
        0 => k,
        1..=3 => {
            // a subpath that exists below the target, if the target is a path
            let dir = t.as_deref().and_then(|t| t.strip_prefix("${R}")).map(|d| d.trim_matches('/').to_string()).unwrap_or_else(|| "src".into());
            let sub = if w.is_dir(&dir) { some_path(s, w, f, &dir) } else { some_path(s, w, f, "src") };
            if s.chance(1, 5) {
                // the key once more
                let b = s.s(&["/", "/x/", "/lib/", ""]);
                let e = s.s(&["", "/x", "/a.js", ".js"]);
                return format!("{k}{b}{k}{e}");
            }
            if k.ends_with('/') {
                format!("{k}{sub}")
            } else {
                format!("{k}/{sub}")
            }
        }
        4 => {
            let n = fname(s, f);
            format!("{}/{n}", k.trim_end_matches('/'))
        }
        _ => k.trim_end_matches('/').to_string(),
    }
}
