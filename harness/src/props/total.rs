//! Totality (C16): whatever the request, the tree and the files' contents, every call returns.
use super::mixed::{self, class_of, Knobs};
use super::*;
use crate::dict;
use crate::gen;
use crate::world::{subst, Node, Opts, World};
use serde_json::{json, Map, Value};
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;

const WORDS: &[&str] = &[
    "", ".", "..", "./", "../", "/", "//", "./.", "./..", "*", "./*", "#", "#/", "#a", "#a/", "#a/*", "?", "@", "@/", "@s", "@s/", "a", "./a", "./a/", "./a.js", "foo",
    "foo/", "foo/a", "./index", "index", "index.js", "./lib", "default", "node", "node_modules", "./node_modules/foo", "../a", "../../a", "a/../a", "${R}", "${R}/a", "${R}/src/a.js",
    "\u{0}", "a\u{0}b", "é", "日", "💥", "\u{feff}", "\u{200d}", "a b", "$&", "$1", "%2e", "\\", "a\\b", "C:", "C:\\", "c:/a", "./a?b", "./a#b", "package.json", "./package.json", "true", "0", "__proto__",
    ".é", ".日", "..é", ".💥", "./é", "./日", "#日", "@é", "@日/é", "é/", "é.", "日.js", "a.é", "a.", ".a", "...", "....", ".\u{0}", "é日", "./a日/é*", "\u{202e}", "ß", "İ", "./é*", "#é", "*é*", "**", "./*/*", "./a*/", "a*b", "@é/日",
];

fn word(s: &mut Src) -> String {
    match s.below(9) {
        // between or behind other things
        2 => match s.below(4) {
            0 => format!("{}{}", s.s(WORDS), dict::raw(s)),
            1 => format!("{}{}", dict::raw(s), s.s(WORDS)),
            2 => {
                let n = s.range(1, 6);
                let r: String = (0..n).map(|_| char::from_u32([0x61, 0xe9, 0x65e5, 0x1f4a5][s.below(4)] + s.below(8) as u32).unwrap_or('x')).collect();
                format!("{r}{}", dict::raw(s))
            }
            _ => dict::raw(s),
        },
        0 => {
            let n = s.range(1, 4);
            (0..n).map(|_| s.s(WORDS)).collect::<Vec<_>>().join("/")
        }
        1 => {
            let n = s.range(1, 3);
            (0..n).map(|_| s.s(WORDS)).collect::<String>()
        }
        _ => s.s(WORDS),
    }
}

fn value(s: &mut Src, depth: usize) -> Value {
    match s.below(if depth == 0 { 9 } else { 14 }) {
        0 => Value::Null,
        1 => json!(s.chance(1, 2)),
        2 => json!([0, -1, 1, 9007199254740993i64][s.below(4)]),
        3 => json!(1e308),
        4..=8 => json!(word(s)),
        9 | 10 => Value::Array((0..s.below(4)).map(|_| value(s, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..s.below(4) {
                let k = key(s);
                let v = value(s, depth - 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}
fn key(s: &mut Src) -> String {
    if s.chance(1, 3) {
        s.s(&["default", "node", "import", "require", "browser", ".", "./", "./a", "./*", "./a/", "#a", "#*", "#/", "", "foo", "foo/a"])
    } else {
        word(s)
    }
}
const FIELDS: &[&str] = &["main", "module", "browser", "exports", "imports", "name", "sideEffects", "version", "type", "x-main", "extends", "compilerOptions"];

/// a description file with hostile fields
fn hostile_doc(s: &mut Src) -> Value {
    match s.below(10) {
        0 => value(s, 3),
        _ => {
            let mut m = Map::new();
            for _ in 0..s.range(1, 4) {
                let k = s.s(FIELDS);
                let v = match k.as_str() {
                    "exports" | "imports" | "browser" if s.chance(3, 4) => {
                        let mut o = Map::new();
                        for _ in 0..s.range(1, 4) {
                            let kk = match k.as_str() {
                                "exports" if s.chance(2, 3) => s.s(&[".", "./a", "./*", "./a/*", "./a/", "./lib/*.js", "./é/*", "./", "./a*b"]),
                                "imports" if s.chance(2, 3) => s.s(&["#a", "#b", "#c", "#*", "#a/*", "#a/", "#é*", "#"]),
                                "browser" if s.chance(2, 3) => s.s(&["./a", "./a.js", "./b.js", "foo", "a", "b", ".", "./index.js", "foo/a"]),
                                _ => key(s),
                            };
                            let vv = match s.below(4) {
                                0 => json!(s.s(&[".é", ".日", "日", "é", "./é", "..日", ".💥*", "#a", "#b", "#c", "#a/x", "foo", "p", "./a", "./a.js", "./b.js", "a", "b", "./*", "#*", "foo/*", "./index.js", "."])),
                                1 => json!([value(s, 1), value(s, 1)]),
                                _ => value(s, 3),
                            };
                            o.insert(kk, vv);
                        }
                        Value::Object(o)
                    }
                    _ => value(s, 3),
                };
                m.insert(k, v);
            }
            if s.chance(1, 3) {
                m.insert("name".into(), json!(s.s(&["p", "foo", "@s/foo", "", "é", "@", "/"])));
            }
            Value::Object(m)
        }
    }
}

/// replace one value somewhere inside
fn mutate(s: &mut Src, v: &mut Value, depth: usize) {
    match v {
        Value::Object(m) if !m.is_empty() && !s.chance(1, 5) && depth < 6 => {
            let i = s.below(m.len());
            let k = m.keys().nth(i).unwrap().clone();
            if s.chance(1, 5) {
                let x = m.shift_remove(&k).unwrap();
                let k2 = key(s);
                m.insert(k2, x);
            } else {
                mutate(s, m.get_mut(&k).unwrap(), depth + 1);
            }
        }
        Value::Array(a) if !a.is_empty() && !s.chance(1, 5) => {
            let i = s.below(a.len());
            mutate(s, &mut a[i], depth + 1);
        }
        v => *v = value(s, 3),
    }
}
fn mutate_text(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 3) {
        let i = s.below(c.len().max(1));
        match s.below(5) {
            0 if !c.is_empty() => {
                c.truncate(i);
            }
            1 if i < c.len() => {
                c.remove(i);
            }
            2 => c.insert(i.min(c.len()), *s.pick(&['"', '{', '}', '[', ',', ':', '\\', '\u{0}', 'é', '*', '/', '\u{feff}', '-'])),
            3 if i < c.len() => {
                let x = c[i];
                c.insert(i, x);
            }
            _ => c.insert(0, *s.pick(&['\u{feff}', ' ', '[', '/'])),
        }
    }
    c.into_iter().collect()
}
/// brackets `depth` deep; expanded when the case runs so that replay files stay small
fn deep(s: &mut Src) -> String {
    let d = [100, 126, 128, 1_000, 20_000, 200_000][s.below(6)];
    s.s(&["deep:[:", "deep:{:", "deep:x:", "deep:t:"]) + &d.to_string()
}
fn expand(t: &str) -> Option<String> {
    let r = t.strip_prefix("deep:")?;
    let (k, n) = r.split_once(':')?;
    let n: usize = n.parse().ok()?;
    Some(match k {
        "[" => "[".repeat(n) + &"]".repeat(n),
        "{" => "{\"a\":".repeat(n) + "1" + &"}".repeat(n),
        "x" => format!("{{\"exports\":{}\"./a\"{}}}", "{\"node\":".repeat(n), "}".repeat(n)),
        "t" => format!("{{\"compilerOptions\":{{\"baseUrl\":\".\",\"paths\":{}1{}}}}}", "[".repeat(n), "]".repeat(n)),
        _ => return None,
    })
}

fn content(s: &mut Src, old: Option<&str>) -> String {
    let old_json = old.and_then(|t| serde_json::from_str::<Value>(t).ok());
    match s.below(20) {
        0 => s.s(&["", " ", "{", "}", "[]", "null", "0", "\"\"", "\"./a\"", "true", "{}x", "{}{}", "\u{feff}{}", "//", "/*", "{\"a\":1,}", "\u{0}", "{\"main\":\"\\ud800\"}"]),
        1 => s.s(&["hex:fffe7b007d00", "hex:80", "hex:7b226d61696e223a22ff227d", "hex:c3"]),
        2 => deep(s),
        3 | 4 => {
            let v = old_json.unwrap_or_else(|| hostile_doc(s));
            mutate_text(s, &v.to_string())
        }
        5..=12 if old_json.is_some() => {
            let mut v = old_json.unwrap();
            for _ in 0..s.range(1, 3) {
                mutate(s, &mut v, 0);
            }
            v.to_string()
        }
        _ => hostile_doc(s).to_string(),
    }
}

fn request(s: &mut Src, m: &mixed::Mix, base: &str) -> String {
    match s.below(14) {
        0..=3 => m.request(s, base),
        4 => {
            let r = m.request(s, base);
            mutate_text(s, &r)
        }
        5..=8 => {
            let p = s.s(&["", "", "./", "../", "foo/", "p/", "#", "${R}/", "@s/", "/"]);
            format!("{p}{}", word(s))
        }
        9 => s.s(&["#a", "#b", "#c", "#a/x", "#é", "#/", "foo", "p", "p/a", "@s/foo", "@s/foo/a", ".", "..", "", "./", "a", "b", "./a", "./b.js", "@", "@s", "@s/"]),
        10 => {
            // long ones, expanded when the case runs
            let simple = m.o.alias.is_empty() && m.o.tsconfig.is_none() && !m.o.browser;
            let n = [200, 5_000, 60_000][if simple { s.weighted(&[12, 4, 1]) } else { 0 }];
            let u = s.s(&["../", "./", "a/", "/", "a", "é", "@", "#", "?", "..", "node_modules/", "foo/", "*", "a/../", "\u{0}", "x.js/"]);
            let (a, z) = (s.s(&["", "./", "#", "foo/", "@s/", "/"]), s.s(&["", "a", "/", ".js"]));
            format!("long:{n}:{a}:{u}:{z}")
        }
        11 => {
            let n = s.range(1, 12);
            let hi = if s.chance(1, 2) { 0x80 } else { 0x11_0000 };
            (0..n).filter_map(|_| char::from_u32(s.below(hi) as u32)).collect()
        }
        _ => gen::request(s, &m.w, &m.f, base),
    }
}
fn long(r: &str) -> Option<String> {
    let r = r.strip_prefix("long:")?;
    let p: Vec<&str> = r.splitn(4, ':').collect();
    let n: usize = p.first()?.parse().ok()?;
    Some(format!("{}{}{}", p.get(1)?, p.get(2)?.repeat(n), p.get(3)?))
}
fn base(s: &mut Src, w: &World, plain: bool) -> String {
    match s.below(12) {
        0 => s.s(&["abs:", "abs:/", "abs:.", "abs:..", "abs:x", "abs:./x/y", "abs://", "abs:/nonexistent/a/b", "abs:\u{0}", "abs:/dev/null", "abs:é"]),
        1 => s.s(&["nowhere", "nowhere/a/b", "src/../src", "./src/.", "src/", "node_modules", "node_modules/foo", "node_modules/@s", "..", "../..", "src//lib", "a\u{0}b"]),
        2 => w.files().first().cloned().unwrap_or_default(),
        3 => {
            let f = w.files();
            if f.is_empty() { String::new() } else { gen::j(&s.pick(&f).clone(), "x") }
        }
        4 => format!("long:{}::{}:x", [100, if plain { 2_000 } else { 100 }, if plain { 20_000 } else { 100 }][s.weighted(&[4, 4, 1])], s.s(&["a/", "../", "node_modules/", "./"])),
        _ => s.pick(&w.all_dirs()).clone(),
    }
}

fn gen_c16(s: &mut Src) -> Case {
    let mut m = mixed::mixed(s, &Knobs { hostile: true, ..Default::default() });
    let desc = m.o.desc.clone().unwrap_or_else(|| "package.json".into());
    // hostile contents
    let mut places: Vec<String> = m.w.files().into_iter().filter(|f| f.ends_with(&desc)).collect();
    for d in ["", "src", "node_modules/foo", "node_modules/p", "node_modules/@s", "node_modules/@s/foo", "node_modules", "a", "lib"] {
        if s.chance(1, 4) {
            places.push(gen::j(d, &desc));
        }
    }
    let rate = s.range(1, 4);
    for p in places {
        if !s.chance(rate, 4) {
            continue;
        }
        let old = match m.w.nodes.get(&p) {
            Some(Node::File(t)) => Some(t.clone()),
            _ => None,
        };
        let t = content(s, old.as_deref());
        m.w.file(&p, &t);
    }
    // tsconfig
    if s.chance(1, 3) {
        let name = s.s(&["tsconfig.json", "src/tsconfig.json", "t"]);
        let mut names = vec![name.clone(), "base.json".to_string(), "node_modules/foo/tsconfig.json".to_string()];
        names.truncate(s.range(1, 3));
        for n in names {
            let v = match s.below(5) {
                0 => content(s, None),
                1 => {
                    let ext = s.s(&["./tsconfig.json", "./tsconfig", "./base.json", "foo/tsconfig.json", "../base.json", ".", "..", "", "foo", "#a", "/", "./src", "${R}/base.json", "é"]);
                    json!({"extends": ext, "compilerOptions": {"baseUrl": word(s), "paths": {key(s): [word(s)]}}}).to_string()
                }
                2 => json!({"extends": value(s, 2), "compilerOptions": value(s, 3)}).to_string(),
                _ => {
                    let mut paths = Map::new();
                    for _ in 0..s.range(1, 4) {
                        let k = key(s);
                        let v = if s.chance(3, 4) { Value::Array((0..s.below(3)).map(|_| json!(word(s))).collect()) } else { value(s, 2) };
                        paths.insert(k, v);
                    }
                    json!({"compilerOptions": {"baseUrl": if s.chance(2, 3) { json!(".") } else { value(s, 2) }, "paths": paths}}).to_string()
                }
            };
            let v = if s.chance(1, 8) { mutate_text(s, &v) } else { v };
            m.w.file(&n, &v);
        }
        m.o.tsconfig = Some(if s.chance(1, 8) { s.s(&["", ".", "src", "nope.json", "/", "/nope", "..", "a\u{0}"]) } else { name });
    }
    // options
    if s.chance(1, 3) {
        match s.below(7) {
            0 => m.o.ext = (0..s.below(5)).map(|_| s.s(&["", ".", "/", "..", "/..", ".js", ".js/", "\u{0}", "é", "?", "*", "x", "/index.js"])).collect(),
            1 => m.o.main_files = (0..s.below(4)).map(|_| s.s(&["", ".", "..", "/", "a/b", "index", "\u{0}", "./index", "é", "#a", "foo", "../src"])).collect(),
            2 => m.o.main_fields = (0..s.below(5)).map(|_| s.s(&["", ".", "main", "browser", "exports", "name", "sideEffects", "é", "imports"])).collect(),
            3 => m.o.desc = if s.chance(1, 3) { None } else { Some(s.s(&["", ".", "..", "/", "a/package.json", "../package.json", "\u{0}", "index.js", "é", "node_modules"])) },
            4 => m.o.conds = (0..s.below(4)).map(|_| s.s(&["", "default", ".", "node", "é", "./a", "*"])).collect(),
            5 => {
                let n = s.range(1, 6);
                m.o.alias = (0..n)
                    .map(|_| {
                        let k = if s.chance(1, 2) { s.s(&["a", "b", "c", "foo", "@s/foo"]) } else { word(s) };
                        let v = match s.below(4) {
                            0 => None,
                            1 => Some(word(s)),
                            _ => Some(s.s(&["a", "b", "c", "./a", "a/a", "b/c", "foo", "foo/a", "@s/foo", "#a", "./a/b"])),
                        };
                        (k, v)
                    })
                    .collect();
            }
            _ => {
                m.o.enforce = Some(s.chance(1, 2));
                m.o.prefer_relative = true;
                m.o.browser = true;
            }
        }
    }
    if s.chance(1, 4) {
        m.o.browser = true;
    }
    // special nodes
    let mut special = vec![];
    for _ in 0..s.weighted(&[3, 2, 1]) {
        let d = s.pick(&m.w.all_dirs()).clone();
        let name = s.s(&["a", "index.js", "package.json", "foo", "a.js", "lib", "main", "loop", "up"]);
        let p = gen::j(&d, &name);
        match s.below(8) {
            0 => {
                m.w.link(&p, &name);
            }
            1 => {
                m.w.link(&p, "nowhere");
            }
            2 => {
                m.w.link(&p, s.pick(&[".", "..", "../.."]));
            }
            3 => {
                m.w.link(&p, "${R}");
            }
            4 => {
                m.w.link(&p, "/dev/null");
            }
            5 => {
                m.w.dir(&p);
            }
            k => {
                if !m.w.exists(&p) && m.w.parent_ok(&p) {
                    special.push(json!([p, if k == 6 { "fifo" } else { "noread" }]));
                }
            }
        }
    }
    let n = s.range(3, 12);
    let reqs = (0..n)
        .map(|_| {
            let b = base(s, &m.w, m.o.alias.is_empty() && m.o.tsconfig.is_none());
            let r = request(s, &m, &b);
            (b, r)
        })
        .collect();
    mixed::case("C16", m.w, m.o, reqs, json!({ "special": special }))
}

fn check_c16(c: &Case, root: &Path, rep: &mut Report) {
    // brackets and special files
    for (k, n) in &c.world.nodes {
        if let Node::File(t) = n {
            if let Some(x) = expand(t) {
                let _ = std::fs::write(root.join(k), x);
            }
        }
    }
    for sp in c.extra["special"].as_array().cloned().unwrap_or_default() {
        let p = root.join(sp[0].as_str().unwrap_or("x"));
        if p.exists() {
            continue;
        }
        match sp[1].as_str() {
            Some("fifo") => {
                if let Ok(cs) = CString::new(p.as_os_str().as_bytes()) {
                    unsafe { libc::mkfifo(cs.as_ptr(), 0o600) };
                }
            }
            _ => {
                use std::os::unix::fs::PermissionsExt;
                if std::fs::write(&p, "{}").is_ok() {
                    let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o000));
                }
            }
        }
    }
    let key = case_key(c);
    let mut o: Opts = c.opts.clone();
    if o.tsconfig.as_deref().map_or(false, |t| root.join(t).metadata().map_or(false, |m| !m.is_file() && !m.is_dir())) {
        o.tsconfig = None; // reading a pipe would wait for a writer
    }
    let r = o.build(root, None);
    for (b, q) in &c.reqs {
        let bs = long(b).unwrap_or_else(|| b.clone());
        let base: PathBuf = match bs.strip_prefix("abs:") {
            Some(x) => PathBuf::from(x),
            None => root.join(&bs),
        };
        let req = subst(&long(q).unwrap_or_else(|| q.clone()), root);
        rep.evals += 1;
        let a = exec::resolve(&r, &base, &req);
        rep.class(class_of(&a));
        rep.nontriv(&format!("{key}|{b}|{q}"));
        if let Act::Panic(p) = &a {
            rep.fail(format!("resolve({b:?}, {q:?}) panicked: {p}"));
            return;
        }
        if let exec::Se::Panic(p) = exec::side_effects(&r, &base) {
            rep.fail(format!("load_side_effects({b:?}) panicked: {p}"));
            return;
        }
        if let Act::Path { path, .. } = &a {
            if let exec::Se::Panic(p) = exec::side_effects(&r, path) {
                rep.fail(format!("load_side_effects({path:?}) panicked: {p}"));
                return;
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C16", gen: gen_c16, check: check_c16, quick: 25_000, thorough: 2_000_000, materialize: true,
        rule: "trees with hostile description and tsconfig contents (wrong types, mutated text, bytes that are no UTF-8, brackets up to 200000 deep, circular maps), special files, odd options, odd and very long requests and base paths; every call must return without panic within an 8 MB stack, 1000000 file-system calls, 20 s of CPU and 6 GB of memory; every (case, base, request) counts" }]
}
