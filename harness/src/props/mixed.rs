//! Cases that mix all features, and the properties decided by invariants and metamorphic relations over them.
use super::*;
use crate::dict;
use crate::gen::{self, Flavor};
use crate::model;
use crate::world::{subst, Node, Opts, World};
use serde_json::{json, Map, Value};
use std::path::PathBuf;

pub fn case(prop: &str, world: World, opts: Opts, reqs: Vec<(String, String)>, extra: Value) -> Case {
    Case { prop: prop.into(), world, opts, reqs, extra }
}

#[derive(Clone)]
pub struct Knobs {
    pub alias: bool,
    pub browser: bool,
    pub ts: bool,
    pub prefer: bool,
    pub maps: bool,
    pub enforce: bool,
    pub symlinks: bool,
    pub unicode: bool,
    pub queries: bool,
    pub hostile: bool,
    pub own_modules: bool,
    pub pipes: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { alias: true, browser: true, ts: true, prefer: true, maps: true, enforce: true, symlinks: true, unicode: true, queries: true, hostile: false, own_modules: true, pipes: true }
    }
}

pub struct Mix {
    pub f: Flavor,
    pub w: World,
    pub o: Opts,
}

pub fn mixed(s: &mut Src, k: &Knobs) -> Mix {
    let maps = k.maps && s.chance(1, 2);
    let browser = k.browser && s.chance(1, 3);
    let f = Flavor {
        exports: maps && s.chance(3, 4),
        imports: maps && s.chance(3, 4),
        browser,
        symlinks: k.symlinks && s.chance(1, 3),
        unicode: k.unicode && s.chance(1, 4),
        queries: k.queries && s.chance(1, 4),
        hostile: k.hostile,
        own_modules: k.own_modules && s.chance(1, 6),
        pipes: k.pipes && s.chance(1, 3),
        ..Default::default()
    };
    let mut w = gen::world(s, &f);
    if maps {
        modeled::enrich_targets(s, &mut w, &f);
    }
    if browser {
        for d in ["", "packages/p", "src"] {
            if w.is_dir(d) && s.chance(1, 2) && !w.exists(&gen::j(d, "package.json")) {
                let mut v = gen::plain_pkg(s, &w, &f, d);
                v.as_object_mut().unwrap().insert("browser".into(), gen::browser_value(s, &w, &f, d));
                w.file(&gen::j(d, "package.json"), &v.to_string());
            }
        }
    }
    let mut o = Opts::default();
    if maps {
        gen::opts_maps(s, &mut o);
        if s.chance(1, 2) {
            o.main_files = gen::main_files(s);
            o.main_fields = gen::main_fields(s);
        }
    } else {
        gen::opts_paths(s, &mut o);
        if !k.enforce {
            o.enforce = Some(false);
        }
    }
    if browser {
        o.browser = s.chance(5, 6);
    }
    if k.alias && s.chance(1, 4) {
        o.alias = gen::alias(s, &w, &f);
    }
    if k.prefer && s.chance(1, 6) {
        o.prefer_relative = true;
    }
    o.symlinks = !s.chance(1, 3);
    if k.ts && s.chance(1, 6) {
        modeled::add_tsconfig(s, &mut w, &f);
        o.tsconfig = Some("tsconfig.json".into());
    }
    Mix { f, w, o }
}

impl Mix {
    pub fn request(&self, s: &mut Src, base: &str) -> String {
        if !self.o.alias.is_empty() && s.chance(1, 3) {
            return gen::alias_request(s, &self.w, &self.f, &self.o.alias);
        }
        if self.o.tsconfig.is_some() && s.chance(1, 3) {
            return modeled::ts_request(s, &self.w, &self.f);
        }
        gen::request(s, &self.w, &self.f, base)
    }
    pub fn requests(&self, s: &mut Src, n: usize) -> Vec<(String, String)> {
        let bs = gen::bases(s, &self.w, n);
        bs.into_iter()
            .map(|b| {
                let r = self.request(s, &b);
                (b, r)
            })
            .collect()
    }
}

pub fn class_of(a: &Act) -> &'static str {
    match a {
        Act::Path { .. } => "result: path",
        Act::Ignored => "result: ignored",
        Act::Err(_) => "result: failure",
        Act::Panic(_) => "result: panic",
    }
}

/// the answer with the root replaced, so that answers from two roots can be compared
pub fn relocate(a: &Act, root: &Path) -> Act {
    let rs = root.display().to_string();
    let p = |x: &PathBuf| match x.strip_prefix(root) {
        Ok(r) => Path::new("/R").join(r),
        Err(_) => x.clone(),
    };
    match a {
        Act::Path { path, q, f, target, joined } => Act::Path { path: p(path), q: q.clone(), f: f.clone(), target: target.clone(), joined: p(joined) },
        Act::Err(e) => Act::Err(e.replace(&rs, "/R")),
        a => a.clone(),
    }
}

// ---------------------------------------------------------------- C01
fn gen_c01(s: &mut Src) -> Case {
    let hostile = s.chance(1, 5);
    let m = mixed(s, &Knobs { hostile, ..Default::default() });
    let reqs = m.requests(s, 14);
    case("C01", m.w, m.o, reqs, Value::Null)
}
fn check_c01(c: &Case, root: &Path, rep: &mut Report) {
    let r = c.opts.build(root, None);
    let mut plain = c.opts.clone();
    plain.alias.clear();
    plain.browser = false;
    plain.tsconfig = None;
    let idem = if c.opts.effective_enforce() { None } else { Some(plain.build(root, None)) };
    let key = case_key(c);
    for (b, q) in &c.reqs {
        let base = root.join(b);
        let q = subst(q, root);
        rep.evals += 1;
        let a = exec::resolve(&r, &base, &q);
        rep.class(class_of(&a));
        let (path, target, joined, qq, ff) = match &a {
            Act::Path { path, target, joined, q, f } => (path, target, joined, q, f),
            Act::Panic(_) => {
                rep.fail(format!("resolve({b:?}, {q:?}): {}", a.show(root)));
                return;
            }
            _ => continue,
        };
        rep.nontriv(&format!("{key}|{b}|{q}"));
        let bad = |why: &str| format!("resolve({b:?}, {q:?}) gave {}: {why}", a.show(root));
        let text = path.to_string_lossy();
        if !path.is_absolute() {
            rep.fail(bad("the path is not absolute"));
        } else if !std::fs::metadata(path).map_or(false, |m| m.is_file()) {
            rep.fail(bad("the path names no regular file"));
        } else if text.split('/').skip(1).any(|x| x.is_empty() || x == "." || x == "..") {
            rep.fail(bad("the path is not normalized"));
        } else if c.opts.symlinks && std::fs::canonicalize(path).ok().as_ref() != Some(path) {
            rep.fail(bad("the path is not canonical although symlinks is on"));
        } else if !target.is_empty() {
            rep.fail(bad(&format!("the returned request still has the target {target:?}")));
        } else if joined.to_string_lossy() != format!("{text}{qq}{ff}") {
            rep.fail(bad(&format!("join() gave {}", joined.display())));
        }
        if rep.violation.is_some() {
            return;
        }
        if let Some(r2) = &idem {
            if text.contains(['?', '#']) {
                continue;
            }
            let a2 = exec::resolve(r2, root, &text);
            rep.class("resolved again");
            let same = matches!(&a2, Act::Path { path: p2, q, f, .. } if p2 == path && q.is_empty() && f.is_empty());
            if !same {
                rep.fail(format!("resolve({b:?}, {q:?}) gave {} but resolving that path gave {}", a.show(root), a2.show(root)));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C02
fn gen_c02(s: &mut Src) -> Case {
    let mut m = mixed(s, &Knobs { queries: false, ..Default::default() });
    m.f.queries = false;
    let mut reqs = m.requests(s, 12);
    reqs.retain(|(_, r)| {
        let (t, q, f) = model::split(r);
        q.is_empty() && f.is_empty() && !t.is_empty()
    });
    let n = reqs.len();
    let suf: Vec<Value> = (0..n)
        .map(|_| {
            let q = match s.below(6) {
                0 => String::new(),
                1 => format!("?{}", gen::stem(s, &m.f)),
                2 => s.s(&["?a/b", "?../x", "?/", "?a?b", "?x=.js", "??"]),
                _ => gen::query(s),
            };
            let f = if q.is_empty() || s.chance(1, 2) {
                if s.chance(1, 3) {
                    s.s(&["#a/b", "#?", "#../x", "#a.js", "#x?y"])
                } else {
                    gen::fragment(s)
                }
            } else {
                String::new()
            };
            json!([q, f])
        })
        .collect();
    case("C02", m.w, m.o, reqs, json!({ "suffixes": suf }))
}
fn check_c02(c: &Case, root: &Path, rep: &mut Report) {
    let r = c.opts.build(root, None);
    let m = Model::new(&c.opts, root);
    let key = case_key(c);
    let sufs = c.extra["suffixes"].as_array().cloned().unwrap_or_default();
    for (i, (b, t)) in c.reqs.iter().enumerate() {
        let base = root.join(b);
        let t = subst(t, root);
        // shrinking may remove suffixes
        let sv = match sufs.get(i).or(sufs.first()) {
            Some(v) => v,
            None => return,
        };
        let (q, f) = (sv[0].as_str().unwrap_or(""), sv[1].as_str().unwrap_or(""));
        let full = format!("{t}{q}{f}");
        if model::split(&full) != (t.clone(), q.to_string(), f.to_string()) {
            rep.skipped += 1;
            continue;
        }
        let w0 = m.resolve(&base, &t);
        if !m.supported() {
            rep.skipped += 1;
            continue;
        }
        let plain_literal = m.used.borrow().contains("exports-query-matters");
        m.resolve(&base, &full);
        let literal = plain_literal || m.used.borrow().contains("exports-query-matters");
        if !m.supported() || literal || matches!(&w0, Out::Path(_, q, f) if !q.is_empty() || !f.is_empty()) {
            rep.skipped += 1;
            continue;
        }
        rep.evals += 1;
        let a0 = exec::resolve(&r, &base, &t);
        let a1 = exec::resolve(&r, &base, &full);
        for u in m.used.borrow().iter() {
            rep.class(u);
        }
        rep.class(class_of(&a1));
        if a1.ok() {
            rep.nontriv(&format!("{key}|{b}|{full}"));
        }
        let want = match a0.out() {
            Some(Out::Path(p, _, _)) => Some(Out::Path(p, q.to_string(), f.to_string())),
            o => o,
        };
        let joined_ok = match &a1 {
            Act::Path { path, joined, .. } => joined.as_os_str().to_string_lossy() == format!("{}{q}{f}", path.display()),
            _ => true,
        };
        if want.is_none() || a1.out() != want || !joined_ok {
            rep.fail(format!("resolve({b:?}, {t:?}) gave {} but with {q:?}, {f:?} added it gave {}", a0.show(root), a1.show(root)));
            return;
        }
    }
}

// ---------------------------------------------------------------- C07
fn hostile_request(s: &mut Src, w: &World, f: &Flavor, b: &str) -> String {
    let r = if s.chance(1, 6) { gen::self_request(s, w, f, b).unwrap_or_else(|| gen::bare_request(s, w, f)) } else { gen::bare_request(s, w, f) };
    let name = model::pkg_name(&r).to_string();
    let inner = {
        let pk: Vec<String> = gen::packages(w).into_iter().filter(|(n, _)| *n == name).map(|(_, d)| d).collect();
        if pk.is_empty() {
            "index.js".to_string()
        } else {
            let d = s.pick(&pk).clone();
            let fs = gen::files_below(w, &d);
            if fs.is_empty() { "index.js".into() } else { s.pick(&fs).clone() }
        }
    };
    match s.below(16) {
        0 => format!("{name}/{inner}"),
        1 => format!("{name}/./{inner}"),
        2 => format!("{name}//{inner}"),
        3 => format!("{name}/../{name}/{inner}"),
        4 => format!("{name}/x/../{inner}"),
        5 => format!("{name}/../../src/{}", gen::fname(s, f)),
        6 => format!("{r}/../../{}", gen::fname(s, f)),
        7 => format!("{r}/../{inner}"),
        8 => format!("{r}/./"),
        9 => format!("{name}?/{inner}"),
        10 => format!("{r}?x/../../{inner}"),
        11 => format!("{r}#/../{inner}"),
        12 => format!("{name}/{inner}/"),
        13 => match r.rfind('/') {
            Some(i) => format!("{}/{}", &r[..i + 1], &r[i..]),
            None => format!("{r}/."),
        },
        _ => {
            if s.chance(1, 3) {
                gen::dots(s, &r)
            } else {
                r
            }
        }
    }
}
fn gen_c07(s: &mut Src) -> Case {
    let f = Flavor { exports: true, hostile: s.chance(2, 3), unicode: s.chance(1, 5), mains: s.chance(1, 2), pkg_in_dirs: true, own_modules: s.chance(1, 6), ..Default::default() };
    let mut w = gen::world(s, &f);
    modeled::enrich_targets(s, &mut w, &f);
    // description files nested in packages
    for (_, d) in gen::packages(&w) {
        if s.chance(1, 2) {
            let sub: Vec<String> = w.all_dirs().into_iter().filter(|x| x.starts_with(&format!("{d}/")) && !gen::has_segment(&x[d.len()..], "node_modules")).collect();
            if !sub.is_empty() {
                let x = s.pick(&sub).clone();
                let mut v = gen::plain_pkg(s, &w, &f, &x);
                if s.chance(1, 2) {
                    let e = gen::exports_value(s, &w, &f, &x);
                    v.as_object_mut().unwrap().insert("exports".into(), e);
                }
                w.file(&gen::j(&x, "package.json"), &v.to_string());
            }
        }
    }
    let mut o = Opts::default();
    gen::opts_maps(s, &mut o);
    o.symlinks = s.chance(1, 2);
    let bs = gen::bases(s, &w, 14);
    let reqs = bs
        .into_iter()
        .map(|b| {
            let r = hostile_request(s, &w, &f, &b);
            (b, r)
        })
        .collect();
    case("C07", w, o, reqs, Value::Null)
}
fn target_strings(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(x) => out.push(x.clone()),
        Value::Array(a) => a.iter().for_each(|x| target_strings(x, out)),
        Value::Object(m) => m.values().for_each(|x| target_strings(x, out)),
        _ => {}
    }
}
/// some target of the map can denote the file `rel` (relative to the package)
fn denoted(ex: &Value, rel: &str) -> bool {
    fn glob(p: &str, t: &str) -> bool {
        match p.find('*') {
            None => p == t,
            Some(i) => t.starts_with(&p[..i]) && (0..=t.len()).any(|k| t.is_char_boundary(k) && k >= i && glob(&p[i + 1..], &t[k..])),
        }
    }
    let mut ts = vec![];
    target_strings(ex, &mut ts);
    ts.iter().any(|t| {
        let (t, _, _) = model::split(t);
        let folder = t.ends_with('/');
        let n = model::lex(Path::new(&t)).to_string_lossy().to_string();
        if folder {
            n.is_empty() || rel.starts_with(&format!("{n}/"))
        } else {
            // an empty match leaves an empty segment behind
            glob(&n, rel) || model::lex(Path::new(&t.replace('*', ""))).to_string_lossy() == rel
        }
    })
}
fn check_c07(c: &Case, root: &Path, rep: &mut Report) {
    let r = c.opts.build(root, None);
    let m = Model::new(&c.opts, root);
    let key = case_key(c);
    for (b, q) in &c.reqs {
        let base = root.join(b);
        let (t, _, _) = model::split(q);
        if model::is_rel(&t) || t.starts_with(['/', '#']) || t.is_empty() {
            continue;
        }
        let name = model::pkg_name(&t);
        let a = exec::resolve(&r, &base, q);
        rep.evals += 1;
        rep.class(class_of(&a));
        let fail = |why: String| format!("resolve({b:?}, {q:?}) gave {}: {why}", a.show(root));
        if let Act::Panic(_) = a {
            rep.fail(fail(String::new()));
            return;
        }
        // the package with exports that guards this request
        let mut earlier: Vec<PathBuf> = vec![];
        let mut guard: Option<(PathBuf, Value)> = None;
        let exports_of = |d: &Path| -> Option<Value> {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(d.join("package.json")).ok()?).ok()?;
            v.get("exports").filter(|e| !e.is_null()).cloned()
        };
        for l in base.ancestors() {
            let nm = l.join("node_modules");
            if !nm.is_dir() {
                continue;
            }
            let d = nm.join(name);
            if d.is_dir() {
                if let Some(e) = exports_of(&d) {
                    guard = Some((d, e));
                    break;
                }
            }
            earlier.push(nm.join(name));
        }
        if let (Act::Path { path, .. }, Some((d, e))) = (&a, &guard) {
            let mine = |x: &PathBuf| path.starts_with(x) || x.file_name().map_or(false, |n| path.parent() == x.parent() && path.file_name().map_or(false, |p| p.to_string_lossy().starts_with(&*n.to_string_lossy())));
            let odd = name.is_empty() || t.split('/').any(|x| x == "..");
            // a nearer level without the package serves dotted requests as plain paths
            let guarded = if odd { earlier.is_empty() } else { !earlier.iter().any(|x| mine(x)) };
            if guarded {
                // a package may refer to itself
                let selfref = base.ancestors().find(|x| x.join("package.json").is_file()).and_then(|x| {
                    let v: Value = serde_json::from_str(&std::fs::read_to_string(x.join("package.json")).ok()?).ok()?;
                    if v.get("name").and_then(|n| n.as_str()) == Some(name) {
                        exports_of(x).map(|e| (x.to_path_buf(), e))
                    } else {
                        None
                    }
                });
                let ok = |d: &PathBuf, e: &Value| path.strip_prefix(d).map_or(false, |rel| denoted(e, &rel.to_string_lossy()));
                if !ok(d, e) && !selfref.as_ref().map_or(false, |(d, e)| ok(d, e)) {
                    rep.fail(fail(format!("{} has exports and none of its targets denotes that file", d.display().to_string().replace(&root.to_string_lossy().to_string(), "${R}"))));
                    return;
                }
                rep.class("exported file");
            }
        }
        if guard.is_some() {
            rep.nontriv(&format!("{key}|{b}|{q}"));
        }
        let want = m.resolve(&base, q);
        if !m.supported() {
            rep.skipped += 1;
            for u in m.unsupported.borrow().iter() {
                rep.class(&format!("model not asked: {u}"));
            }
            continue;
        }
        if a.out().as_ref() != Some(&want) {
            rep.fail(fail(format!("the rules give {}", exec::show_out(&want, root))));
            return;
        }
    }
}

// ---------------------------------------------------------------- C18
fn gen_c18(s: &mut Src) -> Case {
    let f = Flavor { side_effects: true, symlinks: s.chance(1, 4), unicode: s.chance(1, 4), mains: false, ..Default::default() };
    let mut w = gen::world(s, &f);
    for d in w.all_dirs() {
        if s.chance(1, 5) {
            let v = match s.below(12) {
                0 => json!({}),
                1 => json!({"name": "x"}),
                2 => json!([]),
                3 => json!("str"),
                4 => json!({ "sideEffects": null }),
                5 => json!({"sideEffects": match s.below(4) {
                    0 => json!(s.s(&["", "*", "*.css", "true", "false", "./a.js", "./src/**", "[]", "é", "null"])),
                    1 => json!(dict::raw(s)),
                    _ => s.pick(&[json!(1), json!(0), json!("a"), json!({}), json!({"a": true}), json!([1]), json!([true]), json!(["a", null]), json!([null, "a"]), json!([["a"]]), json!(0.5), json!(["x", false]), json!([{}])]).clone(),
                }}),
                6 => json!({"sideEffects": true}),
                7 => json!({"sideEffects": false, "version": "1"}),
                8 => json!({"sideEffects": []}),
                _ => {
                    let x = gen::side_effects_value(s);
                    json!({ "sideEffects": x })
                }
            };
            if s.chance(1, 12) {
                let k = gen::j(&d, "package.json");
                w.nodes.remove(&k);
                w.dir(&k);
                continue;
            }
            let txt = if s.chance(1, 25) { s.s(&["", "{", "null", "[1", "{\"sideEffects\":true}}"]) } else { v.to_string() };
            w.nodes.remove(&gen::j(&d, "package.json"));
            w.file(&gen::j(&d, "package.json"), &txt);
        }
    }
    let mut o = Opts::default();
    match s.below(8) {
        0 => o.desc = None,
        1 => {
            o.desc = Some("pkg.json".into());
            let ks: Vec<String> = w.nodes.keys().filter(|k| k.ends_with("package.json")).cloned().collect();
            for k in ks {
                if s.chance(2, 3) {
                    let n = w.nodes.remove(&k).unwrap();
                    w.nodes.insert(format!("{}pkg.json", &k[..k.len() - 12]), n);
                }
            }
        }
        _ => {}
    }
    let all: Vec<String> = w.nodes.keys().cloned().collect();
    let dirs = w.all_dirs();
    let mut reqs = vec![];
    for _ in 0..16 {
        let p = match s.below(6) {
            0 | 1 => s.pick(&dirs).clone(),
            2 | 3 if !all.is_empty() => s.pick(&all).clone(),
            4 => {
                let d = s.pick(&dirs).clone();
                gen::j(&d, "nope/deeper/x.js")
            }
            _ => {
                let d = s.pick(&dirs).clone();
                let n = gen::fname(s, &f);
                gen::j(&d, &n)
            }
        };
        reqs.push((p, String::new()));
    }
    case("C18", w, o, reqs, Value::Null)
}
fn check_c18(c: &Case, root: &Path, rep: &mut Report) {
    let r = c.opts.build(root, None);
    let m = Model::new(&c.opts, root);
    let key = case_key(c);
    for (b, _) in &c.reqs {
        let p = root.join(b);
        rep.evals += 1;
        let want = m.side_effects(&p);
        let got = exec::side_effects(&r, &p);
        let ok = match (&want, &got) {
            (Err(()), exec::Se::Err(_)) => {
                rep.class("error");
                true
            }
            (Ok(None), exec::Se::None) => {
                rep.class("no description file");
                true
            }
            (Ok(Some((p, v))), exec::Se::Some(p2, v2)) => {
                rep.class(match v {
                    None => "absent",
                    Some(Value::Bool(_)) => "boolean",
                    _ => "array",
                });
                p == p2 && v == v2
            }
            _ => false,
        };
        if !matches!(want, Ok(None)) {
            rep.nontriv(&format!("{key}|{b}"));
        }
        if !ok {
            rep.fail(format!("load_side_effects({b:?}) gave {got:?} but the nearest description file says {want:?}"));
            return;
        }
    }
}

// ---------------------------------------------------------------- C19
fn gen_c19(s: &mut Src) -> Case {
    let m = mixed(s, &Knobs::default());
    let mut reqs = m.requests(s, 10);
    // some requests that differ in one respect only
    for _ in 0..3 {
        let (b, r) = s.pick(&reqs).clone();
        let b2 = gen::bases(s, &m.w, 1)[0].clone();
        if s.chance(1, 2) {
            reqs.push((b2, r));
        } else {
            reqs.push((b, format!("{r}?q")));
        }
    }
    let mut w = m.w;
    if s.chance(1, 4) {
        // a broken description file somewhere
        let d = s.pick(&w.all_dirs()).clone();
        let p = gen::j(&d, "package.json");
        let t = s.s(&["{", "", "{\"exports\":{\"./a\":\"/x\"}}", "{\"imports\":5}", "{\"sideEffects\":1}"]);
        if !w.is_dir(&p) {
            w.nodes.remove(&p);
            w.file(&p, &t);
        }
    }
    let n = reqs.len();
    let order: Vec<usize> = (0..s.range(20, 40)).map(|_| s.below(n)).collect();
    case("C19", w, m.o, reqs, json!({ "order": order }))
}
fn check_c19(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    let q: Vec<(PathBuf, String)> = c.reqs.iter().map(|(b, q)| (root.join(b), subst(q, root))).collect();
    if q.is_empty() {
        return;
    }
    let fresh: Vec<Act> = q.iter().map(|(b, q)| exec::resolve(&c.opts.build(root, None), b, q)).collect();
    let fresh_se: Vec<exec::Se> = q.iter().map(|(b, _)| exec::side_effects(&c.opts.build(root, None), b)).collect();
    let r = c.opts.build(root, None);
    let order: Vec<usize> = c.extra["order"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).filter(|i| *i < q.len()).collect();
    for (n, &i) in order.iter().enumerate() {
        rep.evals += 1;
        let a = exec::resolve(&r, &q[i].0, &q[i].1);
        rep.class(class_of(&a));
        if n > 0 {
            rep.nontriv(&format!("{key}|{:?}", &order[..=n].iter().map(|i| &c.reqs[*i]).collect::<Vec<_>>()));
        }
        if a != fresh[i] || matches!(a, Act::Panic(_)) {
            rep.fail(format!(
                "resolve({:?}, {:?}) gave {} after {n} other requests but {} on a new resolver",
                c.reqs[i].0, c.reqs[i].1, a.show(root), fresh[i].show(root)
            ));
            return;
        }
        if n % 3 == 0 {
            let se = exec::side_effects(&r, &q[i].0);
            if se != fresh_se[i] {
                rep.fail(format!("load_side_effects({:?}) gave {se:?} after {n} requests but {:?} on a new resolver", c.reqs[i].0, fresh_se[i]));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C20
fn gen_c20(s: &mut Src) -> Case {
    let mut m = mixed(s, &Knobs { alias: false, prefer: false, ..Default::default() });
    let mode = s.s(&["rename", "rename", "none"]);
    let name = s.s(&["pkg.json", "desc.json", "component.json", ".p", "Package.json", "package.json5", "é.pkg", "bower"]);
    let mut decoys = Map::new();
    for d in m.w.all_dirs() {
        if s.chance(1, 4) {
            let t = match s.below(6) {
                0 => "{".to_string(),
                1 => "null".into(),
                2 => "{\"sideEffects\":7}".into(),
                3 => json!({"name": "foo", "exports": {".": "./index.js"}, "main": "./x.js"}).to_string(),
                4 => json!({"browser": {"./a.js": false, "foo": "bar"}, "imports": {"#a": "./a.js"}}).to_string(),
                _ => gen::plain_pkg(s, &m.w, &m.f, &d).to_string(),
            };
            decoys.insert(gen::j(&d, "package.json"), json!(t));
        }
    }
    m.o.desc = Some("package.json".into());
    let reqs = m.requests(s, 12);
    let reqs = reqs.into_iter().filter(|(_, r)| !r.contains("package") || r.contains("packages")).collect();
    case("C20", m.w, m.o, reqs, json!({"mode": mode, "name": name, "decoys": Value::Object(decoys)}))
}
fn check_c20(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    let mode = c.extra["mode"].as_str().unwrap_or("rename");
    let name = c.extra["name"].as_str().unwrap_or("pkg.json");
    let empty = Map::new();
    let decoys = c.extra["decoys"].as_object().unwrap_or(&empty);
    let dir = root.parent().unwrap();
    // (nothing but the tree itself lies next to it)
    let (ra, rb) = (dir.join("copy-a/tree"), dir.join("copy-b/tree"));
    let is_desc = |k: &str| k == "package.json" || k.ends_with("/package.json");
    let mut wa = c.world.clone();
    let mut wb = World::default();
    let (mut oa, mut ob) = (c.opts.clone(), c.opts.clone());
    if mode == "rename" {
        for (k, n) in &wa.nodes {
            let k2 = if is_desc(k) && !matches!(n, Node::Dir) { format!("{}{name}", &k[..k.len() - 12]) } else { k.clone() };
            let n2 = match n {
                Node::Link(t) if is_desc(t) => Node::Link(format!("{}{name}", &t[..t.len() - 12])),
                n => n.clone(),
            };
            if wb.nodes.insert(k2, n2).is_some() {
                rep.skipped += 1;
                return;
            }
        }
        for (k, v) in decoys {
            let d = if k.contains('/') { &k[..k.len() - 13] } else { "" };
            if wb.is_dir(d) {
                wb.file(k, v.as_str().unwrap());
            }
        }
        ob.desc = Some(name.to_string());
    } else {
        // without a description_file nothing in those files matters
        wb = wa.clone();
        for (k, n) in wb.nodes.iter_mut() {
            if is_desc(k) {
                if let Node::File(t) = n {
                    *t = decoys.values().next().and_then(|v| v.as_str()).unwrap_or("{").to_string();
                }
            }
        }
        for (k, v) in decoys {
            // the file must exist in both trees
            if !wb.exists(k) && wb.file(k, v.as_str().unwrap()) {
                wa.file(k, "{}");
            } else if let Some(Node::File(t)) = wb.nodes.get_mut(k) {
                *t = v.as_str().unwrap().to_string();
            }
        }
        oa.desc = None;
        ob.desc = None;
    }
    if wa.materialize(&ra).is_err() || wb.materialize(&rb).is_err() {
        rep.skipped += 1;
        return;
    }
    let (xa, xb) = (oa.build(&ra, None), ob.build(&rb, None));
    for (b, q) in &c.reqs {
        // (the names could not be told apart in the messages)
        if name.contains("package.json") && (b.contains("package.json") || q.contains("package.json")) {
            rep.skipped += 1;
            continue;
        }
        rep.evals += 1;
        let a = relocate(&exec::resolve(&xa, &ra.join(b), &subst(q, &ra)), &ra);
        let z = relocate(&exec::resolve(&xb, &rb.join(b), &subst(q, &rb)), &rb);
        rep.class(class_of(&a));
        let a2 = match (&a, mode) {
            (Act::Path { path, q, f, target, joined }, "rename") if is_desc(&path.to_string_lossy()) => {
                let n = |p: &PathBuf| PathBuf::from(p.to_string_lossy().replace("/package.json", &format!("/{name}")));
                Act::Path { path: n(path), q: q.clone(), f: f.clone(), target: target.clone(), joined: n(joined) }
            }
            (Act::Err(e), "rename") => Act::Err(e.replace("/package.json", &format!("/{name}"))),
            (a, _) => a.clone(),
        };
        // the caller may use that name as well, for a directory
        let z = match z {
            Act::Err(e) if mode == "rename" && (b.contains("package.json") || q.contains("package.json")) => Act::Err(e.replace("/package.json", &format!("/{name}"))),
            z => z,
        };
        rep.class(mode);
        if mode == "none" || a.ok() {
            rep.nontriv(&format!("{key}|{mode}|{name}|{b}|{q}"));
        }
        if a2 != z || matches!(z, Act::Panic(_)) {
            rep.fail(format!("resolve({b:?}, {q:?}) gave {a:?} with package.json but {z:?} with the description files {}", if mode == "rename" { format!("renamed to {name}") } else { "disabled and changed".into() }));
            return;
        }
        let sa = exec::side_effects(&xa, &ra.join(b));
        let sb = exec::side_effects(&xb, &rb.join(b));
        let show = |x: &exec::Se, r: &Path| format!("{x:?}").replace(&r.display().to_string(), "/R");
        let (ta, tb) = (show(&sa, &ra), show(&sb, &rb));
        let ta2 = if mode == "rename" { ta.replace("/package.json", &format!("/{name}")) } else { ta.clone() };
        let tb = if mode == "rename" && b.contains("package.json") { tb.replace("/package.json", &format!("/{name}")) } else { tb };
        if ta2 != tb {
            rep.fail(format!("load_side_effects({b:?}) gave {ta} with package.json but {tb} with the other description file name ({mode})"));
            return;
        }
    }
}

// ---------------------------------------------------------------- C21
const ROOTS: &[&str] = &[
    "my node_modules/x",
    "node_modules.bak/p",
    "xnode_modules/日本 é",
    "a.b/c+d/(e)",
    "pré/node_modules_x/$&/ü",
    "UPPER/lower/very-long-directory-name-that-goes-on-and-on-and-on-and-on/and-more",
    "%20/[x]/{y}",
    "@s/foo",
    "src/lib/index.js",
    "c#d/e",
    "q?x/y",
    "BYTES",
];
fn uses_root(c: &Case) -> bool {
    c.to_json().to_string().contains("${R}")
}
fn gen_c21(s: &mut Src) -> Case {
    let m = mixed(s, &Knobs::default());
    let reqs = m.requests(s, 12);
    let mode = s.s(&["move", "rename"]);
    let frag = dict::frag(s);
    let rname = match s.below(4) {
        0 => {
            let w = dict::word(s);
            s.s(&[&format!("{w}{frag}x/{frag}"), &format!("a{frag}"), &format!("{frag}/{w}"), &w])
        }
        _ => s.pick(ROOTS).to_string(),
    };
    let c = case("C21", m.w, m.o, reqs, json!({"mode": mode, "root": rname, "frag": frag}));
    if (rname.contains(['?', '#']) || rname == "BYTES") && uses_root(&c) {
        let mut c = c;
        c.extra["root"] = json!("my node_modules/日本 x");
        return c;
    }
    c
}

/// renames whole segments; None when a segment has a form that cannot be renamed consistently
fn ren_seg(x: &str, frag: &str) -> Option<String> {
    match x {
        "" | "." | ".." | "node_modules" | "package.json" | "*" | "${R}" | "@" | "#" => return Some(x.to_string()),
        _ => {}
    }
    if x.starts_with("*.") && !x[1..].contains('*') {
        return Some(x.to_string());
    }
    if x.contains('*') || x.contains("${R}") {
        return None;
    }
    for lead in ["@", "#"] {
        if let Some(r) = x.strip_prefix(lead) {
            return ren_seg(r, frag).map(|r| format!("{lead}{r}"));
        }
    }
    if x.starts_with('.') || x.starts_with("tsconfig") || x.starts_with('~') {
        return Some(x.to_string());
    }
    let (stem, ext) = match x.find('.') {
        Some(i) => x.split_at(i),
        None => (x, ""),
    };
    let n = match hash_str(stem) % 5 {
        4 => format!("{stem}{frag}4"),
        0 => format!("é{stem}0"),
        1 => format!("{stem}-日本1"),
        2 => format!("Z{stem}2"),
        _ => format!("{stem}💥3"),
    };
    Some(format!("{n}{ext}"))
}
fn ren_path(p: &str, frag: &str) -> Option<String> {
    p.split('/').map(|x| ren_seg(x, frag)).collect::<Option<Vec<_>>>().map(|v| v.join("/"))
}
fn ren_req(r: &str, frag: &str) -> Option<String> {
    let (t, q, f) = model::split(r);
    Some(format!("{}{q}{f}", ren_path(&t, frag)?))
}
fn ren_values(v: &Value, keys: bool, frag: &str) -> Option<Value> {
    Some(match v {
        Value::String(x) => json!(ren_req(x, frag)?),
        Value::Array(a) => Value::Array(a.iter().map(|x| ren_values(x, keys, frag)).collect::<Option<Vec<_>>>()?),
        Value::Object(m) => {
            let mut out = Map::new();
            for (k, x) in m {
                let k2 = if keys || k.starts_with('.') || k.starts_with('#') { ren_path(k, frag)? } else { k.clone() };
                if out.insert(k2, ren_values(x, keys, frag)?).is_some() {
                    return None;
                }
            }
            Value::Object(out)
        }
        x => x.clone(),
    })
}
fn ren_pkg(txt: &str, frag: &str) -> Option<String> {
    let v: Value = serde_json::from_str(txt).ok()?;
    let m = v.as_object()?;
    let mut out = Map::new();
    for (k, x) in m {
        let y = match k.as_str() {
            "name" | "main" | "module" | "x-main" | "exports" | "imports" => ren_values(x, false, frag)?,
            "browser" => ren_values(x, true, frag)?,
            k if gen::ODD_FIELDS.contains(&k) => ren_values(x, false, frag)?,
            _ => x.clone(),
        };
        out.insert(k.clone(), y);
    }
    Some(Value::Object(out).to_string())
}
fn ren_case(c: &Case) -> Option<Case> {
    let frag = c.extra["frag"].as_str().unwrap_or("");
    let mut w = World::default();
    for (k, n) in &c.world.nodes {
        let k2 = ren_path(k, frag)?;
        let n2 = match n {
            Node::File(t) if k.ends_with("package.json") => Node::File(ren_pkg(t, frag)?),
            Node::Link(t) => Node::Link(ren_path(t, frag)?),
            n => n.clone(),
        };
        if w.nodes.insert(k2, n2).is_some() {
            return None;
        }
    }
    let mut o = c.opts.clone();
    o.main_files = o.main_files.iter().map(|x| ren_path(x, frag)).collect::<Option<_>>()?;
    o.alias = o
        .alias
        .iter()
        .map(|(k, v)| {
            Some((
                ren_path(k, frag)?,
                match v {
                    Some(t) => Some(ren_path(t, frag)?),
                    None => None,
                },
            ))
        })
        .collect::<Option<_>>()?;
    let reqs = c.reqs.iter().map(|(b, q)| Some((ren_path(b, frag)?, ren_req(q, frag)?))).collect::<Option<_>>()?;
    Some(Case { prop: c.prop.clone(), world: w, opts: o, reqs, extra: Value::Null })
}
fn check_c21(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    let dir = root.parent().unwrap();
    let ra = dir.join("copy-a/tree");
    if c.world.materialize(&ra).is_err() {
        rep.skipped += 1;
        return;
    }
    let xa = c.opts.build(&ra, None);
    if c.extra["mode"] == "move" {
        let name = c.extra["root"].as_str().unwrap_or("m");
        let rb = if name == "BYTES" {
            use std::os::unix::ffi::OsStrExt;
            dir.join(std::ffi::OsStr::from_bytes(b"b\xff\xfe/\xc3\x28x/tree"))
        } else {
            dir.join("copy-b").join(name).join("tree")
        };
        if (name == "BYTES" || name.contains(['?', '#'])) && (uses_root(c) || c.opts.tsconfig.is_some()) {
            rep.skipped += 1;
            return;
        }
        if c.world.materialize(&rb).is_err() {
            rep.skipped += 1;
            return;
        }
        let xb = c.opts.build(&rb, None);
        let m = Model::new(&c.opts, &ra);
        for (b, q) in &c.reqs {
            // an alias key or browser target may spell an absolute path: covered by the substitution of the root
            m.resolve(&ra.join(b), &subst(q, &ra));
            let a = relocate(&exec::resolve(&xa, &ra.join(b), &subst(q, &ra)), &ra);
            let z = relocate(&exec::resolve(&xb, &rb.join(b), &subst(q, &rb)), &rb);
            // lengths of absolute strings decide nothing within the modelled domain
            if !m.supported() && a != z {
                rep.skipped += 1;
                continue;
            }
            rep.evals += 1;
            rep.class("moved");
            rep.class(class_of(&a));
            if a.ok() {
                rep.nontriv(&format!("{key}|{name}|{b}|{q}"));
            }
            if a != z || matches!(z, Act::Panic(_)) {
                rep.fail(format!("resolve({b:?}, {q:?}) gave {a:?} but {z:?} when the tree lies at {name:?}"));
                return;
            }
        }
        return;
    }
    let c2 = match ren_case(c) {
        // (an extension without its dot cannot be told from the rest of a name)
        Some(c2) if c.opts.tsconfig.is_none() && c.opts.ext.iter().all(|e| e.is_empty() || e.starts_with('.')) => c2,
        _ => {
            rep.skipped += 1;
            rep.class("cannot be renamed");
            return;
        }
    };
    let rb = dir.join("copy-b/tree");
    if c2.world.materialize(&rb).is_err() {
        rep.skipped += 1;
        return;
    }
    let xb = c2.opts.build(&rb, None);
    let (ma, mb) = (Model::new(&c.opts, &ra), Model::new(&c2.opts, &rb));
    for ((b, q), (b2, q2)) in c.reqs.iter().zip(&c2.reqs) {
        ma.resolve(&ra.join(b), &subst(q, &ra));
        mb.resolve(&rb.join(b2), &subst(q2, &rb));
        if !ma.supported() || !mb.supported() {
            rep.skipped += 1;
            continue;
        }
        rep.evals += 1;
        rep.class("renamed");
        let a = relocate(&exec::resolve(&xa, &ra.join(b), &subst(q, &ra)), &ra);
        let z = relocate(&exec::resolve(&xb, &rb.join(b2), &subst(q2, &rb)), &rb);
        rep.class(class_of(&a));
        if a.ok() {
            rep.nontriv(&format!("{key}|renamed|{b}|{q}"));
        }
        let ok = match (&a, &z) {
            (Act::Path { path: p, q: q1, f: f1, .. }, Act::Path { path: p2, q: q2, f: f2, .. }) => {
                let want = p.strip_prefix("/R").ok().and_then(|p| ren_path(&p.to_string_lossy(), c.extra["frag"].as_str().unwrap_or(""))).map(|p| Path::new("/R").join(p));
                want.as_ref() == Some(p2) && q1 == q2 && f1 == f2
            }
            (Act::Ignored, Act::Ignored) | (Act::Err(_), Act::Err(_)) => true,
            _ => false,
        };
        if !ok {
            rep.fail(format!("resolve({b:?}, {q:?}) gave {a:?} but with all names replaced resolve({b2:?}, {q2:?}) gave {z:?}"));
            return;
        }
    }
}

// ---------------------------------------------------------------- C22
fn gen_c22(s: &mut Src) -> Case {
    let m = mixed(s, &Knobs::default());
    let mut reqs = m.requests(s, 10);
    for r in reqs.iter_mut() {
        if s.chance(1, 3) {
            let n = s.s(&["missing", "./missing", "../no/such.js", "@s/none", "nope/deep/x", "/no/such/file", "foo/none", "./missing/"]);
            r.1 = n;
        }
        if s.chance(1, 4) && !r.1.contains(['?', '#']) {
            let q = gen::query(s);
            r.1 = format!("{}{q}#frag", r.1);
        }
    }
    let mut w = m.w;
    if s.chance(1, 3) {
        let d = s.pick(&w.all_dirs()).clone();
        let p = gen::j(&d, "package.json");
        let t = s.s(&["{", "", "hex:ff", "{\"a\":}", "[", "{\"sideEffects\": 3}"]);
        if !w.is_dir(&p) {
            w.nodes.remove(&p);
            w.file(&p, &t);
        }
    }
    case("C22", w, m.o, reqs, Value::Null)
}
fn check_c22(c: &Case, root: &Path, rep: &mut Report) {
    let r = c.opts.build(root, None);
    let m = Model::new(&c.opts, root);
    let key = case_key(c);
    let rewriting = ["alias-fallback", "alias", "imports", "exports", "self-reference", "tsconfig", "tsconfig-unusable", "tsconfig-hit", "tsconfig-extends", "browser-module", "browser-path", "browser-chain", "browser-to-module", "main-field-dangling"];
    for (b, q) in &c.reqs {
        let base = root.join(b);
        let q = subst(q, root);
        let want = m.resolve(&base, &q);
        if !m.supported() {
            rep.skipped += 1;
            continue;
        }
        rep.evals += 1;
        let a = exec::resolve(&r, &base, &q);
        rep.class(class_of(&a));
        // any broken file on the way may be reported
        let broken_on_the_way = match &a {
            Act::Err(msg) => c.world.nodes.iter().any(|(k, n)| match n {
                Node::File(t) => (msg.contains(&root.join(k).display().to_string()) || named_in(msg).map_or(false, |p| p.canonicalize().map_or(false, |p| p == root.join(k)))) && (!serde_json::from_str::<Value>(t).map_or(false, |v| v.is_object()) || t.contains("\"sideEffects\": 3")),
                _ => false,
            }),
            _ => false,
        };
        if a.out().as_ref() != Some(&want) && !broken_on_the_way {
            rep.fail(format!("resolve({b:?}, {q:?}) gave {} but the rules give {}", a.show(root), exec::show_out(&want, root)));
            return;
        }
        let msg = match &a {
            Act::Err(e) => e,
            _ => continue,
        };
        rep.nontriv(&format!("{key}|{b}|{q}"));
        let used = m.used.borrow();
        let named = q.contains("T0") || b.contains("T0") || c.world.nodes.keys().any(|k| k.contains("T0"));
        if msg.trim().is_empty() || msg == "T0" || msg.contains("T0") && !named {
            rep.fail(format!("resolve({b:?}, {q:?}) failed with the internal message {msg:?}"));
            return;
        }
        if let Some(p) = m.broken.borrow().as_ref() {
            rep.class("broken description file");
            let direct = !rewriting.iter().any(|x| used.contains(x)) && !c.opts.prefer_relative;
            if direct && m.hard_by_desc.get() && !msg.contains(&p.display().to_string()) {
                rep.fail(format!("resolve({b:?}, {q:?}) failed because of {} but the message does not name it: {}", p.display(), a.show(root)));
                return;
            }
            continue;
        }
        if !rewriting.iter().any(|x| used.contains(x)) && !c.opts.prefer_relative {
            if broken_on_the_way {
                rep.class("broken description file on the way");
                continue;
            }
            rep.class("plain not found");
            if !msg.contains(&q) || !msg.contains(&base.display().to_string()) {
                rep.fail(format!("resolve({b:?}, {q:?}) failed with a message that does not name the request and the directory: {}", a.show(root)));
                return;
            }
        }
    }
}

/// the path a message speaks of
fn named_in(msg: &str) -> Option<PathBuf> {
    let i = msg.find('/')?;
    let rest = &msg[i..];
    let e = rest.find("package.json")? + "package.json".len();
    rest.get(..e).map(PathBuf::from)
}

// ---------------------------------------------------------------- C23
fn gen_c23(s: &mut Src) -> Case {
    let m = mixed(s, &Knobs { alias: false, ts: false, prefer: false, ..Default::default() });
    let bs = gen::bases(s, &m.w, 14);
    let mut w = m.w.clone();
    let mut reqs = vec![];
    for b in bs {
        let r = match s.below(4) {
            0 | 1 => gen::bare_request(s, &m.w, &m.f),
            2 => {
                // something that exists relative to the base, spelt without ./
                let p = gen::some_path(s, &m.w, &m.f, &b);
                p.trim_start_matches("./").to_string()
            }
            _ => m.request(s, &b),
        };
        // make both candidates exist now and then
        if s.chance(1, 6) && !model::is_rel(&r) && !r.starts_with(['/', '$']) && (!r.starts_with('#') || r[1..].find(['/', '?', '#', '*']).is_none() && r.len() > 1) {
            let n = if r.starts_with('#') { r.clone() } else { model::pkg_name(&r).to_string() };
            let p = gen::j(&b, &n);
            if s.chance(1, 2) {
                w.file(&format!("{p}.js"), "//");
            } else {
                w.file(&format!("{p}/index.js"), "//");
            }
        }
        reqs.push((b, r));
    }
    case("C23", w, m.o, reqs, Value::Null)
}
fn check_c23(c: &Case, root: &Path, rep: &mut Report) {
    let mut on = c.opts.clone();
    on.prefer_relative = true;
    let mut off = c.opts.clone();
    off.prefer_relative = false;
    let (ron, roff) = (on.build(root, None), off.build(root, None));
    let m = Model::new(&on, root);
    let key = case_key(c);
    for (b, q) in &c.reqs {
        let base = root.join(b);
        let q = subst(q, root);
        let (t, _, _) = model::split(&q);
        let a = exec::resolve(&ron, &base, &q);
        let z = exec::resolve(&roff, &base, &q);
        rep.evals += 1;
        let prefixed = t.starts_with("./") || t.starts_with("../");
        let bare = !model::is_rel(&t) && !t.starts_with(['/', '#']);
        // "./#a" would be a request for "./" with a fragment, so that the rules alone tell what the relative file is
        let internal = t.starts_with('#');
        let want = if prefixed {
            z.clone()
        } else if bare {
            let rel = exec::resolve(&roff, &base, &format!("./{q}"));
            if rel.ok() {
                rep.class("relative wins");
                rep.nontriv(&format!("{key}|{b}|{q}"));
                rel
            } else {
                if z.ok() {
                    rep.class("falls back");
                    rep.nontriv(&format!("{key}|{b}|{q}"));
                }
                z.clone()
            }
        } else if internal {
            rep.class("internal");
            a.clone()
        } else {
            rep.skipped += 1;
            continue;
        };
        if a.out() != want.out() || matches!(a, Act::Panic(_)) {
            rep.fail(format!("with prefer_relative resolve({b:?}, {q:?}) gave {} but should give {} (off: {})", a.show(root), want.show(root), z.show(root)));
            return;
        }
        let mo = m.resolve(&base, &q);
        if m.supported() && a.out().as_ref() != Some(&mo) {
            rep.fail(format!("with prefer_relative resolve({b:?}, {q:?}) gave {} but the rules give {}", a.show(root), exec::show_out(&mo, root)));
            return;
        }
    }
}

// ---------------------------------------------------------------- C24
fn gen_c24(s: &mut Src) -> Case {
    let mut m = mixed(s, &Knobs { ts: false, ..Default::default() });
    m.f.symlinks = true;
    gen::links(s, &mut m.w, &m.f);
    gen::links(s, &mut m.w, &m.f);
    // requests that go through links
    let links: Vec<String> = m.w.nodes.iter().filter(|(_, n)| matches!(n, Node::Link(_))).map(|(k, _)| k.clone()).collect();
    let mut reqs = m.requests(s, 6);
    if !links.is_empty() {
        let bs = gen::bases(s, &m.w, 8);
        for b in bs {
            let l = s.pick(&links).clone();
            let r = match s.below(6) {
                0 => gen::rel(&b, &l),
                1 => {
                    let n = gen::fname(s, &m.f);
                    format!("{}/{n}", gen::rel(&b, &l))
                }
                2 => format!("${{R}}/{l}"),
                3 if gen::below_modules(&l).is_some() => gen::below_modules(&l).unwrap().to_string(),
                4 => {
                    let p = gen::some_path(s, &m.w, &m.f, "src");
                    format!("{}/{}", gen::rel(&b, &l), p.trim_start_matches("./"))
                }
                _ => format!("{}/../{}", gen::rel(&b, &l), gen::fname(s, &m.f)),
            };
            // the link itself as base
            if s.chance(1, 4) {
                let q = gen::request(s, &m.w, &m.f, &l);
                reqs.push((l, q));
            } else {
                reqs.push((b, r));
            }
        }
    }
    case("C24", m.w, m.o, reqs, Value::Null)
}
fn check_c24(c: &Case, root: &Path, rep: &mut Report) {
    let mut on = c.opts.clone();
    on.symlinks = true;
    let mut off = c.opts.clone();
    off.symlinks = false;
    let (ron, roff) = (on.build(root, None), off.build(root, None));
    let m = Model::new(&off, root);
    let key = case_key(c);
    for (b, q) in &c.reqs {
        let base = root.join(b);
        let q = subst(q, root);
        rep.evals += 1;
        let a = exec::resolve(&ron, &base, &q);
        let z = exec::resolve(&roff, &base, &q);
        rep.class(class_of(&z));
        let ok = match (&a, &z) {
            (Act::Path { path: p, q: q1, f: f1, .. }, Act::Path { path: p2, q: q2, f: f2, .. }) => {
                if p != p2 {
                    rep.class("through a link");
                    rep.nontriv(&format!("{key}|{b}|{q}"));
                }
                q1 == q2 && f1 == f2 && std::fs::canonicalize(p2).ok().as_ref() == Some(p)
            }
            (Act::Ignored, Act::Ignored) => true,
            (Act::Err(x), Act::Err(y)) => x == y,
            _ => false,
        };
        if !ok {
            rep.fail(format!("resolve({b:?}, {q:?}) gave {} with symlinks but {} without", a.show(root), z.show(root)));
            return;
        }
        let mo = m.resolve(&base, &q);
        if !m.supported() {
            rep.skipped += 1;
        } else if z.out().as_ref() != Some(&mo) {
            rep.fail(format!("without symlinks resolve({b:?}, {q:?}) gave {} but the lexical path is {}", z.show(root), exec::show_out(&mo, root)));
            return;
        }
    }
}

// ---------------------------------------------------------------- C25
const FIELDS: &[&str] = &["ext", "enforce", "alias", "prefer_relative", "symlinks", "desc", "main_files", "main_fields", "browser", "conds", "tsconfig"];
/// the names under which Node.js (16, the version of this code's time) has its own modules
const CORE: &[&str] = &[
    "_http_agent", "_http_client", "_http_common", "_http_incoming", "_http_outgoing", "_http_server", "_stream_duplex", "_stream_passthrough",
    "_stream_readable", "_stream_transform", "_stream_wrap", "_stream_writable", "_tls_common", "_tls_wrap", "assert", "assert/strict", "async_hooks",
    "buffer", "child_process", "cluster", "console", "constants", "crypto", "dgram", "diagnostics_channel", "dns", "dns/promises", "domain", "events",
    "fs", "fs/promises", "http", "http2", "https", "inspector", "module", "net", "os", "path", "path/posix", "path/win32", "perf_hooks", "process",
    "punycode", "querystring", "readline", "repl", "stream", "stream/consumers", "stream/promises", "stream/web", "string_decoder", "sys", "timers",
    "timers/promises", "tls", "trace_events", "tty", "url", "util", "util/types", "v8", "vm", "wasi", "worker_threads", "zlib",
];
fn gen_c25(s: &mut Src) -> Case {
    let m = mixed(s, &Knobs::default());
    let all = s.chance(1, 4);
    let unset: Vec<&str> = FIELDS.iter().copied().filter(|_| all || s.chance(1, 3)).collect();
    let reqs = m.requests(s, 12);
    let mut names = vec![];
    for _ in 0..4 {
        let n = s.s(CORE);
        names.push(match s.below(6) {
            0 | 1 => n,
            2 => format!("{n}{}", s.s(&["/", "x", " ", "/promises", "/x", "?q", ",", "s"])),
            3 => format!("{}{n}", s.s(&["./", "node:", "/", "x", "_", " ", "@"])),
            4 => {
                let cs: Vec<char> = n.chars().collect();
                let i = s.below(cs.len());
                match s.below(3) {
                    0 => cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect(),
                    1 => n.to_uppercase(),
                    _ => cs.iter().enumerate().flat_map(|(j, c)| if i == j { vec![*c, *c] } else { vec![*c] }).collect(),
                }
            }
            _ => gen::pname(s, &m.f),
        });
    }
    let mut paths = vec![];
    for _ in 0..4 {
        let n = s.range(0, 8);
        let segs: Vec<String> = (0..n).map(|_| s.s(&["a", "b.c", ".", "..", "", "...", "é", ".a", "a b", "\\", "a.."])).collect();
        let lead = s.s(&["/", "/", "//", "/./", "/../", "/x/"]);
        paths.push(format!("{lead}{}", segs.join("/")));
    }
    case("C25", m.w, m.o, reqs, json!({ "unset": unset, "names": names, "paths": paths }))
}
fn check_c25(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    let list = |k: &str| -> Vec<String> { c.extra[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default() };
    let unset = list("unset");
    // the documented default, written out, and the same option left alone
    let d = Opts::default();
    let mut o = c.opts.clone();
    for u in &unset {
        match &u[..] {
            "ext" => o.ext = d.ext.clone(),
            "enforce" => o.enforce = None,
            "alias" => o.alias = vec![],
            "prefer_relative" => o.prefer_relative = false,
            "symlinks" => o.symlinks = true,
            "desc" => o.desc = d.desc.clone(),
            "main_files" => o.main_files = d.main_files.clone(),
            "main_fields" => o.main_fields = d.main_fields.clone(),
            "browser" => o.browser = false,
            "conds" => o.conds = d.conds.clone(),
            _ => o.tsconfig = None,
        }
    }
    let written = o.build(root, None);
    let mut given = nodejs_resolver::ResolverOptions::default();
    let full = o.build(root, None).options;
    for u in FIELDS.iter().filter(|u| !unset.iter().any(|x| x == *u)) {
        match *u {
            "ext" => given.extensions = full.extensions.clone(),
            "enforce" => given.enforce_extension = o.enforce,
            "alias" => given.alias = full.alias.clone(),
            "prefer_relative" => given.prefer_relative = full.prefer_relative,
            "symlinks" => given.symlinks = full.symlinks,
            "desc" => given.description_file = full.description_file.clone(),
            "main_files" => given.main_files = full.main_files.clone(),
            "main_fields" => given.main_fields = full.main_fields.clone(),
            "browser" => given.browser_field = full.browser_field,
            "conds" => given.condition_names = full.condition_names.clone(),
            _ => given.tsconfig = full.tsconfig.clone(),
        }
    }
    let left = nodejs_resolver::Resolver::new(given);
    let implied = if unset.len() == FIELDS.len() { Some(nodejs_resolver::Resolver::default()) } else { None };
    for (b, q) in &c.reqs {
        let base = root.join(b);
        let q = subst(q, root);
        rep.evals += 1;
        let want = exec::resolve(&written, &base, &q);
        let a = exec::resolve(&left, &base, &q);
        rep.class(class_of(&a));
        if !unset.is_empty() && a.ok() {
            rep.nontriv(&format!("{key}|{b}|{q}"));
        }
        if a != want {
            rep.fail(format!("resolve({b:?}, {q:?}) gave {} with {unset:?} unset but {} with their documented defaults", a.show(root), want.show(root)));
            return;
        }
        if let Some(r) = &implied {
            rep.class("Resolver::default()");
            let a = exec::resolve(r, &base, &q);
            if a != want {
                rep.fail(format!("resolve({b:?}, {q:?}) of Resolver::default() gave {} but {} with the documented defaults", a.show(root), want.show(root)));
                return;
            }
        }
    }
    for n in list("names") {
        rep.evals += 1;
        let is = nodejs_resolver::Resolver::is_build_in_module(&n);
        rep.class(if is { "core module" } else { "not a core module" });
        if is != CORE.contains(&&n[..]) {
            rep.fail(format!("is_build_in_module({n:?}) is {is}"));
            return;
        }
    }
    for p in list("paths") {
        rep.evals += 1;
        let got = nodejs_resolver::Resolver::normalize_path_without_link(Path::new(&p));
        // segment by segment
        let mut want: Vec<&str> = vec![];
        for seg in p.split('/') {
            match seg {
                "" | "." => {}
                ".." => {
                    want.pop();
                }
                x => want.push(x),
            }
        }
        let want = format!("/{}", want.join("/"));
        if got.to_str() != Some(&want[..]) {
            rep.fail(format!("normalize_path_without_link({p:?}) is {got:?} and not {want:?}"));
            return;
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", gen: gen_c01, check: check_c01, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "a random tree with all features x random options x 14 requests; non-trivial = the request succeeded with a path, which is then checked against the file system and resolved again" },
        Prop { id: "C02", gen: gen_c02, check: check_c02, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "each request is resolved with and without a random query/fragment; non-trivial = the decorated request succeeded" },
        Prop { id: "C07", gen: gen_c07, check: check_c07, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "random packages with (also hostile) exports maps and nested description files x 14 requests with dot segments, repeated slashes, queries; non-trivial = a package with exports guards the request" },
        Prop { id: "C18", gen: gen_c18, check: check_c18, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "random trees with sideEffects of every JSON type x 16 paths compared with a direct walk; non-trivial = a description file applies" },
        Prop { id: "C19", gen: gen_c19, check: check_c19, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "a random order with repetitions of 13 requests on one resolver, each compared with a new resolver (messages included); non-trivial = the request had predecessors; distinct = distinct request histories" },
        Prop { id: "C20", gen: gen_c20, check: check_c20, quick: 40_000, thorough: 3_000_000, materialize: false,
            rule: "the same tree with renamed (or disabled and altered) description files and decoys; non-trivial = rename: the request succeeded; none: always" },
        Prop { id: "C21", gen: gen_c21, check: check_c21, quick: 40_000, thorough: 3_000_000, materialize: false,
            rule: "the same tree at an unusual location, or with every name replaced; non-trivial = the request succeeded" },
        Prop { id: "C22", gen: gen_c22, check: check_c22, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "random requests, a third of them to nothing, and broken description files; non-trivial = the request failed and its message was judged" },
        Prop { id: "C23", gen: gen_c23, check: check_c23, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "each request with prefer_relative on, off, and as a relative request; non-trivial = a bare request for which one of them succeeded" },
        Prop { id: "C24", gen: gen_c24, check: check_c24, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "each request with symlinks on and off on trees full of links; non-trivial = the two paths differ" },
        Prop { id: "C25", gen: gen_c25, check: check_c25, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "each request on a resolver that leaves a random set of options alone (all of them in a quarter of the cases) and on one that writes their documented defaults out, plus names and paths for the public helpers; non-trivial = the request succeeded and some option was left alone" },
    ]
}
