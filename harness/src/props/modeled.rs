//! Properties decided by comparison with the reference model.
use super::*;
use crate::gen::{self, Flavor};
use crate::world::{Opts, World};
use serde_json::{json, Map, Value};

fn case(prop: &str, world: World, opts: Opts, reqs: Vec<(String, String)>) -> Case {
    Case { prop: prop.into(), world, opts, reqs, extra: Value::Null }
}

fn check_with(c: &Case, root: &Path, rep: &mut Report, interesting: &[&str]) {
    let r = c.opts.build(root, None);
    let m = Model::new(&c.opts, root);
    let key = case_key(c);
    for (b, q) in &c.reqs {
        against_model(&r, &m, root, b, q, &key, interesting, rep);
        if rep.violation.is_some() {
            return;
        }
    }
}

fn reqs_with(s: &mut Src, w: &World, n: usize, mut g: impl FnMut(&mut Src, &str) -> String) -> Vec<(String, String)> {
    let bs = gen::bases(s, w, n);
    bs.into_iter()
        .map(|b| {
            let q = g(s, &b);
            (b, q)
        })
        .collect()
}

// ---------------------------------------------------------------- C03
fn gen_c03(s: &mut Src) -> Case {
    let f = Flavor { modules: false, pkg_in_dirs: s.chance(1, 3), symlinks: s.chance(1, 3), unicode: s.chance(1, 4), ..Default::default() };
    let mut w = gen::world(s, &f);
    // extra collisions: same stem as file and directory, several extensions
    let n = s.below(4);
    for _ in 0..n {
        let ds = w.all_dirs();
        let d = s.pick(&ds).clone();
        let st = gen::stem(s, &f);
        let k = s.range(1, 3);
        for _ in 0..k {
            let e = gen::ext(s);
            w.file(&gen::j(&d, &format!("{st}{e}")), "//");
        }
        if s.chance(1, 2) {
            let p = gen::j(&d, &st);
            let nm = s.s(&["index.js", "main.js", "index.ts", "a.json"]);
            w.file(&gen::j(&p, &nm), "//");
        }
    }
    let mut o = Opts::default();
    gen::opts_paths(s, &mut o);
    o.symlinks = !s.chance(1, 3);
    let reqs = reqs_with(s, &w, 14, |s, b| gen::path_request(s, &w, &f, b));
    case("C03", w, o, reqs)
}
fn check_c03(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["ext-first", "ext-later", "directory"]);
    if rep.violation.is_some() {
        return;
    }
    // relative == the absolute path it denotes
    let r = c.opts.build(root, None);
    for (b, q) in &c.reqs {
        if q.starts_with("${R}") || !crate::model::is_rel(q) || q.is_empty() {
            continue;
        }
        let base = root.join(b);
        let mut abs = crate::model::lex(&base.join(q)).to_string_lossy().to_string();
        if crate::model::dir_only(q) {
            abs.push('/');
        }
        let a1 = exec::resolve(&r, &base, q);
        let a2 = exec::resolve(&r, root, &abs);
        rep.evals += 1;
        if a1.ok() {
            rep.class("relative=absolute");
        }
        if a1.out() != a2.out() {
            rep.fail(format!("resolve({b:?}, {q:?}) gave {} but the absolute path it denotes gave {}", a1.show(root), a2.show(root)));
            return;
        }
    }
}

// ---------------------------------------------------------------- C04
fn gen_c04(s: &mut Src) -> Case {
    let f = Flavor { modules: s.chance(1, 4), pkg_in_dirs: true, symlinks: s.chance(1, 6), unicode: s.chance(1, 6), ..Default::default() };
    let mut w = gen::world(s, &f);
    let ds: Vec<String> = w.all_dirs().into_iter().filter(|d| gen::last_segment(d) != "node_modules").collect();
    let n = s.range(1, 4);
    for _ in 0..n {
        let d = s.pick(&ds).clone();
        let v = gen::plain_pkg(s, &w, &f, &d);
        w.file(&gen::j(&d, "package.json"), &v.to_string());
        if s.chance(1, 2) {
            let mf = s.s(&["index.js", "main.js", "index.json", "a.js", "lib/index.js", "lib.js", "b.ts"]);
            w.file(&gen::j(&d, &mf), "//");
        }
    }
    let mut o = Opts::default();
    if s.chance(1, 2) {
        o.ext = gen::extensions(s);
    }
    if s.chance(2, 3) {
        o.main_files = gen::main_files(s);
    }
    if s.chance(2, 3) {
        o.main_fields = gen::main_fields(s);
    }
    let dirs = w.all_dirs();
    let reqs = reqs_with(s, &w, 12, |s, b| {
        let d = s.pick(&dirs).clone();
        let r = if s.chance(1, 8) { format!("${{R}}/{d}") } else { gen::rel(b, &d) };
        match s.below(4) {
            0 => format!("{r}/"),
            _ => r,
        }
    });
    case("C04", w, o, reqs)
}
fn check_c04(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["main-field", "main-field-later", "main-field-dangling", "main-file", "main-file-later"]);
}

// ---------------------------------------------------------------- C05
fn gen_c05(s: &mut Src) -> Case {
    let f = Flavor { symlinks: s.chance(1, 3), unicode: s.chance(1, 4), mains: s.chance(1, 2), own_modules: s.chance(1, 2), ..Default::default() };
    let mut w = gen::world(s, &f);
    // deeper nesting with the same few names at several levels
    let chain = ["packages", "packages/p", "packages/p/src", "packages/p/src/deep", "src/a"];
    let names: Vec<String> = (0..2).map(|_| gen::pname(s, &f)).collect();
    for d in chain {
        if s.chance(1, 2) && w.parent_ok(d) && !w.nodes.contains_key(d) {
            let n = s.range(1, 2);
            for _ in 0..n {
                let name = s.pick(&names).clone();
                let p = format!("{d}/node_modules/{name}");
                match s.below(5) {
                    0 => {
                        w.dir(&p);
                    }
                    1 => {
                        w.file(&format!("{p}.js"), "//");
                    }
                    2 => {
                        w.file(&format!("{p}/only.js"), "//");
                    }
                    3 => {
                        w.file(&format!("{p}/index.js"), "//");
                        w.file(&format!("{p}/lib/a.js"), "//");
                    }
                    _ => {
                        if !w.exists(&p) && w.parent_ok(&p) {
                            gen::package(s, &mut w, &f, &p, &name);
                        }
                    }
                }
            }
            w.dir(&format!("{d}/deep"));
        }
    }
    let mut o = Opts::default();
    if s.chance(1, 3) {
        gen::opts_paths(s, &mut o);
    }
    o.symlinks = !s.chance(1, 4);
    let reqs = reqs_with(s, &w, 12, |s, _| {
        if s.chance(1, 3) {
            let n = s.pick(&names).clone();
            match s.below(5) {
                0 | 1 => n,
                2 => format!("{n}/only"),
                3 => format!("{n}/lib/a"),
                _ => format!("{n}/lib"),
            }
        } else {
            gen::bare_request(s, &w, &f)
        }
    });
    case("C05", w, o, reqs)
}
fn check_c05(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["package", "outer-level", "level-skipped"]);
}

// ---------------------------------------------------------------- C06
fn gen_c06(s: &mut Src) -> Case {
    let f = Flavor { exports: true, unicode: s.chance(1, 3), mains: s.chance(1, 4), pkg_in_dirs: s.chance(1, 2), queries: s.chance(1, 4), ..Default::default() };
    let mut w = gen::world(s, &f);
    // make targets of patterns exist more often
    enrich_targets(s, &mut w, &f);
    let mut o = Opts::default();
    gen::opts_maps(s, &mut o);
    let reqs = reqs_with(s, &w, 14, |s, b| {
        let r = if s.chance(1, 6) {
            gen::self_request(s, &w, &f, b).unwrap_or_else(|| gen::bare_request(s, &w, &f))
        } else {
            gen::bare_request(s, &w, &f)
        };
        if f.queries && s.chance(1, 3) {
            let q = gen::query(s);
            format!("{r}{q}")
        } else {
            r
        }
    });
    case("C06", w, o, reqs)
}
/// create files that pattern/folder targets denote for short remainders
pub fn enrich_targets(s: &mut Src, w: &mut World, f: &Flavor) {
    fn strings(v: &Value, out: &mut Vec<String>) {
        match v {
            Value::String(x) => out.push(x.clone()),
            Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
            Value::Object(m) => m.values().for_each(|x| strings(x, out)),
            _ => {}
        }
    }
    for d in w.all_dirs() {
        if let Some(v) = gen::pkg_json_of(w, &d) {
            let mut t = vec![];
            if let Some(e) = v.get("exports") {
                strings(e, &mut t);
            }
            if let Some(e) = v.get("imports") {
                strings(e, &mut t);
            }
            for x in t {
                if !x.starts_with("./") || x.contains("..") || x.contains("//") {
                    continue;
                }
                if s.chance(1, 2) {
                    let st = if s.chance(1, 2) { gen::stem(s, f) } else { gen::fname(s, f) };
                    let p = if x.ends_with('/') { format!("{x}{st}") } else if s.chance(1, 8) { x.clone() } else { x.replace('*', &st) };
                    let p = gen::j(&d, &p[2..]);
                    if !p.ends_with('/') && !p.split('/').any(|x| x.is_empty() || x == ".") {
                        w.file(&p, "//");
                    }
                }
            }
        }
    }
}
fn check_c06(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["exports"]);
}

// ---------------------------------------------------------------- C08
fn gen_c08(s: &mut Src) -> Case {
    let f = Flavor {
        imports: true,
        exports: s.chance(1, 2),
        unicode: s.chance(1, 4),
        mains: s.chance(1, 3),
        queries: s.chance(1, 5),
        pkg_in_dirs: s.chance(1, 3),
        ..Default::default()
    };
    let mut w = gen::world(s, &f);
    for d in ["", "packages/p", "src"] {
        if w.is_dir(d) && s.chance(1, 2) {
            let mut m = Map::new();
            m.insert("imports".into(), gen::imports_value(s, &w, &f, d));
            w.file(&gen::j(d, "package.json"), &Value::Object(m).to_string());
        }
    }
    enrich_targets(s, &mut w, &f);
    let mut o = Opts::default();
    gen::opts_maps(s, &mut o);
    let reqs = reqs_with(s, &w, 14, |s, b| {
        let r = gen::imports_request(s, &w, &f, b);
        if f.queries && s.chance(1, 3) {
            let q = gen::query(s);
            let fr = if s.chance(1, 2) { gen::fragment(s) } else { String::new() };
            format!("{r}{q}{fr}")
        } else {
            r
        }
    });
    case("C08", w, o, reqs)
}
fn check_c08(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["imports"]);
}

// ---------------------------------------------------------------- C09
fn gen_c09(s: &mut Src) -> Case {
    let f = Flavor { mains: s.chance(1, 3), unicode: s.chance(1, 6), exports: s.chance(1, 5), queries: s.chance(1, 5), own_modules: s.chance(1, 8), ..Default::default() };
    let w = gen::world(s, &f);
    let mut o = Opts::default();
    o.alias = gen::alias(s, &w, &f);
    if s.chance(1, 5) {
        o.prefer_relative = true;
    }
    if f.exports {
        gen::opts_maps(s, &mut o);
    } else if s.chance(1, 3) {
        gen::opts_paths(s, &mut o);
    }
    let al = o.alias.clone();
    let reqs = reqs_with(s, &w, 12, |s, b| {
        let r = if s.chance(3, 4) { gen::alias_request(s, &w, &f, &al) } else { gen::request(s, &w, &f, b) };
        if f.queries && s.chance(1, 3) && !r.contains('?') {
            let q = gen::query(s);
            format!("{r}{q}")
        } else {
            r
        }
    });
    case("C09", w, o, reqs)
}
fn check_c09(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["alias", "alias-ignored", "alias-fallback", "alias-skipped-in-node_modules"]);
}

// ---------------------------------------------------------------- C10
fn gen_c10(s: &mut Src) -> Case {
    let f = Flavor { browser: true, mains: s.chance(2, 3), exports: s.chance(1, 6), unicode: s.chance(1, 6), ..Default::default() };
    let mut w = gen::world(s, &f);
    for d in ["", "packages/p", "src"] {
        if w.is_dir(d) && s.chance(1, 2) {
            let mut v = gen::plain_pkg(s, &w, &f, d);
            v.as_object_mut().unwrap().insert("browser".into(), gen::browser_value(s, &w, &f, d));
            w.file(&gen::j(d, "package.json"), &v.to_string());
        }
    }
    let mut o = Opts::default();
    o.browser = !s.chance(1, 8);
    if f.exports {
        gen::opts_maps(s, &mut o);
    } else if s.chance(1, 3) {
        gen::opts_paths(s, &mut o);
    }
    let reqs = reqs_with(s, &w, 12, |s, b| {
        // requests derived from the map's keys
        if s.chance(2, 3) {
            let pj: Vec<String> = w.all_dirs().into_iter().filter(|d| gen::pkg_json_of(&w, d).map_or(false, |v| v.get("browser").map_or(false, |b| b.is_object()))).collect();
            if !pj.is_empty() {
                let d = s.pick(&pj).clone();
                let v = gen::pkg_json_of(&w, &d).unwrap();
                let keys: Vec<String> = v["browser"].as_object().unwrap().keys().cloned().collect();
                if !keys.is_empty() {
                    let k = s.pick(&keys).clone();
                    let path = gen::j(&d, k.trim_start_matches("./"));
                    let path = if s.chance(1, 2) {
                        match path.rfind('.') {
                            Some(i) if i > path.rfind('/').map_or(0, |x| x + 1) => path[..i].to_string(),
                            _ => path,
                        }
                    } else {
                        path
                    };
                    return match s.below(5) {
                        0 => k,
                        1 if gen::below_modules(&path).is_some() => gen::below_modules(&path).unwrap().to_string(),
                        2 => format!("${{R}}/{path}"),
                        _ => gen::rel(b, &path),
                    };
                }
            }
        }
        gen::request(s, &w, &f, b)
    });
    let mut c = case("C10", w, o, reqs);
    c.extra = json!({});
    c
}
fn check_c10(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["browser-module", "browser-path", "browser-ignored"]);
    if rep.violation.is_some() || c.opts.browser {
        return;
    }
    // off: same answers as with every browser map removed (only string-valued browser fields can matter, as main fields)
    rep.class("option off");
    let key = case_key(c);
    for (b, q) in &c.reqs {
        rep.nontriv(&format!("{key}|off|{b}|{q}"));
    }
}

// ---------------------------------------------------------------- C11
fn decorate(s: &mut Src, v: &Value) -> String {
    let t = serde_json::to_string_pretty(v).unwrap();
    if !s.chance(1, 2) {
        return t;
    }
    let mut out = String::from("// tsconfig \" { comment\n");
    for line in t.lines() {
        out.push_str(line);
        match s.below(8) {
            0 => out.push_str(" // c"),
            1 => out.push_str(" /* \"x\": [, */"),
            _ => {}
        }
        out.push('\n');
    }
    if s.chance(1, 2) {
        // trailing comma before the last closing brace
        if let Some(i) = out.rfind('}') {
            let before = out[..i].trim_end();
            if before.ends_with('}') || before.ends_with(']') || before.ends_with('"') {
                let b = before.len();
                out.insert(b, ',');
            }
        }
    }
    out
}
fn ts_paths(s: &mut Src, w: &World, f: &Flavor) -> Value {
    let mut m = Map::new();
    let n = s.range(1, 5);
    for _ in 0..n {
        let st = gen::stem(s, f);
        let pk = gen::pname(s, f);
        let k = match s.below(10) {
            0 => "*".to_string(),
            1 => format!("{st}/*"),
            2 => "@/*".into(),
            3 => format!("{pk}/*"),
            4 => pk.clone(),
            5 => format!("{}*", &pk[..pk.char_indices().nth(2).map_or(pk.len(), |x| x.0)]),
            6 => "lib/*/x".into(),
            7 => "*/a".into(),
            8 => format!("{pk}/lib/*"),
            _ => st.clone(),
        };
        let n = s.range(1, 3);
        let mut a = vec![];
        for _ in 0..n {
            let t = match s.below(6) {
                0 => "*".to_string(),
                1 => "src/*".into(),
                2 => "./lib/*".into(),
                3 => {
                    let d = gen::dname(s, f);
                    format!("{d}/*")
                }
                4 => gen::some_path(s, w, f, ""),
                _ => s.s(&["missing/*", "../*", "src/*/index", "*.ts", "packages/p/*"]),
            };
            a.push(json!(t));
        }
        gen::pad(s, &mut a, |s, i| if s.chance(1, 2) { json!(format!("zz{i}/*")) } else { json!(format!("./zz{i}")) });
        m.insert(k, Value::Array(a));
    }
    Value::Object(gen::pad_map(s, m, |_, i| (format!("zz{i}/*"), json!(["zz/*"]))))
}
/// writes tsconfig.json (and the files it extends)
pub fn add_tsconfig(s: &mut Src, w: &mut World, f: &Flavor) {
    let mut co = Map::new();
    if s.chance(4, 5) {
        let b = s.s(&[".", "./", "src", "./src", "packages/p", "..", "lib"]);
        co.insert("baseUrl".into(), json!(b));
    }
    if s.chance(7, 8) {
        co.insert("paths".into(), ts_paths(s, w, f));
    }
    let mut v = Map::new();
    let depth = s.below(3);
    if depth > 0 {
        let dirs = ["", "conf", "packages", "src"];
        let d1 = s.pick(&dirs).to_string();
        v.insert("extends".into(), json!(gen::rel("", &gen::j(&d1, "tsconfig.base.json"))));
        let mut bco = Map::new();
        if s.chance(3, 4) {
            let b = s.s(&[".", "./src", "..", "../src", "lib"]);
            bco.insert("baseUrl".into(), json!(b));
        }
        if s.chance(3, 4) {
            bco.insert("paths".into(), ts_paths(s, w, f));
        }
        let mut b = Map::new();
        b.insert("compilerOptions".into(), Value::Object(bco));
        if depth > 1 {
            b.insert("extends".into(), json!(gen::rel(&d1, "conf2/root.json")));
            let mut rco = Map::new();
            rco.insert("baseUrl".into(), json!(".."));
            if s.chance(1, 2) {
                rco.insert("paths".into(), ts_paths(s, w, f));
            }
            let mut rv = Map::from_iter([("compilerOptions".to_string(), Value::Object(rco))]);
            if s.chance(1, 3) {
                // a longer chain
                let n = if s.chance(1, 2) { s.range(1, 4) } else { crate::dict::int(s, 24) };
                for i in 0..n {
                    let mut m = Map::new();
                    if i + 1 < n {
                        m.insert("extends".into(), json!(format!("./more{}.json", i + 1)));
                    }
                    let mut c = Map::new();
                    if s.chance(1, 6) {
                        let b = s.s(&["..", "../src", "../lib"]);
                        c.insert("baseUrl".into(), json!(b));
                    }
                    if i + 1 == n && s.chance(4, 5) || s.chance(1, 6) {
                        c.insert("paths".into(), ts_paths(s, w, f));
                    }
                    if !c.is_empty() {
                        m.insert("compilerOptions".into(), Value::Object(c));
                    }
                    let t = decorate(s, &Value::Object(m));
                    w.file(&format!("conf2/more{i}.json"), &t);
                }
                rv.insert("extends".into(), json!("./more0.json"));
                if s.chance(2, 3) {
                    rv.shift_remove("compilerOptions");
                }
            }
            let t = decorate(s, &Value::Object(rv));
            w.file("conf2/root.json", &t);
        }
        let t = decorate(s, &Value::Object(b));
        w.file(&gen::j(&d1, "tsconfig.base.json"), &t);
    }
    if !co.is_empty() || s.chance(1, 2) {
        v.insert("compilerOptions".into(), Value::Object(co));
    }
    let vv = Value::Object(v);
    let t = decorate(s, &vv);
    w.file("tsconfig.json", &t);
}
/// a request built from the patterns of the tree's tsconfig files
pub fn ts_request(s: &mut Src, w: &World, f: &Flavor) -> String {
    let pats: Vec<String> = w
        .nodes
        .values()
        .filter_map(|n| if let crate::world::Node::File(c) = n { Some(c) } else { None })
        .filter(|c| c.contains("\"paths\""))
        .filter_map(|c| serde_json::from_str::<Value>(&crate::model::strip_jsonc(c)).ok())
        .flat_map(|v| v["compilerOptions"]["paths"].as_object().map(|m| m.keys().cloned().collect::<Vec<_>>()).unwrap_or_default())
        .collect();
    if pats.is_empty() {
        return gen::bare_request(s, w, f);
    }
    let p = s.pick(&pats).clone();
    let fill = match s.below(3) {
        0 => gen::stem(s, f),
        1 => gen::some_path(s, w, f, ""),
        _ => gen::some_path(s, w, f, "src"),
    };
    p.replacen('*', &fill, 1)
}
fn gen_c11(s: &mut Src) -> Case {
    let f = Flavor { mains: s.chance(1, 3), unicode: s.chance(1, 4), queries: s.chance(1, 5), ..Default::default() };
    let mut w = gen::world(s, &f);
    add_tsconfig(s, &mut w, &f);
    let mut o = Opts { tsconfig: Some("tsconfig.json".into()), ..Default::default() };
    if s.chance(1, 2) {
        o.ext = gen::extensions(s);
    }
    if s.chance(1, 6) {
        o.prefer_relative = true;
    }
    if s.chance(1, 5) {
        // what a pattern leads to may be mapped once more
        o.browser = true;
        let d = s.s(&["", "src", "packages/p"]);
        if w.is_dir(&d) {
            let mut v = gen::plain_pkg(s, &w, &f, &d);
            v["browser"] = gen::browser_value(s, &w, &f, &d);
            w.file(&gen::j(&d, "package.json"), &v.to_string());
        }
    }
    let reqs = reqs_with(s, &w, 12, |s, b| {
        let r = if s.chance(3, 4) { ts_request(s, &w, &f) } else { gen::request(s, &w, &f, b) };
        if f.queries && s.chance(1, 3) && !r.contains(['?', '#']) {
            let q = gen::query(s);
            format!("{r}{q}")
        } else {
            r
        }
    });
    case("C11", w, o, reqs)
}
fn check_c11(c: &Case, root: &Path, rep: &mut Report) {
    check_with(c, root, rep, &["tsconfig"]);
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C03", gen: gen_c03, check: check_c03, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "a random tree x options x 14 path requests; each request is compared with the reference model and with the absolute path it denotes; non-trivial = an extension or directory candidate took part" },
        Prop { id: "C04", gen: gen_c04, check: check_c04, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "a random tree with description files x main_fields/main_files x 12 directory requests compared with the reference model; non-trivial = a main field or main file was consulted" },
        Prop { id: "C05", gen: gen_c05, check: check_c05, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "a random tree with several node_modules levels x 12 bare requests compared with the reference model; non-trivial = a package directory took part or a level was skipped" },
        Prop { id: "C06", gen: gen_c06, check: check_c06, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "random exports maps (overlapping keys, nested conditions, arrays, null) x condition sets x 14 bare requests built from the keys, compared with the reference model; non-trivial = an exports map decided" },
        Prop { id: "C08", gen: gen_c08, check: check_c08, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "random imports maps x condition sets x 14 '#' requests built from the keys, compared with the reference model; non-trivial = an imports map decided" },
        Prop { id: "C09", gen: gen_c09, check: check_c09, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "random alias lists (chains, ignored, fallbacks) x 12 requests built from the keys, compared with the reference model; non-trivial = an alias matched" },
        Prop { id: "C10", gen: gen_c10, check: check_c10, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "random browser maps in project, packages and nested directories x 12 requests built from the keys, compared with the reference model; non-trivial = a browser entry decided, or the option is off" },
        Prop { id: "C11", gen: gen_c11, check: check_c11, quick: 60_000, thorough: 4_000_000, materialize: true,
            rule: "random tsconfig paths/baseUrl/extends chains (with comments and trailing commas) x 12 requests built from the patterns, compared with the reference model; non-trivial = a pattern matched" },
    ]
}
