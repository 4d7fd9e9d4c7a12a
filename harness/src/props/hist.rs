//! Properties over histories: file-system edits, shared caches.
use super::mixed::{self, class_of, Knobs};
use super::*;
use crate::gen::{self, Flavor};
use crate::world::{subst, Node, Opts, World};
use nodejs_resolver::ResolverCache;
use serde_json::{json, Map, Value};
use std::sync::Arc;

const T0: i64 = 1_600_000_000;

/// the time `t` milliseconds after the epoch of the histories
fn set_mtime(p: &Path, t: i64) {
    use std::os::unix::ffi::OsStrExt;
    if let Ok(c) = std::ffi::CString::new(p.as_os_str().as_bytes()) {
        let one = libc::timespec { tv_sec: T0 + t.div_euclid(1000), tv_nsec: t.rem_euclid(1000) * 1_000_000 };
        let ts = [one, one];
        unsafe {
            libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0);
        }
    }
}

/// one edit; never touches anything outside `root` (paths are relative and have no `..`)
pub fn apply(step: &Value, root: &Path) {
    let safe = |v: &Value| -> Option<std::path::PathBuf> {
        let s = v.as_str()?;
        if s.is_empty() || s.starts_with('/') || s.split('/').any(|x| x == ".." || x.is_empty()) {
            return None;
        }
        // no ancestor may be a link that leads out
        let mut p = root.to_path_buf();
        let segs: Vec<&str> = s.split('/').collect();
        for x in &segs[..segs.len() - 1] {
            p.push(x);
            if std::fs::symlink_metadata(&p).map_or(false, |m| m.file_type().is_symlink()) {
                return None;
            }
        }
        Some(root.join(s))
    };
    let rm = |p: &Path| {
        if let Ok(m) = std::fs::symlink_metadata(p) {
            if m.is_dir() {
                let _ = std::fs::remove_dir_all(p);
            } else {
                let _ = std::fs::remove_file(p);
            }
        }
    };
    let p = match safe(&step["path"]) {
        Some(p) => p,
        None => return,
    };
    let t = step["t"].as_i64().unwrap_or(0);
    match step["op"].as_str().unwrap_or("") {
        "write" => {
            if let Some(d) = p.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            if std::fs::symlink_metadata(&p).map_or(false, |m| !m.is_file()) {
                rm(&p);
            }
            let text = subst(step["text"].as_str().unwrap_or(""), root);
            if step["atomic"] == true {
                // a new file put in the place of the old one
                let tmp = p.with_file_name(".tmp-new");
                if std::fs::write(&tmp, &text).is_ok() {
                    set_mtime(&tmp, t);
                    let _ = std::fs::rename(&tmp, &p);
                }
            } else if std::fs::write(&p, &text).is_ok() {
                set_mtime(&p, t);
            }
        }
        "rm" => rm(&p),
        "mkdir" => {
            let _ = std::fs::create_dir_all(&p);
        }
        "touch" => {
            if p.is_file() {
                set_mtime(&p, t);
            }
        }
        "mv" => {
            if let Some(to) = safe(&step["to"]) {
                if !to.starts_with(&p) && !p.starts_with(&to) {
                    rm(&to);
                    if let Some(d) = to.parent() {
                        let _ = std::fs::create_dir_all(d);
                    }
                    let _ = std::fs::rename(&p, &to);
                }
            }
        }
        "swap" => {
            if let Some(to) = safe(&step["to"]) {
                if !to.starts_with(&p) && !p.starts_with(&to) && p.exists() && to.exists() {
                    let tmp = root.join(".swap");
                    let _ = std::fs::rename(&p, &tmp);
                    let _ = std::fs::rename(&to, &p);
                    let _ = std::fs::rename(&tmp, &to);
                }
            }
        }
        "link" => {
            rm(&p);
            if let Some(d) = p.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let _ = std::os::unix::fs::symlink(subst(step["to"].as_str().unwrap_or("x"), root), &p);
        }
        _ => {}
    }
}

/// every description file of the tree gets a time of its own
pub fn settle_times(w: &World, root: &Path, unit: &Value) {
    let u = unit.as_i64().unwrap_or(10_000);
    let mut t = -42;
    for (k, n) in &w.nodes {
        if matches!(n, Node::File(_)) && k.ends_with(".json") {
            set_mtime(&root.join(k), u * t);
            t -= 1;
        }
    }
}

fn pkg_text(s: &mut Src, w: &World, f: &Flavor, d: &str) -> String {
    if s.chance(1, 8) {
        return s.s(&["{", "", "[1", "{\"exports\":{\"./a\":\"/x\"}}", "{\"imports\":5}", "{\"sideEffects\":1}", "nonsense", "{\"name\":1,\"main\":{}}"]);
    }
    let mut v = gen::plain_pkg(s, w, f, d);
    let m = v.as_object_mut().unwrap();
    if f.exports && s.chance(1, 2) {
        let x = gen::exports_value(s, w, f, d);
        m.insert("exports".into(), x);
    }
    if f.imports && s.chance(1, 2) {
        let x = gen::imports_value(s, w, f, d);
        m.insert("imports".into(), x);
    }
    if f.browser && s.chance(1, 2) {
        let x = gen::browser_value(s, w, f, d);
        m.insert("browser".into(), x);
    }
    if s.chance(1, 3) {
        let x = gen::side_effects_value(s);
        m.insert("sideEffects".into(), x);
    }
    v.to_string()
}

fn dir_of(p: &str) -> String {
    p.rfind('/').map_or(String::new(), |i| p[..i].to_string())
}
/// an edit and the tree as the generator sees it afterwards (approximate around links)
pub fn edit(s: &mut Src, w: &mut World, f: &Flavor, desc: &str, times: &mut Vec<i64>) -> Value {
    let t = times.pop().unwrap_or(0);
    let descs: Vec<String> = w.nodes.keys().filter(|k| *k == desc || k.ends_with(&format!("/{desc}"))).cloned().collect();
    let dirs = w.all_dirs();
    fn remove(w: &mut World, p: &str) {
        w.nodes.remove(p);
        let pre = format!("{p}/");
        w.nodes.retain(|k, _| !k.starts_with(&pre));
    }
    match s.weighted(&[8, 3, 4, 2, 2, 1, 2, 1, 2]) {
        0 if !descs.is_empty() => {
            let p = s.pick(&descs).clone();
            let text = pkg_text(s, w, f, &dir_of(&p));
            remove(w, &p);
            w.file(&p, &text);
            json!({"op": "write", "path": p, "text": text, "t": t, "atomic": s.chance(1, 3)})
        }
        1 if !descs.is_empty() => {
            let p = s.pick(&descs).clone();
            remove(w, &p);
            json!({"op": "rm", "path": p})
        }
        2 => {
            let d = s.pick(&dirs).clone();
            let p = gen::j(&d, desc);
            let text = pkg_text(s, w, f, &d);
            remove(w, &p);
            w.file(&p, &text);
            json!({"op": "write", "path": p, "text": text, "t": t, "atomic": s.chance(1, 3)})
        }
        3 => {
            let d = s.pick(&dirs).clone();
            let p = gen::j(&d, &gen::fname(s, f));
            if w.is_dir(&p) {
                return json!({"op": "mkdir", "path": p});
            }
            w.nodes.remove(&p);
            w.file(&p, "//");
            json!({"op": "write", "path": p, "text": "//", "t": t})
        }
        4 if !w.files().is_empty() => {
            let p = s.pick(&w.files()).clone();
            remove(w, &p);
            json!({"op": "rm", "path": p})
        }
        5 if dirs.len() > 1 => {
            let p = s.pick(&dirs[1..]).clone();
            remove(w, &p);
            json!({"op": "rm", "path": p})
        }
        6 if dirs.len() > 2 => {
            // packages or directories change places
            let a = s.pick(&dirs[1..]).clone();
            let b = s.pick(&dirs[1..]).clone();
            if a == b || a.starts_with(&format!("{b}/")) || b.starts_with(&format!("{a}/")) {
                return json!({"op": "mkdir", "path": a});
            }
            let sub = |w: &World, p: &str| -> Vec<(String, Node)> { w.nodes.iter().filter(|(k, _)| *k == p || k.starts_with(&format!("{p}/"))).map(|(k, n)| (k[p.len()..].to_string(), n.clone())).collect() };
            let (sa, sb) = (sub(w, &a), sub(w, &b));
            remove(w, &a);
            remove(w, &b);
            for (k, n) in sa {
                w.nodes.insert(format!("{b}{k}"), n);
            }
            if s.chance(1, 2) {
                for (k, n) in sb {
                    w.nodes.insert(format!("{a}{k}"), n);
                }
                json!({"op": "swap", "path": a, "to": b})
            } else {
                json!({"op": "mv", "path": a, "to": b})
            }
        }
        7 => {
            let d = s.pick(&dirs).clone();
            let p = gen::j(&d, &gen::pname(s, f));
            let to = s.pick(&dirs).clone();
            if d.is_empty() && p.is_empty() || w.exists(&p) && !matches!(w.nodes.get(&p), Some(Node::Link(_))) || p == to || p.starts_with('/') {
                return json!({"op": "mkdir", "path": gen::j(&d, "node_modules")});
            }
            remove(w, &p);
            w.nodes.insert(p.clone(), Node::Link(format!("${{R}}/{to}")));
            json!({"op": "link", "path": p, "to": format!("${{R}}/{to}")})
        }
        _ if !descs.is_empty() => {
            let p = s.pick(&descs).clone();
            json!({"op": "touch", "path": p, "t": t})
        }
        _ => json!({"op": "mkdir", "path": "node_modules"}),
    }
}

/// the tsconfig and what it extends, written anew
fn ts_edit(s: &mut Src, w: &mut World, f: &Flavor, times: &mut Vec<i64>) -> Vec<Value> {
    if s.chance(1, 8) {
        let t = s.s(&["{", "", "{}", "{\"compilerOptions\":{}}"]);
        w.nodes.remove("tsconfig.json");
        w.file("tsconfig.json", &t);
        return vec![json!({"op": "write", "path": "tsconfig.json", "text": t, "t": times.pop().unwrap_or(0)})];
    }
    let own = |k: &str| k == "tsconfig.json" || k.starts_with("conf2/") && k.ends_with(".json") || k.ends_with("tsconfig.base.json");
    let mut w2 = w.clone();
    w2.nodes.retain(|k, _| !own(k));
    modeled::add_tsconfig(s, &mut w2, f);
    let mut steps = vec![];
    for (k, n) in w2.nodes.iter().filter(|(k, _)| own(k)) {
        if let Node::File(text) = n {
            steps.push(json!({"op": "write", "path": k, "text": text, "t": times.pop().unwrap_or(0), "atomic": s.chance(1, 3)}));
        }
    }
    *w = w2;
    steps
}

/// how far apart the modification times of a history are: at least one second
pub fn unit(s: &mut Src) -> i64 {
    [1000, 1000, 1001, 1100, 1500, 1999, 2000, 10_000][s.below(8)]
}
pub fn times(s: &mut Src, n: usize, unit: i64) -> Vec<i64> {
    let off = if s.chance(1, 2) { s.below(1000) as i64 } else { 0 };
    let mut v: Vec<i64> = (1..=n as i64).map(|x| x - n as i64 / 2).filter(|x| *x != 0).map(|x| x * unit + off).collect();
    if s.chance(1, 2) {
        s.shuffle(&mut v);
    } else {
        v.reverse();
    }
    v
}

// ---------------------------------------------------------------- C13
fn gen_c13(s: &mut Src) -> Case {
    let unicode = s.chance(1, 8);
    let mut m = mixed::mixed(s, &Knobs { unicode, ..Default::default() });
    m.f.side_effects = true;
    if s.chance(1, 8) {
        m.o.desc = Some("desc.json".into());
    }
    let desc = m.o.desc.clone().unwrap_or_else(|| "package.json".into());
    if s.chance(1, 4) {
        gen::link_descriptions(s, &mut m.w, &desc);
    }
    let mut w = m.w.clone();
    let mut reqs = m.requests(s, 8);
    let n = s.range(8, 30);
    let unit = unit(s);
    let mut ts = times(s, 80, unit);
    let mut written: Option<String> = None;
    let mut steps = vec![];
    if s.chance(1, 12) {
        // the resolver that `Resolver::default()` makes
        m.o = crate::world::Opts::default();
    }
    let plain = m.o == crate::world::Opts::default() && s.chance(1, 2);
    for _ in 0..n {
        if m.o.tsconfig.is_some() && s.chance(1, 8) {
            steps.extend(ts_edit(s, &mut w, &m.f, &mut ts));
        }
        match s.below(8) {
            0 | 1 | 2 => {
                steps.push(edit(s, &mut w, &m.f, &desc, &mut ts));
                let e = steps.last().unwrap();
                if e["op"] == "write" && e["path"].as_str().map_or(false, |p| p.ends_with(&desc)) {
                    written = e["path"].as_str().map(|x| x.to_string());
                }
                if s.chance(1, 4) {
                    steps.push(edit(s, &mut w, &m.f, &desc, &mut ts));
                }
            }
            3 => steps.push(json!({"op": "se", "path": s.pick(&w.all_dirs()).clone()})),
            4 => {
                // a request made for the tree as it is now
                let b = gen::bases(s, &w, 1)[0].clone();
                let r = gen::request(s, &w, &m.f, &b);
                steps.push(json!({"op": "req", "i": reqs.len()}));
                reqs.push((b, r));
            }
            5 if written.is_some() => {
                // the file written last is written anew, just after a request that read it
                let p = written.clone().unwrap();
                if w.is_dir(&p) || !w.is_dir(&dir_of(&p)) {
                    continue;
                }
                let i = s.below(reqs.len());
                steps.push(json!({"op": "req", "i": i}));
                steps.push(json!({"op": "se", "path": dir_of(&p)}));
                let text = pkg_text(s, &w, &m.f, &dir_of(&p));
                w.nodes.remove(&p);
                w.file(&p, &text);
                steps.push(json!({"op": "write", "path": p, "text": text, "t": ts.pop().unwrap_or(0), "atomic": s.chance(1, 3)}));
                steps.push(json!({"op": "se", "path": dir_of(&p)}));
                steps.push(json!({"op": "req", "i": i}));
            }
            _ => steps.push(json!({"op": "req", "i": s.below(reqs.len())})),
        }
    }
    mixed::case("C13", m.w, m.o, reqs, json!({ "steps": steps, "unit": unit, "plain": plain }))
}
fn check_c13(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    settle_times(&c.world, root, &c.extra["unit"]);
    let r = if c.extra["plain"] == true && c.opts == crate::world::Opts::default() { nodejs_resolver::Resolver::default() } else { c.opts.build(root, None) };
    let steps = c.extra["steps"].as_array().cloned().unwrap_or_default();
    let mut edits = 0;
    let mut asked = 0;
    let mut hist = String::new();
    let mut last: BTreeMap<usize, Act> = BTreeMap::new();
    let all: Vec<Value> = (0..c.reqs.len()).map(|i| json!({"op": "req", "i": i})).collect();
    for st in steps.iter().chain(&all) {
        match st["op"].as_str().unwrap_or("") {
            "req" => {
                let i = st["i"].as_u64().unwrap_or(0) as usize;
                let (b, q) = match c.reqs.get(i) {
                    Some((b, q)) => (root.join(b), subst(q, root)),
                    None => continue,
                };
                let a = exec::resolve(&r, &b, &q);
                let z = exec::resolve(&c.opts.build(root, None), &b, &q);
                rep.evals += 1;
                rep.class(class_of(&a));
                hist += &format!("|{i}");
                if edits > 0 && asked > 0 {
                    rep.nontriv(&format!("{key}|{hist}"));
                }
                asked += 1;
                if last.insert(i, z.clone()).map_or(false, |o| o != z) {
                    rep.class("the answer differs from the one before the edits");
                }
                if a != z || matches!(a, Act::Panic(_)) {
                    rep.fail(format!("after {edits} edits resolve({:?}, {:?}) gave {} on the old resolver but {} on a new one", c.reqs[i].0, c.reqs[i].1, a.show(root), z.show(root)));
                    return;
                }
            }
            "se" => {
                let p = root.join(st["path"].as_str().unwrap_or(""));
                let a = exec::side_effects(&r, &p);
                let z = exec::side_effects(&c.opts.build(root, None), &p);
                rep.evals += 1;
                rep.class("load_side_effects");
                if a != z || matches!(a, exec::Se::Panic(_)) {
                    rep.fail(format!("after {edits} edits load_side_effects({:?}) gave {a:?} on the old resolver but {z:?} on a new one", st["path"]));
                    return;
                }
                asked += 1;
            }
            op => {
                rep.class(&format!("edit: {op}"));
                hist += &st.to_string();
                apply(st, root);
                edits += 1;
            }
        }
    }
}

// ---------------------------------------------------------------- C14
/// packages whose maps have equal contents, as exports here and as imports there
pub fn equal_maps(s: &mut Src, w: &mut World, f: &Flavor, desc: &str) -> Vec<(String, String)> {
    let dirs: Vec<String> = w.all_dirs();
    let src = s.pick(&dirs).clone();
    let mut v = match s.below(4) {
        0 => gen::imports_value(s, w, f, &src),
        1 => json!({"node": "./index.js", "default": "./a.js"}),
        2 => json!({}),
        _ => gen::exports_value(s, w, f, &src),
    };
    let near = s.chance(1, 2);
    let mut reqs = vec![];
    for n in 0..s.range(2, 4) {
        let d = s.pick(&dirs).clone();
        let p = gen::j(&d, desc);
        let mut o = match w.nodes.get(&p) {
            Some(Node::File(t)) => serde_json::from_str::<Value>(t).ok().and_then(|v| v.as_object().cloned()).unwrap_or_else(Map::new),
            Some(_) => continue,
            None => Map::new(),
        };
        if near && n > 0 {
            v = nearly(s, &v);
        }
        let field = s.s(&["exports", "imports"]);
        o.insert(field, v.clone());
        if s.chance(1, 4) {
            o.insert("imports".into(), v.clone());
        }
        if near {
            o.entry("name").or_insert(json!(format!("self{n}")));
            let name = o["name"].as_str().unwrap_or("x").to_string();
            targets_exist(w, &d, &v);
            let keys: Vec<String> = v.as_object().map_or(vec![], |m| m.keys().map(|k| k.replace('*', "a.js")).collect());
            for k in keys.iter().take(4) {
                let q = if k.starts_with('#') {
                    k.clone()
                } else if let Some(r) = k.strip_prefix('.') {
                    format!("{name}{r}")
                } else {
                    name.clone()
                };
                reqs.push((d.clone(), if q.ends_with('/') { format!("{q}a.js") } else { q }));
            }
            if !v.is_object() {
                reqs.push((d.clone(), name));
            }
        }
        w.nodes.remove(&p);
        w.file(&p, &Value::Object(o).to_string());
    }
    reqs
}
/// a value that differs in one place
fn nearly(s: &mut Src, v: &Value) -> Value {
    let swap = |x: &str| -> String { x.chars().map(|c| if c.is_lowercase() { c.to_uppercase().collect::<String>() } else { c.to_lowercase().collect() }).collect() };
    match v {
        Value::Object(m) if !m.is_empty() => {
            let mut l: Vec<(String, Value)> = m.iter().map(|(k, x)| (k.clone(), x.clone())).collect();
            let i = s.below(l.len());
            match s.below(8) {
                0 => l.reverse(),
                1 => {
                    l.remove(i);
                }
                2 => l[i].0 = swap(&l[i].0),
                3 => {
                    let j = s.below(l.len());
                    let x = l[i].1.clone();
                    l[i].1 = std::mem::replace(&mut l[j].1, x);
                }
                _ => l[i].1 = nearly(s, &l[i].1.clone()),
            }
            Value::Object(l.into_iter().collect())
        }
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let i = s.below(a.len());
            if s.chance(1, 3) {
                a.reverse();
            } else {
                a[i] = nearly(s, &a[i].clone());
            }
            Value::Array(a)
        }
        Value::String(x) => match s.below(5) {
            0 => json!(swap(x)),
            1 => json!([x]),
            2 => Value::Null,
            3 if x.starts_with("./") && !x.contains('*') && !x.ends_with('/') => json!(format!("./other{}", s.below(3))),
            _ => json!(format!("{}{x}", if x.starts_with("./") { "./lib/../" } else { "./" }).replace("./lib/.././", "./lib/")),
        },
        Value::Null => json!("./index.js"),
        _ => json!("./a.js"),
    }
}
/// the files that the targets of a map denote are put in place
fn targets_exist(w: &mut World, d: &str, v: &Value) {
    match v {
        Value::Object(m) => m.values().for_each(|x| targets_exist(w, d, x)),
        Value::Array(a) => a.iter().for_each(|x| targets_exist(w, d, x)),
        Value::String(x) => {
            let rel = x.replace('*', "a.js");
            let rel = if rel.ends_with('/') { format!("{rel}a.js") } else { rel };
            if let Some(r) = rel.strip_prefix("./") {
                let ok = !r.is_empty() && r.split('/').all(|y| !y.is_empty() && y != "." && y != "..");
                let p = gen::j(d, r);
                if ok && !w.exists(&p) && w.parent_ok(&p) {
                    w.file(&p, "//");
                }
            }
        }
        _ => {}
    }
}
pub fn vary(s: &mut Src, o: &Opts, w: &World, f: &Flavor, root_alias: bool) -> Opts {
    let mut o = o.clone();
    for _ in 0..s.range(0, 3) {
        match s.below(10) {
            0 => o.conds = gen::conds(s),
            1 => o.desc = s.pick(&[None, Some("desc.json".to_string()), Some("package.json".to_string())]).clone(),
            2 => o.browser = !o.browser,
            3 => o.main_fields = gen::main_fields(s),
            4 => o.main_files = gen::main_files(s),
            5 => o.ext = gen::extensions(s),
            6 => o.symlinks = !o.symlinks,
            7 => o.prefer_relative = !o.prefer_relative,
            8 if root_alias => o.alias = gen::alias(s, w, f),
            _ => o.desc = Some("desc.json".into()),
        }
    }
    o
}
pub fn two_names(s: &mut Src, w: &mut World, f: &Flavor) {
    for d in w.all_dirs() {
        if s.chance(1, 4) {
            let p = gen::j(&d, "desc.json");
            if !w.exists(&p) {
                let t = pkg_text(s, w, f, &d);
                w.file(&p, &t);
            }
        }
    }
}
fn gen_c14(s: &mut Src) -> Case {
    let unicode = s.chance(1, 8);
    let mut m = mixed::mixed(s, &Knobs { unicode, ..Default::default() });
    m.f.side_effects = true;
    let desc = "package.json";
    let mapped = if s.chance(1, 2) { equal_maps(s, &mut m.w, &m.f, desc) } else { vec![] };
    if s.chance(1, 2) {
        two_names(s, &mut m.w, &m.f);
    }
    if s.chance(1, 6) {
        gen::link_descriptions(s, &mut m.w, desc);
    }
    let n = s.range(1, 3);
    let others: Vec<Value> = (0..n).map(|_| vary(s, &m.o, &m.w, &m.f, true).to_json()).collect();
    let mut reqs = m.requests(s, 10);
    for _ in 0..4 {
        let b = gen::bases(s, &m.w, 1)[0].clone();
        let r = if s.chance(1, 2) { gen::imports_request(s, &m.w, &m.f, &b) } else { gen::bare_request(s, &m.w, &m.f) };
        reqs.push((b, r));
    }
    reqs.extend(mapped);
    let mut w = m.w.clone();
    let unit = unit(s);
    let mut ts = times(s, 60, unit);
    let edits = s.chance(1, 3);
    let mut steps = vec![];
    for _ in 0..s.range(10, 36) {
        if edits && s.chance(1, 5) {
            let d = if s.chance(1, 4) { "desc.json" } else { desc };
            steps.push(edit(s, &mut w, &m.f, d, &mut ts));
        } else if s.chance(1, 8) {
            steps.push(json!({"op": "se", "path": s.pick(&w.all_dirs()).clone(), "r": s.below(n + 1)}));
        } else {
            steps.push(json!({"op": "req", "i": s.below(reqs.len()), "r": s.below(n + 1)}));
        }
    }
    // files from an archive often bear one time
    let unit = if !edits && s.chance(1, 2) { 0 } else { unit };
    mixed::case("C14", m.w, m.o, reqs, json!({"options": others, "steps": steps, "unit": unit}))
}
fn check_c14(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    settle_times(&c.world, root, &c.extra["unit"]);
    let mut opts = vec![c.opts.clone()];
    for o in c.extra["options"].as_array().cloned().unwrap_or_default() {
        opts.push(Opts::from_json(&o));
    }
    let cache = Arc::new(ResolverCache::default());
    let rs: Vec<_> = opts.iter().map(|o| o.build(root, Some(cache.clone()))).collect();
    let mut hist = String::new();
    let mut used: Vec<usize> = vec![];
    for st in c.extra["steps"].as_array().cloned().unwrap_or_default() {
        let k = (st["r"].as_u64().unwrap_or(0) as usize).min(rs.len() - 1);
        match st["op"].as_str().unwrap_or("") {
            "req" => {
                let i = st["i"].as_u64().unwrap_or(0) as usize;
                let (b, q) = match c.reqs.get(i) {
                    Some((b, q)) => (root.join(b), subst(q, root)),
                    None => continue,
                };
                let a = exec::resolve(&rs[k], &b, &q);
                let z = exec::resolve(&opts[k].build(root, None), &b, &q);
                rep.evals += 1;
                rep.class(class_of(&a));
                hist += &format!("|{k}:{i}");
                if used.iter().any(|u| *u != k) {
                    rep.nontriv(&format!("{key}|{hist}"));
                }
                used.push(k);
                if a != z || matches!(a, Act::Panic(_)) {
                    rep.fail(format!("resolver {k}: resolve({:?}, {:?}) gave {} with the shared cache but {} alone", c.reqs[i].0, c.reqs[i].1, a.show(root), z.show(root)));
                    return;
                }
            }
            "se" => {
                let p = root.join(st["path"].as_str().unwrap_or(""));
                let a = exec::side_effects(&rs[k], &p);
                let z = exec::side_effects(&opts[k].build(root, None), &p);
                rep.evals += 1;
                rep.class("load_side_effects");
                used.push(k);
                if a != z || matches!(a, exec::Se::Panic(_)) {
                    rep.fail(format!("resolver {k}: load_side_effects({:?}) gave {a:?} with the shared cache but {z:?} alone", st["path"]));
                    return;
                }
            }
            op => {
                rep.class(&format!("edit: {op}"));
                hist += &st.to_string();
                apply(&st, root);
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", gen: gen_c13, check: check_c13, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "a random history of edits (description files written, replaced, deleted, created, touched; files, directories and links added, removed, moved, swapped) and requests on one resolver, each answer (message included) compared with a new resolver's; non-trivial = a request after at least one edit and one earlier request; distinct = distinct histories" },
        Prop { id: "C14", gen: gen_c14, check: check_c14, quick: 40_000, thorough: 3_000_000, materialize: true,
            rule: "2-4 resolvers with varied options share one cache and answer interleaved requests (sometimes with edits), each answer compared with a resolver of the same options and a private cache; non-trivial = another resolver used the cache before; distinct = distinct histories" },
    ]
}
