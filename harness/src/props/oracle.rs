//! Agreement with Node.js and enhanced-resolve (C12).
use super::mixed::{self, class_of, Knobs};
use super::*;
use crate::gen::{self, Flavor};
use crate::runner::BLOCK_OK;
use crate::world::{subst, Node, Opts, World};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

struct Js {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
static JS: Mutex<Option<Js>> = Mutex::new(None);

fn script() -> std::path::PathBuf {
    let v = std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into());
    std::path::Path::new(&v).join("oracle/oracle.js")
}

/// ask the other program; a program that cannot be started is a broken check, not an answer
fn ask(m: &Value) -> Vec<(bool, Option<String>)> {
    BLOCK_OK.fetch_add(1, Ordering::Relaxed);
    let r = (|| -> std::io::Result<Vec<(bool, Option<String>)>> {
        let mut g = JS.lock().unwrap();
        if g.is_none() {
            let mut c = Command::new("node");
            c.arg("--no-warnings").arg(script()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env_clear();
            c.env("PATH", std::env::var("PATH").unwrap_or_default()).env("HOME", "/nonexistent").current_dir("/");
            // node reserves more address space than the limit of this process
            unsafe {
                use std::os::unix::process::CommandExt;
                c.pre_exec(|| {
                    let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                    Ok(())
                });
            }
            let mut child = c.spawn()?;
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            *g = Some(Js { _child: child, to, from });
        }
        let js = g.as_mut().unwrap();
        js.to.write_all(format!("{m}\n").as_bytes())?;
        js.to.flush()?;
        let mut line = String::new();
        js.from.read_line(&mut line)?;
        let v: Value = serde_json::from_str(&line)?;
        Ok(v.as_array().unwrap().iter().map(|x| (x[0] == true, x[1].as_str().map(|s| s.to_string()))).collect())
    })();
    BLOCK_OK.fetch_sub(1, Ordering::Relaxed);
    match r {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot ask node ({}): {e}", script().display());
            std::process::exit(2);
        }
    }
}

fn edit_docs(w: &mut World, f: impl Fn(&mut Value)) {
    for (k, n) in w.nodes.iter_mut() {
        if let (true, Node::File(t)) = (k.ends_with("package.json"), &mut *n) {
            if let Ok(mut v) = serde_json::from_str::<Value>(t) {
                f(&mut v);
                *t = v.to_string();
            }
        }
    }
}

/// what the two programs define differently is left out of the maps
fn clean_map(v: &mut Value, exports: bool) {
    match v {
        Value::Object(m) => {
            m.retain(|k, _| !k.ends_with('/'));
            m.values_mut().for_each(|x| clean_map(x, exports));
        }
        Value::Array(a) => {
            // Node takes the first valid target whether it exists or not
            a.truncate(1);
            a.iter_mut().for_each(|x| clean_map(x, exports));
        }
        Value::String(t) => {
            let dotted = t.strip_prefix("./").unwrap_or(t).split('/').any(|x| x == "." || x == ".." || x == "node_modules" || x.is_empty());
            // a target is a URL for Node
            let url = t.ends_with(' ') || t.contains(['%', '?', '\\']);
            if url || t.starts_with('#') || dotted || exports && !t.starts_with("./") {
                *t = "./a.js".into();
            }
        }
        _ => {}
    }
}

fn gen_c12(s: &mut Src) -> Case {
    let only = std::env::var("VH_ORACLE").unwrap_or_default();
    if only == "node" || only.is_empty() && s.chance(1, 2) {
        gen_node(s)
    } else {
        gen_er(s)
    }
}
fn gen_node(s: &mut Src) -> Case {
    let maps = s.chance(2, 3);
    let f = Flavor {
        exports: maps,
        imports: maps && s.chance(2, 3),
        symlinks: s.chance(1, 3),
        unicode: s.chance(1, 5),
        folders: false,
        pipes: false,
        ..Default::default()
    };
    let mut w = gen::world(s, &f);
    if maps {
        modeled::enrich_targets(s, &mut w, &f);
    }
    // enhanced-resolve takes a main file without any extension
    w.nodes.retain(|k, _| k != "index" && !k.ends_with("/index"));
    // Node takes a final '/' off a main field, enhanced-resolve does not
    edit_docs(&mut w, |v| {
        if let Some(Value::String(m)) = v.get_mut("main") {
            // where "/a" is a path of the file system
            *m = m.trim_start_matches('/').to_string();
            while m.ends_with('/') || m.ends_with("/.") || m.ends_with("/..") {
                *m = m.trim_end_matches(['/', '.']).to_string();
            }
            // which would be a file beside the directory
            if matches!(&**m, "" | "." | "..") {
                *m = "./a".into();
            }
        }
        for k in ["exports", "imports"] {
            if let Some(x) = v.get_mut(k) {
                clean_map(x, k == "exports");
            }
        }
    });
    // Node does not follow the main field of a directory that a main field names
    let docs: Vec<String> = w.nodes.keys().filter(|k| k.ends_with("package.json")).cloned().collect();
    for d in docs {
        let dir = d.trim_end_matches("package.json").trim_end_matches('/').to_string();
        if let Some(Node::File(t)) = w.nodes.get(&d).cloned() {
            if let Ok(mut v) = serde_json::from_str::<Value>(&t) {
                let main = v["main"].as_str().unwrap_or("").to_string();
                let at = crate::model::lex(&Path::new("/").join(&dir).join(&main)).display().to_string();
                let at = at.trim_start_matches('/').to_string();
                let linked = w.nodes.iter().any(|(k, n)| matches!(n, Node::Link(_)) && (at == *k || at.starts_with(&format!("{k}/"))));
                if at != dir && (linked || w.exists(&gen::j(&at, "package.json"))) {
                    v.as_object_mut().unwrap().shift_remove("main");
                    w.nodes.insert(d, Node::File(v.to_string()));
                }
            }
        }
    }
    // a URL loses the spaces at its end
    w.nodes.retain(|k, n| !k.split('/').any(|x| x.ends_with(' ')) && !matches!(n, Node::Link(t) if t.split('/').any(|x| x.ends_with(' '))));
    let o = node_options();
    let m = mixed::Mix { f, w, o };
    let mut reqs = m.requests(s, 12);
    reqs.retain(|(_, r)| !r.contains(['?', '%', '\\']) && !r.ends_with(' ') && !(r.starts_with('@') && r.contains("/.")) && !r.chars().skip(1).any(|c| c == '#'));
    mixed::case("C12", m.w, m.o, reqs, json!({"with": "node"}))
}
/// what Node does cannot be configured
fn node_options() -> Opts {
    let mut o = Opts::default();
    o.conds = ["node", "require", "module-sync", "node-addons"].iter().map(|x| x.to_string()).collect();
    o
}
fn gen_er(s: &mut Src) -> Case {
    let k = Knobs { maps: s.chance(1, 3), ts: false, hostile: false, own_modules: false, pipes: false, ..Default::default() };
    let mut m = mixed::mixed(s, &k);
    m.f.folders = false;
    edit_docs(&mut m.w, |v| {
        // it takes "x/.." for the name of a file where a main field says so
        for x in v.as_object_mut().map(|o| o.values_mut()).into_iter().flatten() {
            if let Value::String(x) = x {
                while x.ends_with("/.") || x.ends_with("/..") {
                    *x = x.trim_end_matches('.').trim_end_matches('/').to_string();
                }
                if x == ".." || x.starts_with("././") {
                    *x = "./a".into();
                }
            }
        }
        for k in ["exports", "imports"] {
            if let Some(x) = v.get_mut(k) {
                clean_map(x, k == "exports");
            }
        }
    });
    if m.o.browser {
        // it asks the package of the directory for a main field, and not the one of the file
        m.w.nodes.retain(|k, _| {
            let d: Vec<&str> = k.strip_suffix("/package.json").unwrap_or("").split('/').collect();
            !k.ends_with("/package.json") || d.len() > 1 && (d[d.len() - 2] == "node_modules" || d.len() > 2 && d[d.len() - 3] == "node_modules" && d[d.len() - 2].starts_with('@'))
        });
    }
    // it prefers a file beside a package that has exports
    m.w.nodes.retain(|k, n| {
        let d: Vec<&str> = k.split('/').collect();
        let l = d.len();
        !(matches!(n, Node::Link(_)) && d[l - 1] == "node_modules") && !(matches!(n, Node::File(_)) && l > 1 && (d[l - 2] == "node_modules" || l > 2 && d[l - 3] == "node_modules" && d[l - 2].starts_with('@')))
    });
    // and takes a file that is named by an extension alone for a package's entry
    let (w, exts) = (m.w.clone(), m.o.ext.clone());
    m.w.nodes.retain(|k, _| w.is_dir(k) || !exts.iter().any(|e| e.as_str() == gen::last_segment(k)));
    let w = m.w.clone();
    for (k, n) in m.w.nodes.iter_mut() {
        if let (true, Node::File(t)) = (k.ends_with("package.json"), &mut *n) {
            if let Ok(mut v) = serde_json::from_str::<Value>(t) {
                if let Some(b) = v.get_mut("browser").and_then(|b| b.as_object_mut()) {
                    // and takes a name for a path where there is no extension to add
                    let at = |x: &str| gen::j(k.trim_end_matches("package.json").trim_end_matches('/'), x);
                    b.retain(|x, y| exact(&w, k, x) && (x.starts_with("../") || x.starts_with("./") || !w.nodes.keys().any(|n| n.starts_with(&at(x)))) && y.as_str().map_or(true, |y| exact(&w, k, y)));
                    *t = v.to_string();
                }
            }
        }
    }
    // it compares aliases of paths with every path on the way, and has keys with a star or a final $
    m.o.alias.retain(|(k, _)| !k.starts_with(['.', '/', '$', '#']) && !k.ends_with(['/', '$']) && !k.contains('*'));
    let reqs = m.requests(s, 12);
    mixed::case("C12", m.w, m.o, reqs, json!({"with": "enhanced-resolve"}))
}

fn check_c12(c: &Case, root: &Path, rep: &mut Report) {
    let with = c.extra["with"].as_str().unwrap_or("node").to_string();
    if with == "node" && c.opts != node_options() {
        rep.skipped += 1;
        return;
    }
    let r = c.opts.build(root, None);
    let m = Model::new(&c.opts, root);
    let key = case_key(c);
    let reqs: Vec<(String, String)> = c.reqs.iter().map(|(b, q)| (root.join(b).display().to_string(), subst(q, root))).collect();
    let mut o = c.opts.to_json();
    for a in o["alias"].as_array_mut().unwrap() {
        for x in a.as_array_mut().unwrap() {
            if let Some(t) = x.as_str() {
                *x = json!(subst(t, root));
            }
        }
    }
    let ans = ask(&json!({"kind": with, "options": o, "requests": reqs}));
    for (i, (b, q)) in reqs.iter().enumerate() {
        let want = m.resolve(Path::new(b), q);
        if !m.supported() || outside(c, &m, b, q, &with, &want) {
            rep.skipped += 1;
            continue;
        }
        let a = exec::resolve(&r, Path::new(b), q);
        rep.evals += 1;
        rep.class(&format!("{with}: {}", class_of(&a)));
        for u in m.used.borrow().iter() {
            rep.class(&format!("{with}: {u}"));
        }
        let (ok, p) = &ans[i];
        let escaped = |p: &str| with == "node" && (p.contains(['%', '\\', '\t', '\n', '\r']) || p.ends_with(' '));
        if !ok && p.as_deref().unwrap_or("").contains("URI malformed") || matches!(&a, Act::Path { joined, .. } if escaped(&joined.to_string_lossy())) || p.as_deref().map_or(false, |p| *ok && escaped(p)) {
            // a target is a URL for Node
            rep.skipped += 1;
            continue;
        }
        if !ok && with == "node" && p.as_deref().map_or(false, |p| p.starts_with("ERR_INVALID_MODULE_SPECIFIER")) && q.contains("node_modules") {
            // Node forbids this segment in what a '*' stands for
            rep.skipped += 1;
            continue;
        }
        if !ok && with == "node" && p.as_deref().map_or(false, |p| p.contains("numeric property keys")) {
            rep.skipped += 1;
            continue;
        }
        if *ok && with == "node" && p.as_deref().map_or(false, |p| !p.starts_with('/')) || !ok && p.as_deref().map_or(false, |p| p.starts_with("ERR_INVALID_URL_SCHEME")) {
            // one of Node's own modules
            rep.skipped += 1;
            continue;
        }
        if !ok && p.as_deref().unwrap_or("").contains("valid \"main\" entry") {
            // a level whose package has nothing but a dangling main ends Node's search, not enhanced-resolve's
            rep.skipped += 1;
            continue;
        }
        if !ok && p.as_deref().map_or(false, |p| p.starts_with("Recursion") || p.starts_with("Maximum call stack") || p.starts_with("Invalid") && p.contains("//")) {
            // enhanced-resolve gives up where this crate takes the next alias, and on a match that starts with '/'
            rep.skipped += 1;
            continue;
        }
        if *ok {
            rep.nontriv(&format!("{key}|{b}|{q}"));
        }
        let same = match (&a, ok, p) {
            (Act::Path { joined, .. }, true, Some(p)) => joined.to_string_lossy() == *p,
            (Act::Ignored, true, None) => true,
            (Act::Err(_), false, _) => true,
            _ => false,
        };
        if !same {
            rep.fail(format!("resolve({:?}, {:?}) gave {} but {with} gives {}", c.reqs[i].0, c.reqs[i].1, a.show(root), if *ok { p.clone().unwrap_or("ignored".into()) } else { format!("a failure ({})", p.clone().unwrap_or_default()) }.replace(&root.display().to_string(), "${R}")));
            return;
        }
    }
}

/// a path is the exact name of a file
fn exact(w: &World, doc: &str, x: &str) -> bool {
    !x.starts_with('.') || matches!(w.nodes.get(&gen::j(doc.trim_end_matches("package.json").trim_end_matches('/'), x.trim_start_matches("./"))), Some(Node::File(_)))
}
/// every path in browser fields is a file
fn exact_browser_keys(w: &World) -> bool {
    w.nodes.iter().all(|(k, n)| match n {
        Node::File(t) if k.ends_with("package.json") => match serde_json::from_str::<Value>(t).ok().and_then(|v| v["browser"].as_object().cloned()) {
            Some(m) => m.iter().all(|(x, y)| exact(w, k, x) && y.as_str().map_or(true, |y| exact(w, k, y))),
            None => true,
        },
        _ => true,
    })
}

fn outside(c: &Case, m: &Model, b: &str, q: &str, with: &str, want: &Out) -> bool {
    let (t, query, fragment) = crate::model::split(q);
    let used = |x: &str| m.used.borrow().contains(x);
    if with == "node" {
        // enhanced-resolve and this crate look for `${base}.js` first
        if t == "." || t.is_empty() {
            return true;
        }
        // Node looks for no extension behind an imports target
        if m.used.borrow().contains("imports-to-module") && (!m.used.borrow().contains("exports") || m.used.borrow().contains("level-skipped")) {
            return true;
        }
        // Node's package scope ends at node_modules, enhanced-resolve's does not
        if !crate::model::is_rel(&t) && !t.starts_with('/') {
            // Node joins the whole request with node_modules, enhanced-resolve finds the package first
            // and exports and imports never serve a request that ends with '/'
            if t.split('/').any(|x| x == "." || x == "..") || t.ends_with('/') {
                return true;
            }
            for d in Path::new(b).ancestors() {
                if d.join("package.json").is_file() {
                    break;
                }
                if d.file_name().map_or(false, |n| n == "node_modules") {
                    return true;
                }
            }
        }
    } else {
        // it takes a final '.' or '..' for a file name
        if matches!(t.rsplit('/').next(), Some("." | "..")) {
            return true;
        }
        // it misses browser keys behind '..', and finds them without a final '/'
        if !crate::model::is_rel(&t) && !t.starts_with('/') && t.split('/').any(|x| x == "." || x == "..") {
            return true;
        }
        // it looks for directories and extensions behind a target of exports
        if (used("exports") || used("imports") || used("self-reference")) && *want == Out::Fail {
            return true;
        }
        // it looks for the target module from the importer, Node and this crate from the package
        if used("imports-to-module") {
            return true;
        }
        // it puts the match for a star in with '$&' and the like having their meaning
        if q.contains('$') && (used("exports") || used("imports") || used("self-reference")) {
            return true;
        }
        // and the name of a directory
        if t.ends_with('/') && !fragment.is_empty() {
            return true;
        }
        // it first takes a fragment for a part of the name, on every level
        if !fragment.is_empty() && !crate::model::is_rel(&t) && !t.starts_with('/') {
            return true;
        }
        // it looks for the query in the maps
        if !(query.is_empty() && fragment.is_empty()) && (t.starts_with('#') || used("exports") || used("imports")) {
            return true;
        }
        if !c.opts.alias.is_empty() && t.ends_with('/') {
            return true;
        }
        if c.opts.browser && (t.split('/').any(|x| x == "..") || t.ends_with('/')) {
            return true;
        }
        // it finds keys without extension only for requests that are made inside the package
        // and goes on with the next candidate when the mapped request leads nowhere
        if c.opts.browser && c.opts.effective_enforce() {
            return true;
        }
        // it asks the package of the importer, not of the file
        if c.opts.browser && crate::model::is_rel(&t) && c.opts.desc.is_some() {
            let d = c.opts.desc.as_deref().unwrap_or("");
            let near = |p: &Path| p.ancestors().find(|p| p.join(d).is_file()).map(|p| p.to_path_buf());
            if near(Path::new(b)) != near(&crate::model::lex(&Path::new(b).join(&t))) {
                return true;
            }
        }
        // it takes no absolute path for a relative one
        if c.opts.prefer_relative && t.starts_with('/') {
            return true;
        }
        // asks prefer_relative later
        if c.opts.browser && c.opts.prefer_relative {
            return true;
        }
        // and asks the aliases again
        if used("browser-to-module") || (used("browser-module") || used("browser-chain")) && !c.opts.alias.is_empty() {
            return true;
        }
        if ["browser-path", "browser-module", "browser-chain", "browser-to-module"].iter().any(|x| used(x)) && *want == Out::Fail {
            return true;
        }
        if c.opts.browser && !exact_browser_keys(&c.world) {
            return true;
        }
        // this crate has no aliases for what lies in node_modules, and goes on when an alias leads nowhere
        if m.used.borrow().contains("alias-skipped-in-node_modules") || m.used.borrow().contains("alias-fallback") {
            return true;
        }
    }
    false
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C12", gen: gen_c12, check: check_c12, quick: 30_000, thorough: 600_000, materialize: true,
        rule: "the same tree and requests given to Node.js 22 (require.resolve) or to enhanced-resolve 5.26 with equal options; non-trivial = the other program found a file; distinct = distinct (case, base, request)" }]
}
