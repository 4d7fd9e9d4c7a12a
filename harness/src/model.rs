//! Reference model of the resolution rules, written from the properties and the documentation of Node.js,
//! webpack's enhanced-resolve and TypeScript; it reads the real (scratch) file system without any cache.
use crate::world::{subst, Opts};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::path::{Component, Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Path(PathBuf, String, String),
    Ignored,
    Fail,
}

#[derive(Clone, Debug)]
enum R {
    File(PathBuf, String, String),
    Ignored,
    /// not found here: alternatives may be tried
    Fail,
    /// a gate refused: stops the search through node_modules levels
    Hard,
}

impl R {
    fn ok(&self) -> bool {
        matches!(self, R::File(..) | R::Ignored)
    }
}

#[derive(Clone, Debug)]
struct Rq {
    t: String,
    q: String,
    f: String,
}

pub struct Model {
    pub o: Opts,
    alias: Vec<(String, Option<String>)>,
    tsconfig: Option<PathBuf>,
    stack: RefCell<Vec<(PathBuf, String)>>,
    dirstack: RefCell<Vec<PathBuf>>,
    modstack: RefCell<Vec<(PathBuf, String)>>,
    steps: std::cell::Cell<usize>,
    /// a description file the lookup needed and that is no valid JSON / has wrong types
    pub broken: RefCell<Option<PathBuf>>,
    pub hard_by_desc: std::cell::Cell<bool>,
    /// reasons why the last request lies outside the modelled domain
    pub unsupported: RefCell<BTreeSet<&'static str>>,
    /// features that took part in the last request
    pub used: RefCell<BTreeSet<&'static str>>,
}

pub fn lex(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::RootDir => out.push("/"),
            Component::Normal(n) => out.push(n),
            Component::ParentDir => {
                out.pop();
            }
            _ => {}
        }
    }
    out
}

/// target / query / fragment
/// dotted segments never take part in a match (as in Node.js)
fn has_dots(key: &str) -> bool {
    key.split(['?', '#']).next().unwrap().split('/').any(|x| x == "." || x == "..")
}
pub fn split(req: &str) -> (String, String, String) {
    let start = if req.starts_with('#') { 1 } else { 0 };
    let frag = req[start..].find('#').map(|i| i + start).unwrap_or(req.len());
    let (head, f) = req.split_at(frag);
    let qi = head.find('?').unwrap_or(head.len());
    let (t, q) = head.split_at(qi);
    // "?" as the very first character followed by '#': the first '#' is at index >= 1 and handled above
    (t.to_string(), q.to_string(), f.to_string())
}

pub fn is_rel(t: &str) -> bool {
    t.is_empty() || t == "." || t == ".." || t.starts_with("./") || t.starts_with("../")
}

fn is_win_abs(t: &str) -> bool {
    let b = t.as_bytes();
    b.len() >= 2
        && b[0].is_ascii_alphabetic()
        && b[1] == b':'
        && (b.len() == 2 || b[2] == b'/' || b[2] == b'\\')
}

pub fn pkg_name(t: &str) -> &str {
    let mut it = t.match_indices('/').map(|(i, _)| i);
    let cut = if t.starts_with('@') { it.nth(1) } else { it.next() };
    match cut {
        Some(i) => &t[..i],
        None => t,
    }
}

/// A relative target never climbs above its start, at any point.
pub fn stays_inside(t: &str) -> bool {
    let mut depth: i64 = 0;
    for s in t.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                depth -= 1;
                if depth < 0 {
                    return false;
                }
            }
            _ => depth += 1,
        }
    }
    true
}

pub enum Lookup {
    Targets(Vec<String>),
    Error,
}

impl Model {
    pub fn new(o: &Opts, root: &Path) -> Model {
        Model {
            o: o.clone(),
            alias: o
                .alias
                .iter()
                .map(|(k, v)| (subst(k, root), v.as_ref().map(|t| subst(t, root))))
                .collect(),
            tsconfig: o.tsconfig.as_ref().map(|t| root.join(t)),
            stack: Default::default(),
            dirstack: Default::default(),
            modstack: Default::default(),
            steps: Default::default(),
            broken: Default::default(),
            hard_by_desc: Default::default(),
            unsupported: Default::default(),
            used: Default::default(),
        }
    }
    fn uns(&self, why: &'static str) {
        self.unsupported.borrow_mut().insert(why);
    }
    fn mark(&self, what: &'static str) {
        self.used.borrow_mut().insert(what);
    }
    pub fn supported(&self) -> bool {
        self.unsupported.borrow().is_empty()
    }

    pub fn resolve(&self, base: &Path, req: &str) -> Out {
        self.unsupported.borrow_mut().clear();
        self.used.borrow_mut().clear();
        self.stack.borrow_mut().clear();
        self.dirstack.borrow_mut().clear();
        self.modstack.borrow_mut().clear();
        self.steps.set(0);
        *self.broken.borrow_mut() = None;
        self.hard_by_desc.set(false);
        let (t, q, f) = split(req);
        let rq = Rq { t, q, f };
        let r = if self.tsconfig.is_some() { self.ts(base, &rq) } else { self.full(base, &rq) };
        match r {
            R::File(p, q, f) => {
                let p = lex(&p);
                let p = if self.o.symlinks {
                    match std::fs::canonicalize(&p) {
                        Ok(p) => p,
                        Err(_) => return Out::Fail,
                    }
                } else {
                    p
                };
                Out::Path(p, q, f)
            }
            R::Ignored => Out::Ignored,
            _ => Out::Fail,
        }
    }

    // ---------------------------------------------------------------- description files
    fn desc_at(&self, dir: &Path) -> Result<Option<Value>, ()> {
        let name = match &self.o.desc {
            Some(n) => n,
            None => return Ok(None),
        };
        let f = dir.join(name);
        if !f.is_file() {
            return Ok(None);
        }
        let read = || -> Result<Value, ()> {
            let txt = std::fs::read_to_string(&f).map_err(|_| ())?;
            let v: Value = serde_json::from_str(&txt).map_err(|_| ())?;
            if let Some(se) = v.get("sideEffects") {
                let ok = se.is_boolean() || se.as_array().map_or(false, |a| a.iter().all(|x| x.is_string()));
                if !ok {
                    return Err(());
                }
            }
            Ok(v)
        };
        match read() {
            Ok(v) => Ok(Some(v)),
            Err(()) => {
                self.hard_by_desc.set(self.broken.borrow().is_none());
                *self.broken.borrow_mut() = Some(f);
                Err(())
            }
        }
    }
    /// nearest description file at or above `p` (from `p` itself when it is a directory)
    fn nearest(&self, p: &Path) -> Result<Option<(PathBuf, Value)>, ()> {
        if self.o.desc.is_none() {
            return Ok(None);
        }
        let p = lex(p);
        let mut cur: Option<&Path> = if p.is_dir() { Some(&p) } else { p.parent() };
        while let Some(d) = cur {
            if let Some(v) = self.desc_at(d)? {
                return Ok(Some((d.to_path_buf(), v)));
            }
            cur = d.parent();
        }
        Ok(None)
    }
    pub fn side_effects(&self, p: &Path) -> Result<Option<(PathBuf, Option<Value>)>, ()> {
        match self.nearest(p)? {
            None => Ok(None),
            Some((d, v)) => Ok(Some((d.join(self.o.desc.as_ref().unwrap()), v.get("sideEffects").cloned()))),
        }
    }

    // ---------------------------------------------------------------- top level
    fn full(&self, base: &Path, rq: &Rq) -> R {
        let key = (base.to_path_buf(), rq.t.clone());
        if self.stack.borrow().contains(&key) {
            self.uns("recursive resolution");
            return R::Fail;
        }
        self.steps.set(self.steps.get() + 1);
        if self.stack.borrow().len() > 50 || self.steps.get() > 2000 {
            self.uns("deep recursion");
            return R::Fail;
        }
        self.stack.borrow_mut().push(key);
        let r = self.full_inner(base, rq);
        self.stack.borrow_mut().pop();
        r
    }
    fn full_inner(&self, base: &Path, rq: &Rq) -> R {
        let in_nm = base.components().any(|c| c.as_os_str() == "node_modules");
        for (k, v) in &self.alias {
            if !rq.t.starts_with(k.as_str()) {
                continue;
            }
            if in_nm {
                self.mark("alias-skipped-in-node_modules");
                break;
            }
            let boundary = rq.t.len() == k.len() || k.ends_with('/') || rq.t[k.len()..].starts_with('/');
            if !boundary {
                self.uns("alias key matches inside a path segment");
            }
            match v {
                None => {
                    self.mark("alias-ignored");
                    return R::Ignored;
                }
                Some(to) => {
                    if rq.t.starts_with(to.as_str()) {
                        let b = rq.t.len() == to.len() || to.ends_with('/') || rq.t[to.len()..].starts_with('/');
                        if !b {
                            self.uns("alias target matches inside a path segment");
                        }
                        continue;
                    }
                    let nt = format!("{}{}", to, &rq.t[k.len()..]);
                    let r = self.full(base, &Rq { t: nt, ..rq.clone() });
                    if r.ok() {
                        self.mark("alias");
                        return r;
                    }
                    self.mark("alias-fallback");
                }
            }
        }
        if self.o.prefer_relative && !(rq.t.starts_with("./") || rq.t.starts_with("../")) {
            let r = self.full(base, &Rq { t: format!("./{}", rq.t), ..rq.clone() });
            if r.ok() {
                self.mark("prefer_relative");
                return r;
            }
        }
        if rq.t.starts_with('#') {
            return self.imports(base, rq);
        }
        if is_win_abs(&rq.t) {
            self.uns("windows path");
            return R::Fail;
        }
        if is_rel(&rq.t) || rq.t.starts_with('/') {
            if !base.is_absolute() {
                self.uns("relative base");
            }
            let p = join(base, &rq.t);
            self.path_with_browser(&p, dir_only(&rq.t), rq, true)
        } else {
            self.bare_with_browser(base, rq)
        }
    }

    fn path_with_browser(&self, p: &Path, dironly: bool, rq: &Rq, check_desc: bool) -> R {
        if check_desc || self.o.browser {
            match self.nearest(p) {
                Err(()) => return R::Hard,
                Ok(Some((d, v))) if self.o.browser => {
                    if let Some(r) = self.browser_path(&d, &v, p, dironly, rq, true) {
                        return r;
                    }
                }
                _ => {}
            }
        }
        self.path(p, dironly, rq)
    }

    fn bare_with_browser(&self, base: &Path, rq: &Rq) -> R {
        match self.nearest(base) {
            Err(()) => return R::Hard,
            Ok(Some((d, v))) if self.o.browser => {
                if let Some(val) = browser_map(&v).and_then(|m| m.get(&rq.t)).cloned() {
                    if let Some(r) = self.browser_value(&d, &v, &val, rq, true) {
                        self.mark("browser-module");
                        return r;
                    }
                }
            }
            _ => {}
        }
        self.modules(base, rq)
    }

    // ---------------------------------------------------------------- browser field
    /// path `p` requested; `d` owns it. None = no key matches.
    fn browser_path(&self, d: &Path, v: &Value, p: &Path, dironly: bool, rq: &Rq, allow_dir: bool) -> Option<R> {
        let m = browser_map(v)?;
        let mut cands = vec![p.to_path_buf()];
        if !dironly {
            for e in &self.o.ext {
                cands.push(append(p, e));
            }
        }
        for (i, c) in cands.iter().enumerate() {
            for (k, val) in m.iter() {
                if !(val.is_string() || val.as_bool() == Some(false)) {
                    continue;
                }
                if &lex(&d.join(k)) == c {
                    if k.starts_with('/') || k.split('/').any(|s| s == "..") {
                        self.uns("browser key leaves the package");
                    }
                    // an earlier candidate that exists would have been chosen before
                    if cands[..i].iter().any(|x| x.is_file()) {
                        self.uns("browser key behind an existing candidate");
                    }
                    if dironly {
                        self.uns("browser key with trailing slash");
                    }
                    if m.keys().filter(|k2| lex(&d.join(k2.as_str())) == *c).count() > 1 {
                        self.uns("two spellings of one browser key");
                    }
                    let r = self.browser_value(d, v, val, rq, allow_dir);
                    if r.is_some() {
                        self.mark("browser-path");
                    }
                    return r;
                }
            }
        }
        None
    }
    fn browser_value(&self, d: &Path, v: &Value, val: &Value, rq: &Rq, allow_dir: bool) -> Option<R> {
        let m = browser_map(v)?;
        let mut cur = val.clone();
        let mut seen: Vec<String> = vec![];
        loop {
            match &cur {
                Value::Bool(false) => {
                    self.mark("browser-ignored");
                    return Some(R::Ignored);
                }
                Value::String(s) => {
                    if seen.contains(s) {
                        self.uns("cyclic browser map");
                        return Some(R::Fail);
                    }
                    seen.push(s.clone());
                    match m.get(s) {
                        Some(n) if n.is_string() || n.as_bool() == Some(false) => {
                            self.mark("browser-chain");
                            cur = n.clone();
                        }
                        _ => {
                            let t = s.clone();
                            let r2 = Rq { t: t.clone(), ..rq.clone() };
                            if is_rel(&t) || t.starts_with('/') {
                                let p = join(d, &t);
                                if !allow_dir && p.is_dir() {
                                    self.uns("main file mapped to a directory");
                                }
                                return Some(self.path(&p, dir_only(&t), &r2));
                            }
                            if t.starts_with('#') {
                                self.uns("browser value starts with #");
                                return Some(R::Fail);
                            }
                            self.mark("browser-to-module");
                            return Some(self.modules(d, &r2));
                        }
                    }
                }
                _ => return None,
            }
        }
    }

    // ---------------------------------------------------------------- files and directories
    fn path(&self, p: &Path, dironly: bool, rq: &Rq) -> R {
        match self.file(p, dironly, rq) {
            R::Fail => self.dir(p, rq),
            r => r,
        }
    }
    fn file(&self, p: &Path, dironly: bool, rq: &Rq) -> R {
        if dironly {
            return R::Fail;
        }
        if !self.o.effective_enforce() && p.is_file() {
            return R::File(p.to_path_buf(), rq.q.clone(), rq.f.clone());
        }
        for (i, e) in self.o.ext.iter().enumerate() {
            let c = append(p, e);
            if c.is_file() {
                self.mark(if i == 0 { "ext-first" } else { "ext-later" });
                return R::File(c, rq.q.clone(), rq.f.clone());
            }
        }
        R::Fail
    }
    fn dir(&self, d: &Path, rq: &Rq) -> R {
        let d = lex(d);
        if !d.is_dir() {
            return R::Fail;
        }
        if self.dirstack.borrow().contains(&d) {
            self.mark("main-cycle");
            return R::Fail;
        }
        self.dirstack.borrow_mut().push(d.clone());
        let r = self.dir_inner(&d, rq);
        self.dirstack.borrow_mut().pop();
        r
    }
    fn dir_inner(&self, d: &Path, rq: &Rq) -> R {
        let near = match self.nearest(d) {
            Ok(n) => n,
            Err(()) => return R::Hard,
        };
        self.mark("directory");
        if let Some((nd, v)) = &near {
            if nd == d {
                let present: Vec<&str> = self
                    .o
                    .main_fields
                    .iter()
                    .filter_map(|k| v.get(k.as_str()).and_then(|x| x.as_str()))
                    .collect();
                for (i, m) in present.iter().enumerate() {
                    if *m == "." || *m == "./" {
                        self.mark("main-itself");
                        continue;
                    }
                    let t = if m.starts_with("./") { m.to_string() } else { format!("./{m}") };
                    let p = join(d, &t);
                    let mapped = if self.o.browser {
                        self.browser_path(nd, v, &p, dir_only(&t), rq, true)
                    } else {
                        None
                    };
                    let r = match mapped {
                        Some(r) => r,
                        None => self.path(&p, dir_only(&t), rq),
                    };
                    if r.ok() {
                        self.mark(if i == 0 { "main-field" } else { "main-field-later" });
                        return r;
                    }
                    if let R::Hard = r {
                        self.uns("hard failure below a main field");
                    }
                    self.mark("main-field-dangling");
                }
            }
        }
        for (i, mf) in self.o.main_files.iter().enumerate() {
            let p = join(d, &format!("./{mf}"));
            let mapped = match (&near, self.o.browser) {
                (Some((nd, v)), true) => self.browser_path(nd, v, &p, false, rq, false),
                _ => None,
            };
            let r = match mapped {
                Some(r) => r,
                None => self.file(&p, false, rq),
            };
            if r.ok() {
                self.mark(if i == 0 { "main-file" } else { "main-file-later" });
                return r;
            }
        }
        R::Fail
    }

    // ---------------------------------------------------------------- node_modules
    fn modules(&self, base: &Path, rq: &Rq) -> R {
        let key = (base.to_path_buf(), rq.t.clone());
        if self.modstack.borrow().contains(&key) || self.modstack.borrow().len() > 100 {
            self.uns("recursive module lookup");
            return R::Fail;
        }
        self.modstack.borrow_mut().push(key);
        let r = self.modules_inner(base, rq);
        self.modstack.borrow_mut().pop();
        r
    }
    fn modules_inner(&self, base: &Path, rq: &Rq) -> R {
        let t = rq.t.as_str();
        let name = pkg_name(t);
        match self.nearest(base) {
            Err(()) => return R::Hard,
            Ok(Some((d, v))) if v.get("name").and_then(|n| n.as_str()) == Some(name) => {
                if let Some(ex) = v.get("exports").filter(|e| !e.is_null()) {
                    self.mark("self-reference");
                    return self.exports(&d, ex, &rq.t[name.len()..], rq);
                }
            }
            _ => {}
        }
        let mut level = 0;
        for dir in base.ancestors() {
            let nm = dir.join("node_modules");
            if !nm.is_dir() {
                continue;
            }
            level += 1;
            if name.is_empty() || name.split('/').any(|s| s == "." || s == "..") {
                self.uns("odd package name");
            }
            let mp = nm.join(name);
            let r = if mp.is_dir() {
                self.in_package(&mp, name, &nm, rq)
            } else {
                self.no_package(&nm, rq)
            };
            match r {
                R::Fail => {
                    self.mark("level-skipped");
                    continue;
                }
                r => {
                    if r.ok() && level > 1 {
                        self.mark("outer-level");
                    }
                    return r;
                }
            }
        }
        R::Fail
    }
    fn in_package(&self, mp: &Path, name: &str, nm: &Path, rq: &Rq) -> R {
        let own = match self.desc_at(mp) {
            Ok(v) => v,
            Err(()) => return R::Hard,
        };
        if let Some(ex) = own.as_ref().and_then(|v| v.get("exports")).filter(|e| !e.is_null()) {
            self.mark("exports");
            return self.exports(mp, ex, &rq.t[name.len()..], rq);
        }
        let p = join(nm, &format!("./{}", rq.t));
        self.mark("package");
        self.path_with_browser(&p, dir_only(&rq.t), rq, true)
    }
    fn no_package(&self, nm: &Path, rq: &Rq) -> R {
        if self.nearest(nm).is_err() {
            return R::Hard;
        }
        self.file(&join(nm, &rq.t), dir_only(&rq.t), rq)
    }

    fn exports(&self, pkg: &Path, ex: &Value, sub: &str, rq: &Rq) -> R {
        if self.o.effective_enforce() {
            self.uns("enforce_extension with exports");
        }
        let qf = !rq.q.is_empty() || !rq.f.is_empty();
        let sub = format!(".{sub}");
        if qf && (sub == "." || sub.ends_with('/') || rq.q.contains('/') || rq.f.contains('/')) {
            self.uns("query on the package root or with a slash, through exports");
        }
        let key = if sub == "." && qf { format!("./{}{}", rq.q, rq.f) } else { format!("{sub}{}{}", rq.q, rq.f) };
        let list = match self.lookup(ex, &key, true) {
            Lookup::Targets(l) => l,
            Lookup::Error => return R::Hard,
        };
        if list.len() > 1 {
            self.mark("exports-array");
        }
        for item in list {
            let (t, q, f) = split(&item);
            if qf && (q != rq.q || f != rq.f) {
                self.mark("query-cuts-target");
                continue;
            }
            if !t.starts_with("./") {
                self.uns("exports target without ./");
            }
            if dir_only(&t) {
                continue;
            }
            let p = join(pkg, &t);
            if stays_inside(&t) && p.is_file() {
                let r2 = Rq { t, q, f };
                return match self.nearest(&p) {
                    Err(()) => R::Hard,
                    Ok(Some((d, v))) if self.o.browser => match self.browser_path(&d, &v, &p, false, &r2, true) {
                        Some(r) => r,
                        None => R::File(p, r2.q, r2.f),
                    },
                    _ => R::File(p, r2.q, r2.f),
                };
            }
            self.mark("target-skipped");
        }
        R::Hard
    }

    /// no imports field: an ordinary module name (as in Node's require)
    fn unmapped_internal(&self, base: &Path, rq: &Rq) -> R {
        if self.o.browser {
            self.uns("browser field and a # request without imports");
        }
        self.modules(base, rq)
    }
    fn imports(&self, base: &Path, rq: &Rq) -> R {
        if self.o.effective_enforce() {
            self.uns("enforce_extension with imports");
        }
        let (d, v) = match self.nearest(base) {
            Err(()) => return R::Hard,
            Ok(None) => return self.unmapped_internal(base, rq),
            Ok(Some(x)) => x,
        };
        let im = match v.get("imports").filter(|e| !e.is_null()) {
            Some(im) => im.clone(),
            None => return self.unmapped_internal(base, rq),
        };
        self.mark("imports");
        let mut cur = rq.t.clone();
        let mut q = rq.q.clone();
        let mut f = rq.f.clone();
        let mut seen = vec![];
        loop {
            // a wildcard target may grow for ever instead of coming back
            if seen.contains(&cur) || seen.len() > 64 || cur.len() > 4096 {
                self.mark("imports-cycle");
                return R::Hard;
            }
            seen.push(cur.clone());
            let list = match self.lookup(&im, &cur, false) {
                Lookup::Targets(l) => l,
                Lookup::Error => return R::Hard,
            };
            let item = match list.first() {
                Some(i) => i.clone(),
                None => return R::Hard,
            };
            if item.contains('?') || item.chars().skip(1).any(|c| c == '#') {
                self.uns("query in an imports target");
            }
            if item.starts_with('#') {
                self.mark("imports-chain");
                cur = item;
                continue;
            }
            let (t, _, _) = split(&item);
            let r2 = Rq { t: t.clone(), q: std::mem::take(&mut q), f: std::mem::take(&mut f) };
            if is_rel(&t) {
                let p = join(&d, &t);
                if dir_only(&t) || !stays_inside(&t) || !p.is_file() {
                    return R::Hard;
                }
                if self.o.browser {
                    if let Some(r) = self.browser_path(&d, &v, &p, false, &r2, true) {
                        return r;
                    }
                }
                return R::File(p, r2.q, r2.f);
            }
            if t.starts_with('/') {
                self.uns("absolute imports target");
                return R::Fail;
            }
            self.mark("imports-to-module");
            return self.bare_with_browser(&d, &r2);
        }
    }

    // ---------------------------------------------------------------- exports / imports maps
    /// Targets (after substitution) that `map` gives for `key`.
    pub fn lookup(&self, map: &Value, key: &str, exports: bool) -> Lookup {
        if exports {
            if key != "." && !key.starts_with("./") {
                return Lookup::Error;
            }
            let keyed = map.as_object().map_or(false, |m| m.keys().any(|k| k.starts_with('.') || k.starts_with('/')));
            if !keyed {
                if !self.valid(map) {
                    return Lookup::Error;
                }
                if key.ends_with('/') {
                    return Lookup::Error;
                }
                return if key == "." { self.value(map, None, false, exports) } else { Lookup::Targets(vec![]) };
            }
            if map.as_object().unwrap().keys().any(|k| k != "." && !k.starts_with("./")) {
                return Lookup::Error;
            }
        } else {
            let m = match map.as_object() {
                Some(m) => m,
                None => return Lookup::Error,
            };
            if m.keys().any(|k| !k.starts_with('#') || k.len() == 1 || k.starts_with("#/")) {
                return Lookup::Error;
            }
            if key.len() == 1 || key.starts_with("#/") {
                return Lookup::Error;
            }
        }
        if !self.valid(map) {
            return Lookup::Error;
        }
        if key.ends_with('/') {
            return Lookup::Error;
        }
        let m = map.as_object().unwrap();
        // exact
        if let Some(v) = m.get(key) {
            if !key.contains('*') {
                if exports {
                    self.mark("exports-query-matters");
                }
                return self.value(v, None, false, exports);
            }
            self.uns("request spells a pattern key");
        }
        // longest prefix
        let mut best: Option<(&str, &Value, bool)> = None;
        for (k, v) in m {
            let (prefix, folder) = if let Some(p) = k.strip_suffix('*') {
                (p, false)
            } else if k.ends_with('/') {
                (k.as_str(), true)
            } else {
                if k.contains('*') {
                    self.uns("star in the middle of a key");
                }
                continue;
            };
            if prefix.contains('*') {
                self.uns("two stars in a key");
            }
            if !key.starts_with(prefix) {
                continue;
            }
            if key == prefix {
                self.uns("pattern with empty remainder");
            }
            match best {
                Some((bp, _, _)) if bp.len() > prefix.len() => {}
                Some((bp, _, _)) if bp.len() == prefix.len() => self.uns("folder and wildcard of the same prefix"),
                _ => best = Some((prefix, v, folder)),
            }
        }
        match best {
            None => Lookup::Targets(vec![]),
            Some((prefix, v, folder)) => {
                self.mark(if folder { "key-folder" } else { "key-pattern" });
                let rest = key[prefix.len()..].to_string();
                if has_dots(&rest) {
                    self.mark("dotted-match");
                    return Lookup::Targets(vec![]);
                }
                self.value(v, Some(rest), folder, exports)
            }
        }
    }
    fn valid(&self, v: &Value) -> bool {
        fn go(v: &Value, in_array: bool) -> bool {
            match v {
                Value::Null | Value::String(_) => true,
                Value::Array(a) => !in_array && a.iter().all(|x| go(x, true)),
                Value::Object(m) => m.values().all(|x| go(x, false)),
                _ => false,
            }
        }
        go(v, false)
    }
    fn value(&self, v: &Value, rest: Option<String>, folder: bool, exports: bool) -> Lookup {
        let mut out = vec![];
        match self.collect(v, &rest, folder, exports, &mut out) {
            Ok(_) => Lookup::Targets(out),
            Err(()) => Lookup::Error,
        }
    }
    /// Ok(true): the value decided (possibly to nothing); Ok(false): no condition matched
    fn collect(&self, v: &Value, rest: &Option<String>, folder: bool, exports: bool, out: &mut Vec<String>) -> Result<bool, ()> {
        match v {
            Value::Null => Ok(true),
            Value::String(s) => {
                if exports {
                    if s.len() < 2 || s.starts_with('/') || (s.starts_with('.') && !s.starts_with("./")) {
                        return Err(());
                    }
                }
                match rest {
                    None => {
                        if s.ends_with('/') {
                            return Err(());
                        }
                        out.push(s.clone());
                    }
                    Some(r) => {
                        if s.ends_with('/') != folder {
                            return Err(());
                        }
                        if folder {
                            out.push(format!("{s}{r}"));
                        } else {
                            if exports && s.matches('*').count() != 1 || !s.ends_with('*') {
                                self.mark("exports-query-matters");
                            }
                            out.push(s.split('*').collect::<Vec<_>>().join(r));
                        }
                    }
                }
                Ok(true)
            }
            Value::Array(a) => {
                for x in a {
                    self.collect(x, rest, folder, exports, out)?;
                }
                Ok(true)
            }
            Value::Object(m) => {
                let n = m.len();
                for (i, (c, x)) in m.iter().enumerate() {
                    if c == "default" && i + 1 != n {
                        self.uns("default condition not last");
                    }
                    if c == "default" || self.o.conds.iter().any(|k| k == c) {
                        self.mark("condition");
                        if self.collect(x, rest, folder, exports, out)? {
                            return Ok(true);
                        }
                        self.mark("condition-fallthrough");
                    }
                }
                Ok(false)
            }
            _ => Err(()),
        }
    }

    // ---------------------------------------------------------------- tsconfig
    fn ts(&self, base: &Path, rq: &Rq) -> R {
        let loc = self.tsconfig.clone().unwrap();
        let (base_url, paths) = match self.ts_load(&loc, &mut vec![]) {
            Ok(x) => x,
            Err(()) => {
                self.mark("tsconfig-unusable");
                return R::Hard;
            }
        };
        if let (Some(bu), Some(m)) = (&base_url, &paths) {
            if !is_rel(&rq.t) {
                for (i, (list, star)) in ts_match(m, &rq.t, &self.unsupported).into_iter().enumerate() {
                    self.mark(if i == 0 { "tsconfig" } else { "tsconfig-next-pattern" });
                    for item in list {
                        let p = item.as_str().unwrap_or("").replace('*', &star);
                        if p.starts_with('/') && star.starts_with('/') {
                            self.uns("absolute text substituted at the start of a tsconfig path");
                        }
                        let p = bu.join(p);
                        let dironly = dir_only(&p.to_string_lossy());
                        let r = self.full(&lex(&p), &Rq { t: if dironly { "./".into() } else { String::new() }, ..rq.clone() });
                        if r.ok() {
                            self.mark("tsconfig-hit");
                            return r;
                        }
                        self.mark("tsconfig-next");
                    }
                }
            }
        }
        self.full(base, rq)
    }
    fn ts_load(&self, loc: &Path, seen: &mut Vec<PathBuf>) -> Result<(Option<PathBuf>, Option<serde_json::Map<String, Value>>), ()> {
        if seen.contains(&loc.to_path_buf()) {
            self.uns("cyclic tsconfig");
            return Err(());
        }
        seen.push(loc.to_path_buf());
        let txt = std::fs::read_to_string(loc).map_err(|_| ())?;
        let v: Value = serde_json::from_str(&strip_jsonc(&txt)).map_err(|_| ())?;
        let dir = loc.parent().unwrap();
        let (mut bu, mut paths) = (None, None);
        if let Some(Value::String(s)) = v.get("extends") {
            let (t, q, f) = split(s);
            let saved = self.stack.borrow().len();
            let r = self.full(dir, &Rq { t, q, f });
            self.stack.borrow_mut().truncate(saved);
            match r {
                R::File(p, _, _) => {
                    self.mark("tsconfig-extends");
                    let (b, p2) = self.ts_load(&lex(&p), seen)?;
                    bu = b;
                    paths = p2;
                }
                R::Ignored => return Err(()),
                _ => {
                    self.uns("unresolvable extends");
                }
            }
        } else if v.get("extends").map_or(false, |e| !e.is_null()) {
            self.uns("extends is not a string");
        }
        if let Some(co) = v.get("compilerOptions") {
            if let Some(b) = co.get("baseUrl") {
                bu = Some(dir.join(b.as_str().ok_or(())?));
            }
            if let Some(p) = co.get("paths") {
                paths = Some(p.as_object().ok_or(())?.clone());
            }
        }
        Ok((bu, paths))
    }
}

/// The matching patterns in the order in which they are tried.
pub fn ts_match(
    m: &serde_json::Map<String, Value>,
    t: &str,
    uns: &RefCell<BTreeSet<&'static str>>,
) -> Vec<(Vec<Value>, String)> {
    let mut found: Vec<(usize, &Value, String)> = vec![];
    if let Some(v) = m.get(t) {
        if t.contains('*') {
            uns.borrow_mut().insert("request spells a tsconfig pattern");
        }
        found.push((usize::MAX, v, String::new()));
    }
    for (k, v) in m {
        if let Some(i) = k.find('*') {
            let (a, b) = (&k[..i], &k[i + 1..]);
            if b.contains('*') {
                uns.borrow_mut().insert("two stars in a tsconfig pattern");
                continue;
            }
            if t.len() >= a.len() + b.len() && t.starts_with(a) && t.ends_with(b) {
                let star = t[a.len()..t.len() - b.len()].to_string();
                if star.is_empty() {
                    uns.borrow_mut().insert("tsconfig pattern with empty match");
                }
                if found.iter().any(|(l, _, _)| *l == a.len()) {
                    uns.borrow_mut().insert("tsconfig patterns with equal prefixes");
                }
                found.push((a.len(), v, star));
            }
        }
    }
    found.sort_by_key(|(l, _, _)| std::cmp::Reverse(*l));
    found.into_iter().map(|(_, v, star)| (v.as_array().cloned().unwrap_or_default(), star)).collect()
}

/// comments and trailing commas
pub fn strip_jsonc(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '"' {
            out.push(c);
            i += 1;
            while i < b.len() {
                out.push(b[i]);
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    out.push(b[i]);
                } else if b[i] == '"' {
                    break;
                }
                i += 1;
            }
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c == ',' {
            let mut j = i + 1;
            loop {
                while j < b.len() && b[j].is_whitespace() {
                    j += 1;
                }
                if b.get(j) == Some(&'/') && b.get(j + 1) == Some(&'/') {
                    while j < b.len() && b[j] != '\n' {
                        j += 1;
                    }
                } else if b.get(j) == Some(&'/') && b.get(j + 1) == Some(&'*') {
                    j += 2;
                    while j + 1 < b.len() && !(b[j] == '*' && b[j + 1] == '/') {
                        j += 1;
                    }
                    j += 2;
                } else {
                    break;
                }
            }
            if !matches!(b.get(j), Some('}') | Some(']')) {
                out.push(',');
            }
            i += 1;
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn browser_map(v: &Value) -> Option<&serde_json::Map<String, Value>> {
    v.get("browser").and_then(|b| b.as_object())
}

pub fn append(p: &Path, ext: &str) -> PathBuf {
    let mut s = p.as_os_str().to_os_string();
    s.push(ext);
    PathBuf::from(s)
}

fn join(base: &Path, t: &str) -> PathBuf {
    lex(&base.join(t))
}

/// the spelling denotes a directory only
pub fn dir_only(t: &str) -> bool {
    t.ends_with("/") || t == ".." || t.ends_with("/.") || t.ends_with("/..")
}
