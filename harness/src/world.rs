//! A concrete file tree, resolver options and cases, all plain JSON so that a replay file needs no generator.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(String),
    Dir,
    Link(String),
    /// neither a file nor a directory
    Pipe,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub nodes: BTreeMap<String, Node>,
}

pub fn subst(s: &str, root: &Path) -> String {
    s.replace("${R}", &root.to_string_lossy())
}

impl World {
    pub fn parent_ok(&self, path: &str) -> bool {
        // every proper ancestor must be absent or a directory
        let mut p = path;
        while let Some(i) = p.rfind('/') {
            p = &p[..i];
            match self.nodes.get(p) {
                Some(Node::Dir) | None => {}
                _ => return false,
            }
        }
        true
    }
    pub fn has_children(&self, path: &str) -> bool {
        let pre = format!("{path}/");
        self.nodes.range(pre.clone()..).next().map_or(false, |(k, _)| k.starts_with(&pre))
    }
    pub fn exists(&self, path: &str) -> bool {
        self.nodes.contains_key(path) || self.has_children(path)
    }
    pub fn is_dir(&self, path: &str) -> bool {
        path.is_empty() || matches!(self.nodes.get(path), Some(Node::Dir)) || self.has_children(path)
    }
    pub fn file(&mut self, path: &str, content: &str) -> bool {
        if !self.parent_ok(path) || self.is_dir(path) || matches!(self.nodes.get(path), Some(Node::Link(_))) {
            return false;
        }
        self.nodes.insert(path.to_string(), Node::File(content.to_string()));
        true
    }
    pub fn dir(&mut self, path: &str) -> bool {
        if path.is_empty() || !self.parent_ok(path) {
            return false;
        }
        if self.nodes.contains_key(path) {
            return matches!(self.nodes.get(path), Some(Node::Dir));
        }
        self.nodes.insert(path.to_string(), Node::Dir);
        true
    }
    pub fn link(&mut self, path: &str, target: &str) -> bool {
        if !self.parent_ok(path) || self.exists(path) {
            return false;
        }
        self.nodes.insert(path.to_string(), Node::Link(target.to_string()));
        true
    }
    pub fn pipe(&mut self, path: &str) -> bool {
        if !self.parent_ok(path) || self.exists(path) {
            return false;
        }
        self.nodes.insert(path.to_string(), Node::Pipe);
        true
    }
    pub fn all_dirs(&self) -> Vec<String> {
        let mut set: Vec<String> = vec![String::new()];
        for (k, n) in &self.nodes {
            let mut p = k.as_str();
            if matches!(n, Node::Dir) {
                set.push(p.to_string());
            }
            while let Some(i) = p.rfind('/') {
                p = &p[..i];
                set.push(p.to_string());
            }
        }
        set.sort();
        set.dedup();
        set
    }
    pub fn files(&self) -> Vec<String> {
        self.nodes
            .iter()
            .filter(|(_, n)| matches!(n, Node::File(_)))
            .map(|(k, _)| k.clone())
            .collect()
    }
    pub fn to_json(&self) -> Value {
        let mut m = Map::new();
        for (k, n) in &self.nodes {
            m.insert(
                k.clone(),
                match n {
                    Node::File(c) => json!({ "file": c }),
                    Node::Dir => json!("dir"),
                    Node::Link(t) => json!({ "link": t }),
                    Node::Pipe => json!("pipe"),
                },
            );
        }
        Value::Object(m)
    }
    pub fn from_json(v: &Value) -> World {
        let mut w = World::default();
        for (k, n) in v.as_object().unwrap() {
            let node = if let Some(c) = n.get("file") {
                Node::File(c.as_str().unwrap().to_string())
            } else if let Some(t) = n.get("link") {
                Node::Link(t.as_str().unwrap().to_string())
            } else if n == "pipe" {
                Node::Pipe
            } else {
                Node::Dir
            };
            w.nodes.insert(k.clone(), node);
        }
        w
    }
    pub fn materialize(&self, root: &Path) -> std::io::Result<()> {
        std::fs::create_dir_all(root)?;
        let mut made: HashSet<PathBuf> = HashSet::new();
        for (k, n) in &self.nodes {
            let p = root.join(k);
            if let Some(parent) = p.parent() {
                if made.insert(parent.to_path_buf()) {
                    std::fs::create_dir_all(parent)?;
                }
            }
            match n {
                Node::File(c) => match c.strip_prefix("hex:") {
                    // bytes that are no UTF-8
                    Some(h) => {
                        let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
                        std::fs::write(&p, b)?
                    }
                    None => std::fs::write(&p, subst(c, root))?,
                },
                Node::Dir => {
                    std::fs::create_dir_all(&p)?;
                }
                Node::Link(t) => std::os::unix::fs::symlink(subst(t, root), &p)?,
                Node::Pipe => {
                    use std::os::unix::ffi::OsStrExt;
                    let c = std::ffi::CString::new(p.as_os_str().as_bytes())?;
                    if unsafe { libc::mkfifo(c.as_ptr(), 0o644) } != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub ext: Vec<String>,
    pub enforce: Option<bool>,
    /// None = ignored
    pub alias: Vec<(String, Option<String>)>,
    pub prefer_relative: bool,
    pub symlinks: bool,
    pub desc: Option<String>,
    pub main_files: Vec<String>,
    pub main_fields: Vec<String>,
    pub browser: bool,
    pub conds: Vec<String>,
    pub tsconfig: Option<String>,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            ext: vec![".js".into(), ".json".into(), ".node".into()],
            enforce: None,
            alias: vec![],
            prefer_relative: false,
            symlinks: true,
            desc: Some("package.json".into()),
            main_files: vec!["index".into()],
            main_fields: vec!["main".into()],
            browser: false,
            conds: vec!["node".into()],
            tsconfig: None,
        }
    }
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

impl Opts {
    pub fn to_json(&self) -> Value {
        json!({
            "ext": self.ext, "enforce": self.enforce,
            "alias": self.alias.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
            "prefer_relative": self.prefer_relative, "symlinks": self.symlinks, "desc": self.desc,
            "main_files": self.main_files, "main_fields": self.main_fields, "browser": self.browser,
            "conds": self.conds, "tsconfig": self.tsconfig,
        })
    }
    pub fn from_json(v: &Value) -> Opts {
        Opts {
            ext: strs(&v["ext"]),
            enforce: v["enforce"].as_bool(),
            alias: v["alias"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|e| (e[0].as_str().unwrap().to_string(), e[1].as_str().map(|s| s.to_string())))
                        .collect()
                })
                .unwrap_or_default(),
            prefer_relative: v["prefer_relative"].as_bool().unwrap_or(false),
            symlinks: v["symlinks"].as_bool().unwrap_or(true),
            desc: v["desc"].as_str().map(|s| s.to_string()),
            main_files: strs(&v["main_files"]),
            main_fields: strs(&v["main_fields"]),
            browser: v["browser"].as_bool().unwrap_or(false),
            conds: strs(&v["conds"]),
            tsconfig: v["tsconfig"].as_str().map(|s| s.to_string()),
        }
    }
    pub fn build(&self, root: &Path, cache: Option<Arc<nodejs_resolver::ResolverCache>>) -> nodejs_resolver::Resolver {
        nodejs_resolver::Resolver::new(nodejs_resolver::ResolverOptions {
            extensions: self.ext.clone(),
            enforce_extension: self.enforce,
            alias: self
                .alias
                .iter()
                .map(|(k, v)| {
                    (
                        subst(k, root),
                        match v {
                            Some(t) => nodejs_resolver::AliasMap::Target(subst(t, root)),
                            None => nodejs_resolver::AliasMap::Ignored,
                        },
                    )
                })
                .collect(),
            prefer_relative: self.prefer_relative,
            external_cache: cache,
            symlinks: self.symlinks,
            description_file: self.desc.clone(),
            main_files: self.main_files.clone(),
            main_fields: self.main_fields.clone(),
            browser_field: self.browser,
            condition_names: self.conds.iter().cloned().collect(),
            tsconfig: self.tsconfig.as_ref().map(|t| root.join(t)),
        })
    }
    pub fn effective_enforce(&self) -> bool {
        self.enforce.unwrap_or_else(|| self.ext.iter().any(|e| e.is_empty()))
    }
}

/// One request: base directory (relative to the world's root) and the request string.
pub type Rq = (String, String);

/// A self-contained test case.
#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub world: World,
    pub opts: Opts,
    pub reqs: Vec<Rq>,
    /// property-specific extra data (history steps, second option set, fault plan, ...)
    pub extra: Value,
}

impl Case {
    pub fn to_json(&self) -> Value {
        json!({
            "property": self.prop, "world": self.world.to_json(), "options": self.opts.to_json(),
            "requests": self.reqs.iter().map(|(b, r)| json!([b, r])).collect::<Vec<_>>(), "extra": self.extra,
        })
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            prop: v["property"].as_str().unwrap().to_string(),
            world: World::from_json(&v["world"]),
            opts: Opts::from_json(&v["options"]),
            reqs: v["requests"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| (e[0].as_str().unwrap().to_string(), e[1].as_str().unwrap().to_string()))
                .collect(),
            extra: v["extra"].clone(),
        }
    }
}
