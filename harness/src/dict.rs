//! A dictionary for the generators: the string literals, characters and small numbers that occur in the crate's
//! own source. It only decides which inputs are tried; what a run must give is decided by the oracles alone.
use crate::src::Src;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Dict {
    /// literals as they are
    pub raw: Vec<String>,
    /// those that can be a part of a name
    pub words: Vec<String>,
    /// short literals of any kind that can stand inside of a name
    pub frags: Vec<String>,
    /// numbers between 2 and 4096
    pub ints: Vec<usize>,
    /// how many of each come last and are not in known_literals.txt
    new_raw: usize,
    new_words: usize,
    new_frags: usize,
    new_ints: usize,
}

fn crate_dir() -> PathBuf {
    let t = include_str!("../Cargo.toml");
    let p = t.lines().find_map(|l| l.strip_prefix("nodejs-resolver = { path = \"")).and_then(|r| r.split('"').next()).unwrap_or("/repo");
    PathBuf::from(p)
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

/// string, character and number literals of a Rust file, outside comments
fn literals(t: &str, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<usize>) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut prev = ' ';
    while i < c.len() {
        let x = c[i];
        if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' {
            let hashes = {
                let mut k = i;
                while k > 0 && c[k - 1] == '#' {
                    k -= 1;
                }
                if k > 0 && c[k - 1] == 'r' { Some(i - k) } else { None }
            };
            i += 1;
            let mut s = String::new();
            while i < c.len() {
                match (c[i], hashes) {
                    ('"', None) => break,
                    ('"', Some(n)) if c[i + 1..].iter().take(n).filter(|y| **y == '#').count() == n => break,
                    ('\\', None) => {
                        i += 1;
                        match c.get(i) {
                            Some('n') => s.push('\n'),
                            Some('t') => s.push('\t'),
                            Some('0') => s.push('\0'),
                            Some('r') => s.push('\r'),
                            Some('\n') => {
                                while c.get(i + 1).map_or(false, |y| y.is_whitespace()) {
                                    i += 1;
                                }
                            }
                            Some('u') | Some('x') => {
                                let mut h = String::new();
                                let brace = c[i] == 'u';
                                i += if brace { 2 } else { 1 };
                                while i < c.len() && c[i].is_ascii_hexdigit() && (brace || h.len() < 2) {
                                    h.push(c[i]);
                                    i += 1;
                                }
                                if !brace {
                                    i -= 1;
                                }
                                if let Some(y) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                    s.push(y);
                                }
                            }
                            Some(y) => s.push(*y),
                            None => {}
                        }
                    }
                    (y, _) => s.push(y),
                }
                i += 1;
            }
            strs.insert(s);
            i += 1;
        } else if x == '\'' {
            // a character, or a lifetime
            if c.get(i + 1) == Some(&'\\') {
                let mut k = i + 2;
                while k < c.len() && c[k] != '\'' || k == i + 2 {
                    k += 1;
                }
                i = k + 1;
            } else if c.get(i + 2) == Some(&'\'') {
                strs.insert(c[i + 1].to_string());
                i += 3;
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() && !(prev.is_alphanumeric() || prev == '_') {
            let mut h = String::new();
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
                if c[i] != '_' {
                    h.push(c[i]);
                }
                i += 1;
            }
            if let Ok(n) = h.parse::<usize>() {
                if (2..=4096).contains(&n) {
                    ints.insert(n);
                }
            }
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
        prev = if i > 0 && i <= c.len() { c[i - 1] } else { ' ' };
    }
}

fn word_ok(w: &str) -> bool {
    let n = w.chars().count();
    (1..=24).contains(&n)
        && w.chars().all(|c| c.is_alphanumeric() || "._-+$~=,;!&()[]^".contains(c))
        && w.chars().any(|c| c.is_alphanumeric())
        && !w.starts_with(['~', '!', '-', '.', '@'])
        && !w.ends_with('.')
        && !w.to_lowercase().contains("node_modules")
        && !w.to_lowercase().ends_with("json")
        && !w.to_lowercase().contains("package")
}

fn frag_ok(w: &str) -> bool {
    (1..=12).contains(&w.chars().count())
        && w.chars().all(|c| !c.is_control() && !"/?#*:\\{}.@".contains(c))
        && !w.ends_with(' ')
        && !w.to_lowercase().contains("node_modules")
        && !w.to_lowercase().contains("package")
        && !w.to_lowercase().contains("json")
}

fn split(s: &str) -> Vec<String> {
    // pieces of a format string, and of what is joined by separators
    let mut out = vec![];
    let mut cur = String::new();
    let mut depth = 0;
    for c in s.chars() {
        match c {
            '{' | '}' => {
                depth = if c == '{' { 1 } else { 0 };
                out.push(std::mem::take(&mut cur));
            }
            _ if depth > 0 => {}
            '/' | ' ' | '"' | '\'' | '\n' | ':' | '*' | '#' | '?' | '@' | '%' => out.push(std::mem::take(&mut cur)),
            c => cur.push(c),
        }
    }
    out.push(cur);
    out
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut strs, mut ints) = (BTreeSet::new(), BTreeSet::new());
        let mut fs = vec![];
        sources(&crate_dir().join("src"), &mut fs);
        for f in fs {
            if let Ok(t) = std::fs::read_to_string(&f) {
                let t = t.split("#[cfg(test)]").next().and_then(|t| t.split("#[test]").next()).unwrap_or("");
                literals(t, &mut strs, &mut ints);
            }
        }
        let known: BTreeSet<String> = include_str!("../known_literals.txt").lines().map(|l| l.to_string()).collect();
        let mut words = BTreeSet::new();
        for s in &strs {
            for p in split(s) {
                let p = p.trim_start_matches(['.', '~', '!', '-', '@']).trim_end_matches('.').to_string();
                if word_ok(&p) {
                    words.insert(p);
                }
            }
        }
        fn last<T: ToString>(v: Vec<T>, known: &BTreeSet<String>, tag: &str) -> (Vec<T>, usize) {
            let (a, b): (Vec<T>, Vec<T>) = v.into_iter().partition(|x| known.contains(&format!("{tag} {}", serde_json::Value::String(x.to_string()))));
            let n = b.len();
            (a.into_iter().chain(b).collect(), n)
        }
        let (raw, new_raw) = last(strs.iter().cloned().filter(|s| s.len() <= 60).collect::<Vec<_>>(), &known, "raw");
        let frags: Vec<String> = strs.iter().filter(|w| frag_ok(w)).cloned().collect();
        let (frags, new_frags) = last(frags, &known, "frag");
        let (words, new_words) = last(words.into_iter().collect::<Vec<_>>(), &known, "word");
        let (ints, new_ints) = last(ints.into_iter().collect::<Vec<_>>(), &known, "int");
        Dict { raw, words, frags, ints, new_raw, new_words, new_frags, new_ints }
    })
}

/// what known_literals.txt holds
pub fn listing() -> String {
    let d = dict();
    let mut o = String::new();
    for (tag, v) in [("raw", d.raw.clone()), ("word", d.words.clone()), ("frag", d.frags.clone()), ("int", d.ints.iter().map(|i| i.to_string()).collect())] {
        let mut v = v;
        v.sort();
        for x in v {
            o += &format!("{tag} {}\n", serde_json::Value::String(x));
        }
    }
    o
}

thread_local! {
    static FIXED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// For a generator whose cases shall not depend on the crate's source.
pub fn fixed(on: bool) {
    FIXED.with(|f| f.set(on));
}
pub fn is_fixed() -> bool {
    FIXED.with(|f| f.get())
}
const SOME: &[&str] = &["browser", "default", "exports", "fs", "http2", "import", "js", "module", "process", "require", "v8", "A", "compilerOptions"];

fn some<T: Clone>(s: &mut Src, v: &[T], new: usize, or: T) -> T {
    let fixed = FIXED.with(|f| f.get());
    if v.is_empty() || fixed {
        return or;
    }
    // as often one that is new as one that was always there
    let i = if new > 0 && s.chance(1, 2) { v.len() - new + s.below(new) } else { s.below(v.len()) };
    v[i].clone()
}
pub fn raw(s: &mut Src) -> String {
    let d = dict();
    let or = s.s(SOME);
    some(s, &d.raw, d.new_raw, or)
}
pub fn word(s: &mut Src) -> String {
    let d = dict();
    let or = s.s(SOME);
    some(s, &d.words, d.new_words, or)
}
pub fn frag(s: &mut Src) -> String {
    let d = dict();
    let or = s.s(&["$", "%", "~", "x"]);
    some(s, &d.frags, d.new_frags, or)
}
/// a number from the source or next to it, at most `max`
pub fn int(s: &mut Src, max: usize) -> usize {
    let d = dict();
    let ok = |v: &[usize]| v.iter().copied().filter(|x| *x <= max).collect::<Vec<_>>();
    let (old, new) = d.ints.split_at(d.ints.len() - d.new_ints);
    let (mut all, new) = (ok(old), ok(new));
    let n = new.len();
    all.extend(new);
    let or = *s.pick(&[2, 4, 8, 16, 32, 64]);
    (some(s, &all, n, or) + s.below(3)).saturating_sub(1).clamp(1, max)
}
