//! Running the code under test.
use crate::interpose;
use crate::model::Out;
use nodejs_resolver::{ResolveResult, Resolver, SideEffects};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Path { path: PathBuf, q: String, f: String, target: String, joined: PathBuf },
    Ignored,
    Err(String),
    Panic(String),
}

/// file-system calls one request may make before it counts as running away (ordinary ones make < 3000)
pub const CALL_LIMIT: u64 = 1_000_000;

impl Act {
    pub fn out(&self) -> Option<Out> {
        match self {
            Act::Path { path, q, f, .. } => Some(Out::Path(path.clone(), q.clone(), f.clone())),
            Act::Ignored => Some(Out::Ignored),
            Act::Err(_) => Some(Out::Fail),
            Act::Panic(_) => None,
        }
    }
    pub fn ok(&self) -> bool {
        matches!(self, Act::Path { .. } | Act::Ignored)
    }
    pub fn show(&self, root: &Path) -> String {
        let r = root.to_string_lossy().to_string();
        let s = match self {
            Act::Path { path, q, f, .. } => format!("Ok({}{}{})", path.display(), q, f),
            Act::Ignored => "Ok(Ignored)".into(),
            Act::Err(e) => format!("Err({e})"),
            Act::Panic(e) => format!("PANIC({e})"),
        };
        s.replace(&r, "${R}")
    }
}

pub fn show_out(o: &Out, root: &Path) -> String {
    let r = root.to_string_lossy().to_string();
    let s = match o {
        Out::Path(p, q, f) => format!("Ok({}{}{})", p.display(), q, f),
        Out::Ignored => "Ok(Ignored)".into(),
        Out::Fail => "Err(_)".into(),
    };
    s.replace(&r, "${R}")
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if std::env::var_os("VH_VERBOSE").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

fn panic_msg() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn resolve_raw(r: &Resolver, base: &Path, req: &str) -> Act {
    match catch_unwind(AssertUnwindSafe(|| r.resolve(base, req))) {
        Err(_) => Act::Panic(panic_msg()),
        Ok(Err(e)) => Act::Err(e),
        Ok(Ok(ResolveResult::Ignored)) => Act::Ignored,
        Ok(Ok(ResolveResult::Info(i))) => Act::Path {
            path: i.path.clone(),
            q: i.request.query.to_string(),
            f: i.request.fragment.to_string(),
            target: i.request.target.to_string(),
            joined: i.join(),
        },
    }
}

pub fn resolve(r: &Resolver, base: &Path, req: &str) -> Act {
    interpose::arm(CALL_LIMIT);
    let a = resolve_raw(r, base, req);
    interpose::disarm();
    a
}

#[derive(Clone, Debug, PartialEq)]
pub enum Se {
    None,
    Some(PathBuf, Option<serde_json::Value>),
    Err(String),
    Panic(String),
}

pub fn side_effects(r: &Resolver, p: &Path) -> Se {
    interpose::arm(CALL_LIMIT);
    let x = catch_unwind(AssertUnwindSafe(|| r.load_side_effects(p)));
    interpose::disarm();
    match x {
        Err(_) => Se::Panic(panic_msg()),
        Ok(Err(e)) => Se::Err(e),
        Ok(Ok(None)) => Se::None,
        Ok(Ok(Some((p, v)))) => Se::Some(
            p,
            v.map(|v| match v {
                SideEffects::Bool(b) => serde_json::json!(b),
                SideEffects::Array(a) => serde_json::json!(a),
            }),
        ),
    }
}
