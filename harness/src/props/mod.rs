use crate::exec::{self, Act};
use crate::model::{Model, Out};
use crate::src::{hash_str, Src};
use crate::world::Case;
use std::collections::BTreeMap;
use std::path::Path;

pub mod conc;
pub mod hist;
pub mod mixed;
pub mod modeled;
pub mod oracle;
pub mod total;

#[derive(Default, Debug)]
pub struct Report {
    pub evals: u64,
    pub skipped: u64,
    /// hashes of the non-trivial evaluations
    pub nontrivial: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub violation: Option<String>,
}

impl Report {
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_insert(0) += 1;
    }
    pub fn nontriv(&mut self, key: &str) {
        self.nontrivial.push(hash_str(key));
    }
    pub fn fail(&mut self, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(msg);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Src) -> Case,
    pub check: fn(&Case, &Path, &mut Report),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// check wants the tree materialized before it runs
    pub materialize: bool,
}

pub fn all() -> Vec<Prop> {
    let mut v = modeled::props();
    v.extend(mixed::props());
    v.extend(hist::props());
    v.extend(conc::props());
    v.extend(oracle::props());
    v.extend(total::props());
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

pub fn case_key(c: &Case) -> String {
    format!("{}{}", c.world.to_json(), c.opts.to_json())
}

/// Compare one request with the reference model. Returns the model's answer when in the domain.
pub fn against_model(
    r: &nodejs_resolver::Resolver,
    m: &Model,
    root: &Path,
    base: &str,
    req: &str,
    key: &str,
    interesting: &[&str],
    rep: &mut Report,
) -> Option<(Out, Act)> {
    let b = root.join(base);
    let rq = crate::world::subst(req, root);
    let want = m.resolve(&b, &rq);
    if !m.supported() {
        rep.skipped += 1;
        for u in m.unsupported.borrow().iter() {
            rep.class(&format!("outside-domain: {u}"));
        }
        return None;
    }
    rep.evals += 1;
    let got = exec::resolve(r, &b, &rq);
    let used: Vec<&str> = m.used.borrow().iter().copied().collect();
    for u in &used {
        rep.class(u);
    }
    rep.class(match &want {
        Out::Path(..) => "result: path",
        Out::Ignored => "result: ignored",
        Out::Fail => "result: failure",
    });
    let nt = if interesting.is_empty() {
        matches!(want, Out::Path(..) | Out::Ignored)
    } else {
        interesting.iter().any(|i| used.contains(i))
    };
    if nt {
        rep.nontriv(&format!("{key}|{base}|{req}"));
    }
    if got.out().as_ref() != Some(&want) {
        rep.fail(format!(
            "resolve({base:?}, {req:?}) gave {} but the rules give {} [{}]",
            got.show(root),
            exec::show_out(&want, root),
            used.join(", ")
        ));
    }
    Some((want, got))
}
