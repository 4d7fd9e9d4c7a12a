//! Threads (C15) and faults (C17).
use super::hist;
use super::mixed::{self, class_of, Knobs};
use super::*;
use crate::gen;
use crate::interpose;
use crate::world::{subst, Node, Opts};
use nodejs_resolver::{Resolver, ResolverCache};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::{Arc, Barrier};

// ---------------------------------------------------------------- a subscriber that looks at everything
struct Nosy;
struct Show;
impl tracing::field::Visit for Show {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        std::hint::black_box(format!("{v:?}").len());
    }
}
impl tracing::Subscriber for Nosy {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Show);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Show);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

// ---------------------------------------------------------------- C15
fn gen_c15(s: &mut Src) -> Case {
    let unicode = s.chance(1, 10);
    let mut m = mixed::mixed(s, &Knobs { unicode, ..Default::default() });
    m.f.side_effects = true;
    if s.chance(1, 3) {
        hist::equal_maps(s, &mut m.w, &m.f, "package.json");
    }
    if s.chance(1, 6) {
        let d = s.pick(&m.w.all_dirs()).clone();
        let p = gen::j(&d, "package.json");
        if !m.w.is_dir(&p) {
            m.w.nodes.remove(&p);
            let t = s.s(&["{", "", "{\"exports\":{\"./a\":\"/x\"}}"]);
            m.w.file(&p, &t);
        }
    }
    // two resolvers that keep different things about the same directories
    let duel = s.chance(1, 8);
    if duel {
        hist::two_names(s, &mut m.w, &m.f);
    }
    let others: Vec<Value> = if duel {
        let mut o = m.o.clone();
        o.desc = Some("desc.json".into());
        vec![o.to_json()]
    } else if s.chance(1, 2) { vec![] } else { (0..s.range(1, 2)).map(|_| hist::vary(s, &m.o, &m.w, &m.f, true).to_json()).collect() };
    let mut reqs = m.requests(s, 8);
    if duel {
        reqs.truncate(3);
    }
    let k = others.len() + 1;
    // plans[thread] = list of [request, resolver]; often all threads ask the same thing at the same time
    let threads = s.range(2, 6);
    let len = if duel { (60, 150) } else { (3, 12) };
    let same: Vec<Value> = (0..s.range(len.0, len.1)).map(|_| json!([s.below(reqs.len()), s.below(k)])).collect();
    let plans: Vec<Value> = (0..threads)
        .map(|_| {
            if !duel && s.chance(1, 2) {
                Value::Array(same.clone())
            } else {
                Value::Array((0..s.range(len.0, len.1)).map(|_| json!([s.below(reqs.len()), s.below(k)])).collect())
            }
        })
        .collect();
    let nosy = s.chance(1, 12);
    let unit = if s.chance(1, 3) { json!(0) } else { Value::Null };
    let jitter = if duel && s.chance(1, 2) { 0 } else { s.below(1 << 30) };
    mixed::case("C15", m.w, m.o, reqs, json!({"options": others, "plans": plans, "nosy": nosy, "jitter": jitter, "rounds": 3, "unit": unit}))
}
fn check_c15(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    hist::settle_times(&c.world, root, &c.extra["unit"]);
    let mut opts = vec![c.opts.clone()];
    for o in c.extra["options"].as_array().cloned().unwrap_or_default() {
        opts.push(Opts::from_json(&o));
    }
    let reqs: Arc<Vec<(PathBuf, String)>> = Arc::new(c.reqs.iter().map(|(b, q)| (root.join(b), subst(q, root))).collect());
    let expect: Vec<Vec<Act>> = opts.iter().map(|o| reqs.iter().map(|(b, q)| exec::resolve(&o.build(root, None), b, q)).collect()).collect();
    let expect_se: Vec<Vec<exec::Se>> = opts.iter().map(|o| reqs.iter().map(|(b, _)| exec::side_effects(&o.build(root, None), b)).collect()).collect();
    let plans: Vec<Vec<(usize, usize)>> = c.extra["plans"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|p| {
            p.as_array()
                .map(|a| a.iter().map(|x| (x[0].as_u64().unwrap_or(0) as usize, x[1].as_u64().unwrap_or(0) as usize)).filter(|(i, k)| *i < reqs.len() && *k < opts.len()).collect())
                .unwrap_or_default()
        })
        .filter(|p: &Vec<_>| !p.is_empty())
        .collect();
    let rounds = c.extra["rounds"].as_u64().unwrap_or(3) * std::env::var("VH_ROUNDS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let nosy = c.extra["nosy"] == true;
    let jit = c.extra["jitter"].as_u64().unwrap_or(1);
    for round in 0..rounds {
        let cache = Arc::new(ResolverCache::default());
        let rs: Arc<Vec<Resolver>> = Arc::new(opts.iter().map(|o| o.build(root, Some(cache.clone()))).collect());
        let bar = Arc::new(Barrier::new(plans.len()));
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (plan, rs, reqs, bar) = (plan.clone(), rs.clone(), reqs.clone(), bar.clone());
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let go = move || {
                            if jit > 0 {
                                interpose::jitter(jit.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((round << 8) + t as u64 + 1) | 1);
                            }
                            bar.wait();
                            let out: Vec<(Act, Option<exec::Se>)> = plan
                                .iter()
                                .enumerate()
                                .map(|(n, (i, k))| {
                                    let a = exec::resolve(&rs[*k], &reqs[*i].0, &reqs[*i].1);
                                    let se = if (n + t) % 4 == 0 { Some(exec::side_effects(&rs[*k], &reqs[*i].0)) } else { None };
                                    (a, se)
                                })
                                .collect();
                            interpose::jitter(0);
                            out
                        };
                        if nosy {
                            tracing::subscriber::with_default(Nosy, go)
                        } else {
                            go()
                        }
                    })
                    .unwrap()
            })
            .collect();
        let outs: Vec<Vec<(Act, Option<exec::Se>)>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        for (t, (plan, out)) in plans.iter().zip(outs).enumerate() {
            for ((i, k), (a, se)) in plan.iter().zip(out) {
                rep.evals += 1;
                rep.class(class_of(&a));
                if plans.len() > 1 {
                    rep.nontriv(&format!("{key}|{}|{t}|{i}|{k}", c.extra));
                }
                let bad_se = se.as_ref().map_or(false, |x| *x != expect_se[*k][*i]);
                if a != expect[*k][*i] || matches!(a, Act::Panic(_)) || bad_se {
                    rep.fail(format!(
                        "{} threads, round {round}: resolve({:?}, {:?}) gave {} but {} sequentially{}",
                        plans.len(), c.reqs[*i].0, c.reqs[*i].1, a.show(root), expect[*k][*i].show(root),
                        if bad_se { format!("; load_side_effects gave {se:?} but {:?} sequentially", expect_se[*k][*i]) } else { String::new() }
                    ));
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C17
const ERRNOS: &[i32] = &[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EINTR, libc::ENOMEM, libc::ELOOP, libc::ENOTDIR, interpose::SHORT_READ];

fn gen_c17(s: &mut Src) -> Case {
    let unicode = s.chance(1, 10);
    let mut m = mixed::mixed(s, &Knobs { unicode, ..Default::default() });
    m.f.side_effects = true;
    let reqs = m.requests(s, 6);
    // the first requests are made under faults, with or without a warm cache
    let warm = s.chance(1, 3);
    let errs: Vec<i32> = (0..2).map(|_| *s.pick(ERRNOS)).collect();
    let mut w = m.w.clone();
    let unit = hist::unit(s);
    let mut ts = hist::times(s, 20, unit);
    let edits: Vec<Value> = (0..2).map(|_| hist::edit(s, &mut w, &m.f, "package.json", &mut ts)).collect();
    mixed::case("C17", m.w, m.o, reqs, json!({"warm": warm, "errnos": errs, "edits": edits, "unit": unit}))
}
fn check_c17(c: &Case, root: &Path, rep: &mut Report) {
    let key = case_key(c);
    hist::settle_times(&c.world, root, &c.extra["unit"]);
    let reqs: Vec<(PathBuf, String)> = c.reqs.iter().map(|(b, q)| (root.join(b), subst(q, root))).collect();
    if reqs.is_empty() {
        return;
    }
    // a request that aliases send through thousands of calls is left to C16
    let cost = |b: &Path, q: &str| {
        let r = c.opts.build(root, None);
        interpose::arm(exec::CALL_LIMIT);
        exec::resolve_raw(&r, b, q);
        interpose::disarm().0
    };
    let all = reqs.len();
    let reqs: Vec<(PathBuf, String)> = reqs.into_iter().filter(|(b, q)| cost(b, q) < 1500).collect();
    rep.skipped += (all - reqs.len()) as u64;
    if reqs.is_empty() {
        return;
    }
    let fresh = |i: usize| exec::resolve(&c.opts.build(root, None), &reqs[i].0, &reqs[i].1);
    let expect: Vec<Act> = (0..reqs.len()).map(fresh).collect();
    let se_expect = exec::side_effects(&c.opts.build(root, None), &reqs[0].0);
    let warm = c.extra["warm"] == true;
    let errs: Vec<i32> = c.extra["errnos"].as_array().cloned().unwrap_or_default().iter().map(|e| e.as_i64().unwrap_or(5) as i32).collect();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let prepare = || {
        let r = c.opts.build(root, None);
        if warm {
            for (b, q) in reqs.iter().skip(1).take(2) {
                exec::resolve(&r, b, q);
            }
        }
        r
    };
    for victim in 0..reqs.len().min(2) {
        // how many calls does it make?
        let r = prepare();
        interpose::arm(exec::CALL_LIMIT);
        exec::resolve_raw(&r, &reqs[victim].0, &reqs[victim].1);
        let (n, _) = interpose::disarm();
        let cap = if thorough { 200 } else { 60 };
        for k in 0..n.min(cap) {
            for e in &errs {
                let r = prepare();
                interpose::arm_fault(exec::CALL_LIMIT, k, *e);
                let a = exec::resolve_raw(&r, &reqs[victim].0, &reqs[victim].1);
                let (_, fired) = interpose::disarm();
                rep.evals += 1;
                if fired {
                    rep.class(&format!("fault: {}", if *e == interpose::SHORT_READ { "short read".into() } else { std::io::Error::from_raw_os_error(*e).to_string() }));
                    rep.nontriv(&format!("{key}|{victim}|{k}|{e}"));
                }
                if let Act::Panic(p) = &a {
                    rep.fail(format!("resolve({:?}, {:?}) panicked when its file-system call {k} failed with {e}: {p}", reqs[victim].0, reqs[victim].1));
                    return;
                }
                if *e == interpose::SHORT_READ && a != expect[victim] {
                    rep.fail(format!("resolve({:?}, {:?}) gave {} when call {k} read less than it asked for, but {} otherwise", reqs[victim].0, reqs[victim].1, a.show(root), expect[victim].show(root)));
                    return;
                }
                if a != expect[victim] {
                    rep.class("the faulted request had another answer");
                }
                let order = [victim, (victim + 1) % reqs.len(), (victim + 2) % reqs.len()];
                for i in order {
                    let z = exec::resolve(&r, &reqs[i].0, &reqs[i].1);
                    if z != expect[i] {
                        rep.fail(format!(
                            "call {k} of resolve({:?}, {:?}) failed once with error {e}; afterwards resolve({:?}, {:?}) gave {} but {} on a new resolver",
                            reqs[victim].0, reqs[victim].1, reqs[i].0, reqs[i].1, z.show(root), expect[i].show(root)
                        ));
                        return;
                    }
                }
                if victim == 0 {
                    let z = exec::side_effects(&r, &reqs[0].0);
                    if z != se_expect {
                        rep.fail(format!("call {k} of resolve({:?}, {:?}) failed once with error {e}; afterwards load_side_effects gave {z:?} but {se_expect:?} on a new resolver", reqs[0].0, reqs[0].1));
                        return;
                    }
                }
            }
        }
        // a load_side_effects call under faults
        if victim == 0 {
            for k in 0..12 {
                let r = prepare();
                interpose::arm_fault(exec::CALL_LIMIT, k, errs.first().copied().unwrap_or(5));
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.load_side_effects(&reqs[0].0).is_ok()));
                let (_, fired) = interpose::disarm();
                if !fired {
                    break;
                }
                rep.evals += 1;
                rep.class("fault in load_side_effects");
                if x.is_err() {
                    rep.fail(format!("load_side_effects({:?}) panicked when its call {k} failed", reqs[0].0));
                    return;
                }
                let z = exec::side_effects(&r, &reqs[0].0);
                let a = exec::resolve(&r, &reqs[0].0, &reqs[0].1);
                if z != se_expect || a != expect[0] {
                    rep.fail(format!("call {k} of load_side_effects({:?}) failed once; afterwards it gave {z:?} (new resolver: {se_expect:?}) and resolve {} (new resolver: {})", reqs[0].0, a.show(root), expect[0].show(root)));
                    return;
                }
            }
        }
    }
    // a description file changes between two calls of a request
    let edits = c.extra["edits"].as_array().cloned().unwrap_or_default();
    for ed in edits {
        let path = match ed["path"].as_str() {
            Some(p) if p.ends_with("package.json") => p.to_string(),
            _ => continue,
        };
        let restore = |w: &crate::world::World| {
            let p = root.join(&path);
            let _ = std::fs::remove_file(&p);
            if let Some(Node::File(_)) = w.nodes.get(&path) {
                let one = crate::world::World { nodes: w.nodes.iter().filter(|(k, _)| **k == path).map(|(k, n)| (k.clone(), n.clone())).collect() };
                let _ = one.materialize(root);
            }
            hist::settle_times(w, root, &c.extra["unit"]);
        };
        let r = prepare();
        interpose::arm(exec::CALL_LIMIT);
        exec::resolve_raw(&r, &reqs[0].0, &reqs[0].1);
        let (n, _) = interpose::disarm();
        let step = (n / 24).max(1);
        let mut k = 0;
        while k < n {
            let r = prepare();
            let (root2, ed2) = (root.to_path_buf(), ed.clone());
            interpose::arm_action(exec::CALL_LIMIT, k, Box::new(move || hist::apply(&ed2, &root2)));
            let a = exec::resolve_raw(&r, &reqs[0].0, &reqs[0].1);
            let (_, fired) = interpose::disarm();
            rep.evals += 1;
            if !fired {
                restore(&c.world);
                break;
            }
            rep.class("edit in the middle of a request");
            rep.nontriv(&format!("{key}|edit|{k}|{ed}"));
            if let Act::Panic(p) = &a {
                rep.fail(format!("resolve({:?}, {:?}) panicked when {ed} happened before its call {k}: {p}", reqs[0].0, reqs[0].1));
                return;
            }
            for i in [0, 1 % reqs.len(), 2 % reqs.len()] {
                let z = exec::resolve(&r, &reqs[i].0, &reqs[i].1);
                let want = fresh(i);
                if z != want {
                    rep.fail(format!(
                        "{ed} happened before call {k} of resolve({:?}, {:?}); afterwards resolve({:?}, {:?}) gave {} but {} on a new resolver",
                        reqs[0].0, reqs[0].1, reqs[i].0, reqs[i].1, z.show(root), want.show(root)
                    ));
                    return;
                }
            }
            restore(&c.world);
            k += step;
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C15", gen: gen_c15, check: check_c15, quick: 4_000, thorough: 200_000, materialize: true,
            rule: "2-6 threads start together on a cold cache and issue 3-12 requests each through 1-3 resolvers sharing it (3 rounds, random delays at file-system calls), each answer compared with a new sequential resolver's; non-trivial = more than one thread ran; distinct = distinct (case, thread, request, resolver)" },
        Prop { id: "C17", gen: gen_c17, check: check_c17, quick: 3_000, thorough: 200_000, materialize: true,
            rule: "each of the first 60 (200) file-system calls of two requests fails once, with two errors drawn from a set of nine, or a description file is edited before it; then the same and other requests are compared with a new resolver; non-trivial = the fault or edit happened" },
    ]
}
