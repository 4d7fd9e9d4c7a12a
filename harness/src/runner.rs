//! Supervisor, workers, shrinking, evidence.
use crate::exec;
use crate::props::{self, Prop, Report};
use crate::src::{hash_str, Src};
use crate::world::{Case, Node, Opts, World};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const CPU_LIMIT_EXIT: i32 = 98;
pub const DEADLOCK_EXIT: i32 = 96;
const CPU_LIMIT_S: f64 = 20.0;

static CASE: AtomicI64 = AtomicI64::new(-1);
static TID: AtomicU64 = AtomicU64::new(0);

fn verif_dir() -> PathBuf {
    std::env::var("VH_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn scratch_base() -> PathBuf {
    for d in ["/dev/shm", "/tmp", "/var/tmp"] {
        let p = Path::new(d);
        let t = p.join(format!(".vh-probe-{}", std::process::id()));
        if std::fs::write(&t, b"x").is_ok() {
            let _ = std::fs::remove_file(&t);
            // no ancestor may look like a project
            let clean = p.ancestors().all(|a| {
                !["package.json", "node_modules", "tsconfig.json", "pkg.json", "desc.json"].iter().any(|n| a.join(n).exists())
            });
            if clean {
                return p.to_path_buf();
            }
        }
    }
    eprintln!("no usable scratch directory");
    std::process::exit(2);
}

/// run one case in `dir` (created and removed here)
pub fn run_case(p: &Prop, case: &Case, dir: &Path) -> Report {
    let mut rep = Report::default();
    let root = dir.join("r");
    if p.materialize {
        if let Err(e) = case.world.materialize(&root) {
            if e.raw_os_error() == Some(libc::ENAMETOOLONG) {
                rep.skipped += 1;
                let _ = std::fs::remove_dir_all(dir);
                return rep;
            }
            eprintln!("cannot materialize: {e}: {}", case.to_json());
            std::process::exit(2);
        }
    } else {
        std::fs::create_dir_all(dir).unwrap();
    }
    let prior = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(case, &root, &mut rep)));
    if prior.is_err() {
        // the code under test is always called under catch_unwind: this is the harness itself
        eprintln!("harness panic: {} in case {}", exec::LAST_PANIC.with(|p| p.borrow().clone()), case.to_json());
        std::process::exit(2);
    }
    let _ = std::fs::remove_dir_all(dir);
    rep
}

fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}
fn all_threads() -> Vec<(u64, char, f64)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            if let Ok(t) = e.file_name().to_string_lossy().parse::<u64>() {
                if let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{t}/stat")) {
                    if let Some(i) = s.rfind(')') {
                        let st = s[i + 2..].chars().next().unwrap_or('?');
                        v.push((t, st, thread_cpu(t).unwrap_or(0.0)));
                    }
                }
            }
        }
    }
    v
}

/// Ends the process when one call burns CPU without end, or when every thread sleeps for good.
pub fn watchdog() {
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    let mut case = (-1, 0);
    let mut start = 0.0;
    let mut idle = 0;
    let mut last: Vec<(u64, char, f64)> = vec![];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CASE.load(Ordering::Relaxed);
        let now = (c, crate::interpose::BEGUN.load(Ordering::Relaxed));
        let threads: Vec<(u64, char, f64)> = all_threads().into_iter().filter(|t| t.0 != me).collect();
        let cpu: f64 = threads.iter().map(|t| t.2).sum();
        if now != case {
            case = now;
            start = cpu;
            idle = 0;
        } else if c >= 0 && cpu - start > CPU_LIMIT_S {
            unsafe { libc::_exit(CPU_LIMIT_EXIT) }
        } else if c >= 0 && threads.iter().all(|t| t.1 == 'S') && threads.len() == last.len() && threads.iter().zip(&last).all(|(a, b)| a.0 == b.0 && a.2 == b.2) {
            idle += 1;
            if idle > 60 && BLOCK_OK.load(Ordering::Relaxed) == 0 {
                unsafe { libc::_exit(DEADLOCK_EXIT) }
            }
        } else {
            idle = 0;
        }
        last = threads;
    }
}
/// raised while the harness itself waits for another process
pub static BLOCK_OK: AtomicU64 = AtomicU64::new(0);

fn with_case_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::spawn(watchdog);
    std::thread::Builder::new()
        .stack_size(std::env::var("VH_STACK_KB").ok().and_then(|s| s.parse().ok()).unwrap_or(8192usize) << 10)
        .spawn(move || {
            TID.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Ordering::Relaxed);
            f()
        })
        .unwrap()
        .join()
        .unwrap()
}

fn worker(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let seed: u64 = args[1].parse().unwrap();
    let start: u64 = args[2].parse().unwrap();
    let stride: u64 = args[3].parse().unwrap();
    let end: u64 = args[4].parse().unwrap();
    let out = PathBuf::from(&args[5]);
    let idx: usize = args[6].parse().unwrap();
    let scratch = PathBuf::from(&args[7]);
    let budget = Duration::from_millis(args[8].parse().unwrap());
    let t0 = Instant::now();
    exec::quiet_panics();
    limit_memory();
    with_case_thread(move || {
        let p = props::find(&prop).unwrap();
        let mut tot = Report::default();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let cur = std::fs::File::create(out.join(format!("cur{idx}"))).unwrap();
        let mut cases = 0u64;
        let mut i = start;
        while i < end && (cases == 0 || t0.elapsed() < budget) {
            use std::os::unix::fs::FileExt;
            let _ = cur.write_all_at(&i.to_le_bytes(), 0);
            CASE.store(i as i64, Ordering::Relaxed);
            let mut s = Src::seeded(seed, &prop, i);
            let case = generate(&p, &mut s);
            let rep = run_case(&p, &case, &scratch.join(format!("w{idx}c{i}")));
            cases += 1;
            tot.evals += rep.evals;
            tot.skipped += rep.skipped;
            for h in &rep.nontrivial {
                hashes.insert(*h);
            }
            for (k, v) in rep.classes {
                *tot.classes.entry(k).or_insert(0) += v;
            }
            if samples.len() < 2 && !rep.nontrivial.is_empty() {
                let j = case.to_json();
                // a readable one, if there is any
                if j.to_string().len() < 6000 || cases > 200 {
                    samples.push(j);
                }
            }
            if let Some(v) = rep.violation {
                std::fs::write(out.join(format!("viol{idx}.json")), json!({"index": i, "what": v, "case": case.to_json()}).to_string()).unwrap();
                break;
            }
            i += stride;
        }
        CASE.store(-1, Ordering::Relaxed);
        let hs: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(out.join(format!("hash{idx}")), hs).unwrap();
        std::fs::write(
            out.join(format!("stat{idx}.json")),
            json!({"cases": cases, "evals": tot.evals, "skipped": tot.skipped, "classes": tot.classes, "samples": samples,
                   "calls": crate::interpose::TOTAL.load(Ordering::Relaxed)}).to_string(),
        )
        .unwrap();
    });
    0
}

/// runaway memory ends in an abort of this process, and in no core file
fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn exec_file(path: &str, verbose: bool) -> i32 {
    exec::quiet_panics();
    limit_memory();
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let cv = if v.get("case").is_some() { v["case"].clone() } else { v };
    let base = scratch_base();
    let (code, msg) = with_case_thread(move || {
        let case = Case::from_json(&cv);
        let p = match props::find(&case.prop) {
            Some(p) => p,
            None => return (2, "unknown property".to_string()),
        };
        CASE.store(0, Ordering::Relaxed);
        let dir = base.join(format!("vh-exec-{}", std::process::id()));
        let rep = run_case(&p, &case, &dir);
        CASE.store(-1, Ordering::Relaxed);
        match rep.violation {
            Some(v) => (1, v),
            None => (0, format!("held ({} evaluations, {} outside the domain)", rep.evals, rep.skipped)),
        }
    });
    if verbose || code != 0 {
        println!("{msg}");
    }
    code
}

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    Held,
    Violated(String),
    /// killed by a signal / resource limit
    Crash(String),
    Broken(String),
}

fn describe(st: std::process::ExitStatus) -> Verdict {
    if let Some(sig) = st.signal() {
        return match sig {
            libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => {
                Verdict::Crash(format!("the process died of signal {sig} (stack overflow, memory exhaustion or abort)"))
            }
            s => Verdict::Broken(format!("the process was killed by signal {s}")),
        };
    }
    match st.code().unwrap_or(-1) {
        0 => Verdict::Held,
        1 => Verdict::Violated(String::new()),
        crate::interpose::WORK_LIMIT_EXIT => Verdict::Crash(format!("one request made more than {} file-system calls", exec::CALL_LIMIT)),
        CPU_LIMIT_EXIT => Verdict::Crash(format!("one call used more than {CPU_LIMIT_S} s of CPU time (normally milliseconds)")),
        DEADLOCK_EXIT => Verdict::Crash("all threads slept for good (deadlock)".into()),
        c => Verdict::Broken(format!("exit code {c}")),
    }
}

fn try_case(case: &Value, tmp: &Path) -> Verdict {
    std::fs::write(tmp, case.to_string()).unwrap();
    let o = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(tmp)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()
        .unwrap();
    let pid = o.id();
    let o = o.wait_with_output().unwrap();
    let _ = std::fs::remove_dir_all(scratch_base().join(format!("vh-exec-{pid}")));
    match describe(o.status) {
        Verdict::Violated(_) => Verdict::Violated(String::from_utf8_lossy(&o.stdout).trim().to_string()),
        v => v,
    }
}

fn bad(v: &Verdict) -> bool {
    matches!(v, Verdict::Violated(_) | Verdict::Crash(_))
}

/// structural shrinking of a concrete failing case
fn shrink(case: Value, tmp: &Path, budget: Duration) -> Value {
    let t0 = Instant::now();
    let mut best = case;
    let mut tries = 0;
    let mut attempt = |cand: Value, best: &mut Value| -> bool {
        if t0.elapsed() > budget || tries > 600 || &cand == best {
            return false;
        }
        tries += 1;
        if bad(&try_case(&cand, tmp)) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // lists: requests and extra.*
        let mut lists: Vec<Vec<String>> = vec![vec!["requests".into()], vec!["options".into(), "alias".into()], vec!["options".into(), "ext".into()], vec!["options".into(), "conds".into()]];
        if let Some(m) = best["extra"].as_object() {
            for (k, v) in m {
                if v.is_array() {
                    lists.push(vec!["extra".into(), k.clone()]);
                }
            }
        }
        for path in lists {
            let get = |v: &Value| -> Vec<Value> {
                let mut x = v;
                for p in &path {
                    x = &x[p];
                }
                x.as_array().cloned().unwrap_or_default()
            };
            let set = |v: &Value, a: Vec<Value>| -> Value {
                let mut v = v.clone();
                {
                    let mut x = &mut v;
                    for p in &path {
                        x = &mut x[p];
                    }
                    *x = Value::Array(a);
                }
                v
            };
            let mut chunk = get(&best).len().max(1) / 2;
            loop {
                let mut i = 0;
                while i < get(&best).len() {
                    let mut a = get(&best);
                    let end = (i + chunk.max(1)).min(a.len());
                    a.drain(i..end);
                    if !attempt(set(&best, a), &mut best) {
                        i += chunk.max(1);
                    }
                }
                if chunk <= 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // world nodes
        let keys = |v: &Value| -> Vec<String> { v["world"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default() };
        let mut chunk = keys(&best).len().max(1) / 2;
        loop {
            let mut i = 0;
            while i < keys(&best).len() {
                let ks = keys(&best);
                let end = (i + chunk.max(1)).min(ks.len());
                let mut c = best.clone();
                for k in &ks[i..end] {
                    c["world"].as_object_mut().unwrap().shift_remove(k);
                }
                if !attempt(c, &mut best) {
                    i += chunk.max(1);
                }
            }
            if chunk <= 1 {
                break;
            }
            chunk /= 2;
        }
        // entries of JSON files
        for k in keys(&best) {
            let txt = match best["world"][&k]["file"].as_str() {
                Some(t) if t.starts_with('{') => t.to_string(),
                _ => continue,
            };
            let v: Value = match serde_json::from_str(&txt) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let mut ptrs = vec![];
            pointers(&v, String::new(), &mut ptrs);
            ptrs.sort_by_key(|p| p.matches('/').count());
            for p in ptrs {
                let cur: Value = match best["world"][&k]["file"].as_str().and_then(|t| serde_json::from_str(t).ok()) {
                    Some(v) => v,
                    None => break,
                };
                if let Some(n) = remove_pointer(&cur, &p) {
                    let mut c = best.clone();
                    c["world"][&k]["file"] = json!(n.to_string());
                    attempt(c, &mut best);
                }
            }
        }
        // options back to default
        let def = Opts::default().to_json();
        for (k, v) in def.as_object().unwrap() {
            let mut c = best.clone();
            c["options"][k] = v.clone();
            attempt(c, &mut best);
        }
        if best == before || t0.elapsed() > budget {
            return best;
        }
    }
}
fn pointers(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = format!("{at}/{}", k.replace('~', "~0").replace('/', "~1"));
                out.push(p.clone());
                pointers(x, p, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().rev() {
                let p = format!("{at}/{i}");
                out.push(p.clone());
                pointers(x, p, out);
            }
        }
        _ => {}
    }
}
fn remove_pointer(v: &Value, p: &str) -> Option<Value> {
    let mut v = v.clone();
    let i = p.rfind('/')?;
    let last = p[i + 1..].replace("~1", "/").replace("~0", "~");
    let parent = v.pointer_mut(&p[..i])?;
    match parent {
        Value::Object(m) => {
            m.shift_remove(&last)?;
        }
        Value::Array(a) => {
            let n: usize = last.parse().ok()?;
            if n >= a.len() {
                return None;
            }
            a.remove(n);
        }
        _ => return None,
    }
    Some(v)
}

fn run(args: &[String]) -> i32 {
    let id = args[0].clone();
    let tier = args[1].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = match props::find(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let t0 = Instant::now();
    let vd = verif_dir();
    let mut n = if tier == "thorough" { p.thorough } else { p.quick };
    if let Some(x) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    let workers: usize = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap: u64 = std::env::var("VH_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 660 } else { 150 });
    let out = scratch_base().join(format!("vh-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let scratch = out.join("s");
    std::fs::create_dir_all(&scratch).unwrap();

    // known findings are re-run from their files
    let mut known = vec![];
    if let Some(v) = std::fs::read_to_string(vd.join("known_findings.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        for f in v["findings"].as_array().cloned().unwrap_or_default() {
            if f["property"].as_str() == Some(&id) {
                let verdict = try_case(&f["case"], &out.join("kf.json"));
                if bad(&verdict) {
                    println!("KNOWN-FINDING: property={id} {}", f["what"].as_str().unwrap_or(""));
                }
                known.push(json!({"id": f["id"], "what": f["what"], "still_fails": bad(&verdict)}));
            }
        }
    }
    // regression corpus: minimised failures found during development, bypassing the generator
    let mut corpus = 0u64;
    let mut failure: Option<(Value, String)> = None;
    if let Ok(rd) = std::fs::read_dir(vd.join("corpus").join(&id)) {
        let mut files: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            let v: Value = match std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(v) => v,
                None => continue,
            };
            let c = if v.get("case").is_some() { v["case"].clone() } else { v };
            corpus += 1;
            match try_case(&c, &out.join("corpus.json")) {
                Verdict::Violated(m) | Verdict::Crash(m) => {
                    failure = Some((c, format!("{} ({})", m, f.file_name().unwrap().to_string_lossy())));
                    break;
                }
                Verdict::Broken(m) => {
                    eprintln!("corpus {}: {m}", f.display());
                    return 2;
                }
                Verdict::Held => {}
            }
        }
    }

    let mut restarts = 0;
    let mut broken: Option<String> = None;
    if failure.is_none() {
        let spawn = |idx: usize, start: u64| {
            Command::new(std::env::current_exe().unwrap())
                .arg("worker")
                .args([&id, &seed.to_string(), &start.to_string(), &workers.to_string(), &n.to_string()])
                .arg(&out)
                .arg(idx.to_string())
                .arg(&scratch)
                .arg((cap * 1000).saturating_sub(t0.elapsed().as_millis() as u64).to_string())
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .unwrap()
        };
        let mut kids: Vec<Option<std::process::Child>> = (0..workers).map(|i| Some(spawn(i, i as u64))).collect();
        loop {
            let mut alive = 0;
            for i in 0..workers {
                let st = match kids[i].as_mut() {
                    Some(c) => match c.try_wait().unwrap() {
                        Some(st) => st,
                        None => {
                            alive += 1;
                            continue;
                        }
                    },
                    None => continue,
                };
                kids[i] = None;
                match describe(st) {
                    Verdict::Held => {
                        if let Ok(t) = std::fs::read_to_string(out.join(format!("viol{i}.json"))) {
                            let v: Value = serde_json::from_str(&t).unwrap();
                            if failure.is_none() {
                                failure = Some((v["case"].clone(), v["what"].as_str().unwrap_or("").to_string()));
                            }
                        }
                    }
                    Verdict::Crash(m) => {
                        // which case was it?
                        let cur = std::fs::read(out.join(format!("cur{i}"))).unwrap_or_default();
                        if cur.len() < 8 {
                            broken = Some(format!("worker {i} died before its first case: {m}"));
                            continue;
                        }
                        let ci = u64::from_le_bytes(cur[..8].try_into().unwrap());
                        let case = generate(&p, &mut Src::seeded(seed, &id, ci)).to_json();
                        let schedules = id == "C15";
                        let mut verdict = try_case(&case, &out.join("crash.json"));
                        for _ in 0..if schedules { 5 } else { 0 } {
                            if bad(&verdict) {
                                break;
                            }
                            verdict = try_case(&case, &out.join("crash.json"));
                        }
                        if schedules && !bad(&verdict) {
                            // it depends on the schedule; it happened all the same
                            verdict = Verdict::Crash(m.clone());
                        }
                        match verdict {
                            Verdict::Crash(m2) | Verdict::Violated(m2) => {
                                if failure.is_none() {
                                    failure = Some((case, m2));
                                }
                            }
                            _ => {
                                restarts += 1;
                                if restarts > 3 {
                                    broken = Some(format!("worker {i} died repeatedly and irreproducibly: {m}"));
                                } else {
                                    eprintln!("worker {i} died on case {ci} ({m}), not reproducible; redoing its share");
                                    kids[i] = Some(spawn(i, i as u64));
                                    alive += 1;
                                }
                            }
                        }
                    }
                    Verdict::Broken(m) => broken = Some(format!("worker {i}: {m}")),
                    Verdict::Violated(_) => broken = Some(format!("worker {i}: exit 1")),
                }
            }
            if failure.is_some() || broken.is_some() {
                for k in kids.iter_mut().flatten() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
                break;
            }
            if alive == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }

    if let (None, Some(b)) = (&failure, &broken) {
        eprintln!("check error: {b}");
        let _ = std::fs::remove_dir_all(&out);
        return 2;
    }

    let mut evals = 0u64;
    let mut cases = 0u64;
    let mut skipped = 0u64;
    let mut calls = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for i in 0..workers {
        if let Some(v) = std::fs::read_to_string(out.join(format!("stat{i}.json"))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            evals += v["evals"].as_u64().unwrap_or(0);
            cases += v["cases"].as_u64().unwrap_or(0);
            skipped += v["skipped"].as_u64().unwrap_or(0);
            calls += v["calls"].as_u64().unwrap_or(0);
            for (k, x) in v["classes"].as_object().unwrap_or(&Map::new()) {
                *classes.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
            if samples.len() < 3 {
                samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
                samples.truncate(3);
            }
        }
        if let Ok(b) = std::fs::read(out.join(format!("hash{i}"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if let Some((c, _)) = &failure {
        if samples.is_empty() {
            samples.push(c.clone());
        }
    }

    let mut code = 0;
    if let Some((case, what)) = &failure {
        let dir = vd.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let h = hash_str(&case.to_string());
        let path = dir.join(format!("{id}-{h:016x}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&json!({"what": what, "case": case})).unwrap()).unwrap();
        let small = if std::env::var_os("VH_NOSHRINK").is_some() { case.clone() } else { shrink(case.clone(), &out.join("shrink.json"), Duration::from_secs(40)) };
        let msg = match try_case(&small, &out.join("final.json")) {
            Verdict::Violated(m) | Verdict::Crash(m) => m,
            _ => what.clone(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&json!({"what": msg, "case": small, "unshrunk": case, "seed": seed})).unwrap()).unwrap();
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    }

    let ev = json!({
        "property": id, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": if id == "C17" { "fault_enumeration" } else { "exploration" },
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": hashes.len(), "rule": p.rule, "samples": samples,
            "cases": cases, "cases_planned": n, "wall_cap_s": cap, "outside_domain": skipped, "classes": classes, "fs_calls_observed": calls,
            "regression_corpus_cases": corpus, "known_findings_rerun": known,
        },
        "assumptions": ["cases are drawn by a seeded generator; absence of a violation is evidence, not proof",
                        "the reference model, Node.js and enhanced-resolve are trusted where they serve as oracle",
                        "release build without debug assertions, Linux file-system semantics"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": if code == 1 { 1 } else { 0 },
    });
    let ed = vd.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        code = if code == 1 { 1 } else { 2 };
    }
    if code == 0 {
        println!("{id}: held on {evals} evaluations in {cases} cases ({} distinct non-trivial, {skipped} outside the domain), {:.1} s", hashes.len(), t0.elapsed().as_secs_f64());
        if evals == 0 || hashes.is_empty() {
            eprintln!("check error: nothing non-trivial was explored");
            code = 2;
        }
    }
    let _ = std::fs::remove_dir_all(&out);
    let _ = std::io::stdout().flush();
    code
}

fn generate(p: &props::Prop, s: &mut Src) -> Case {
    // another program is the oracle there, with habits of its own
    crate::dict::fixed(p.id == "C12");
    crate::gen::vocabulary(s);
    (p.gen)(s)
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2..]),
        Some("worker") => worker(&a[2..]),
        Some("exec") => exec_file(&a[2], false),
        Some("replay") => exec_file(&a[2], true),
        Some("gen") => {
            let p = props::find(&a[2]).unwrap();
            let c = generate(&p, &mut Src::seeded(a[3].parse().unwrap(), &a[2], a[4].parse().unwrap()));
            println!("{}", serde_json::to_string_pretty(&c.to_json()).unwrap());
            0
        }
        Some("dict") => {
            print!("{}", crate::dict::listing());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run <property> quick|thorough | replay <file> | list");
            2
        }
    }
}

#[allow(dead_code)]
fn _unused(_: World, _: Node) {}
