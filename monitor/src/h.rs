//! Harness: runs the cases of a check on all cores, catches panics, watches for hangs, counts what
//! the monitors observed and writes evidence and replay files.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rng::{hash, mix, Rng};

pub struct Cx {
    pub rng: Rng,
    pub case: u64,
    pub seed: u64,
    pub thorough: bool,
    pub counts: BTreeMap<String, u64>,
    /// description of the case, used for distinctness, samples and replays
    pub desc: String,
    /// steps of the case
    pub trace: Vec<String>,
    pub nontrivial: bool,
    pub skipped: Option<String>,
}

impl Cx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn step(&mut self, s: String) {
        if self.trace.len() < 2000 {
            self.trace.push(s);
        }
    }
}

/// Err = the property is violated by this execution.
pub type Res = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// cases that have to be judged (not skipped) for a verdict, in percent
    pub min_judged: u64,
    pub run: fn(&mut Cx) -> Res,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run the code under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// As `guard`, a panic is a violation.
pub fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|p| format!("{}: panic: {}", what, p))
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn out_dir() -> PathBuf {
    verif_dir().join("target").join("run")
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// An error of the harness or its environment: never a violation, the case is not judged.
pub fn harness<E: std::fmt::Display>(e: E) -> String {
    format!("{}{}", HARNESS, e)
}
pub const HARNESS: &str = "harness error: ";

/// CPU time used so far according to a /proc/.../stat file (clock ticks are 10 ms on Linux).
pub fn cpu_ms(stat: &str) -> Option<u64> {
    let s = fs::read_to_string(stat).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: u64 = f.get(11)?.parse().ok()?;
    let k: u64 = f.get(12)?.parse().ok()?;
    Some((u + k) * 10)
}

/// Sets the description of a skipped case: the precondition of the property could not be set up.
pub fn skip(cx: &mut Cx, why: String) -> Res {
    cx.skipped = Some(why);
    Ok(())
}

fn new_cx(check: &Check, case: u64) -> Cx {
    // the converter and small threads don't have the stack for very deep trees
    let deep = !["C26", "C27", "C28", "C29", "C30"].contains(&check.id);
    crate::gen::giants(if thorough() { 200 } else { 250 }, deep);
    // sentences of some thousand words, and of more than fit 16 bits where all takes linear time
    let colossus = match (if huge(case) { 11 } else { 0 }, check.id) {
        (11, "C12") | (11, "C13") | (11, "C14") | (11, "C24") if case < 5000 => 65_600,
        (11, "C01") | (11, "C02") | (11, "C03") | (11, "C04") | (11, "C06") | (11, "C09") | (11, "C23") | (11, "C26") | (11, "C27")
        | (11, "C28") => 4_200,
        (11, _) => 10_100,
        _ => 0,
    };
    crate::gen::colossus(colossus);
    Cx {
        rng: Rng::new(mix(mix(seed(), hash(check.id)), case)),
        case,
        seed: seed(),
        thorough: thorough(),
        counts: BTreeMap::new(),
        desc: String::new(),
        trace: Vec::new(),
        nontrivial: false,
        skipped: None,
    }
}

pub struct Finding {
    pub pattern: String,
}

/// known_findings.txt: lines `finding: property=<id> match=<text of the message>`
fn known(id: &str) -> Vec<Finding> {
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            let pre = format!("finding: property={} match=", id);
            if l.starts_with(&pre) {
                v.push(Finding {
                    pattern: l[pre.len()..].to_string(),
                });
            }
        }
    }
    v
}

pub fn write_replay(id: &str, case: Option<u64>, msg: &str, desc: &str, trace: &[String]) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let name = match case {
        Some(c) => format!("{}-seed{}-case{}.txt", id, seed(), c),
        None => format!("{}-seed{}.txt", id, seed()),
    };
    let path = dir.join(name);
    if let Ok(mut f) = File::create(&path) {
        let _ = writeln!(f, "property: {}\nviolation: {}\n", id, msg);
        if let Some(c) = case {
            let _ = writeln!(
                f,
                "replay: VERIF_SEED={} VERIF_TIER={} {}/check.sh {} --case {}\n",
                seed(),
                if thorough() { "thorough" } else { "quick" },
                verif_dir().display(),
                id,
                c
            );
        }
        let _ = writeln!(f, "case: {}\n", desc);
        for t in trace {
            let _ = writeln!(f, "  {}", t);
        }
    }
    path
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_evidence(
    check: &Check,
    evals: u64,
    skipped: u64,
    distinct: u64,
    samples: &[String],
    counts: &BTreeMap<String, u64>,
    wall: f64,
    violations: u64,
) {
    let mut ev = String::from("{");
    ev.push_str(&format!(
        "\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{",
        js(check.id),
        js(if thorough() { "thorough" } else { "quick" }),
        seed()
    ));
    ev.push_str(&format!(
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"not_judged\":{},\"rule\":{},\"samples\":[{}],",
        evals,
        distinct,
        skipped,
        js(check.rule),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    ));
    ev.push_str("\"observed\":{");
    ev.push_str(
        &counts
            .iter()
            .map(|(k, v)| format!("{}:{}", js(k), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    ev.push_str("}},\"assumptions\":[");
    ev.push_str(&check.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    ev.push_str(&format!("],\"wall_s\":{:.3},\"violations\":{}}}\n", wall, violations));
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", check.id));
    if fs::write(&tmp, ev).is_ok() {
        let _ = fs::rename(&tmp, dir.join(format!("{}.json", check.id)));
    }
}

struct Shared {
    counts: Mutex<BTreeMap<String, u64>>,
    digests: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<(u64, String)>>,
    known_seen: Mutex<BTreeMap<String, u64>>,
    skips: Mutex<BTreeMap<String, u64>>,
    violation: Mutex<Option<(u64, String, String, Vec<String>)>>,
    next: AtomicU64,
    done: AtomicU64,
    skipped: AtomicU64,
    stop: AtomicBool,
    /// per thread: (case + 1, started at ms, CPU ms at the start)
    inflight: Vec<(AtomicU64, AtomicU64, AtomicU64)>,
    stat_files: Mutex<Vec<Option<String>>>,
}

/// A case takes milliseconds; one that has used this much CPU time does not terminate. The verdict
/// is on CPU time used, so that a loaded machine makes no difference; a case that is stuck without
/// using the CPU is inconclusive.
pub fn hang_cpu_ms(case: u64) -> u64 {
    if huge(case) {
        // sentences of thousands of words take seconds
        240_000
    } else {
        60_000
    }
}

/// Cases that may get a sentence of thousands of words.
fn huge(case: u64) -> bool {
    case % 5000 == 11
}

pub const STUCK_WALL_MS: u64 = 600_000;

fn one(check: &Check, case: u64) -> (Cx, Res) {
    let mut cx = new_cx(check, case);
    let res = match guard(|| (check.run)(&mut cx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    let res = match res {
        Err(e) if e.contains(HARNESS) => skip(&mut cx, e),
        r => r,
    };
    (cx, res)
}

/// Run a single case; exit code.
pub fn run_case(check: &Check, case: u64, verbose: bool) -> i32 {
    let reps = if verbose { 30 } else { 1 };
    for _ in 0..reps {
        let (cx, res) = one(check, case);
        if let Err(e) = res {
            if verbose {
                println!("case {}: {}\n{}\n{}", case, e, cx.desc, cx.trace.join("\n"));
            }
            let p = write_replay(check.id, Some(case), &e, &cx.desc, &cx.trace);
            println!("VIOLATION property={} replay={}", check.id, p.display());
            return 1;
        }
        if verbose {
            println!("case {} ok, skipped: {:?}\n{}\n{}", case, cx.skipped, cx.desc, cx.trace.join("\n"));
            return 0;
        }
    }
    0
}

pub fn run_all(check: &'static Check, inflight_file: Option<&Path>) -> i32 {
    let start = Instant::now();
    let n_cases = if thorough() { check.thorough } else { check.quick };
    let n_cases = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(n_cases);
    let limit = Duration::from_secs(if thorough() { 3000 } else { 150 });
    let sh = Arc::new(Shared {
        counts: Mutex::new(BTreeMap::new()),
        digests: Mutex::new(HashSet::new()),
        samples: Mutex::new(Vec::new()),
        known_seen: Mutex::new(BTreeMap::new()),
        skips: Mutex::new(BTreeMap::new()),
        violation: Mutex::new(None),
        next: AtomicU64::new(0),
        done: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        inflight: (0..check.threads).map(|_| Default::default()).collect(),
        stat_files: Mutex::new(vec![None; check.threads]),
    });
    let file = inflight_file.and_then(|p| File::create(p).ok()).map(Arc::new);
    let findings = Arc::new(known(check.id));
    let mut handles = Vec::new();
    for tid in 0..check.threads {
        let sh = sh.clone();
        let file = file.clone();
        let findings = findings.clone();
        let b = std::thread::Builder::new().stack_size(64 << 20);
        handles.push(
            b.spawn(move || {
                let mut local: BTreeMap<String, u64> = BTreeMap::new();
                let mut digests = Vec::new();
                let stat = fs::read_link("/proc/thread-self").ok().map(|p| format!("/proc/{}/stat", p.display()));
                sh.stat_files.lock().unwrap()[tid] = stat.clone();
                loop {
                    if sh.stop.load(Ordering::Relaxed) || start.elapsed() > limit {
                        break;
                    }
                    let case = sh.next.fetch_add(1, Ordering::Relaxed);
                    if case >= n_cases {
                        break;
                    }
                    if let Some(f) = &file {
                        let _ = f.write_at(&(case + 1).to_le_bytes(), tid as u64 * 8);
                    }
                    let cpu = stat.as_ref().and_then(|s| cpu_ms(s)).unwrap_or(0);
                    sh.inflight[tid].2.store(cpu, Ordering::SeqCst);
                    sh.inflight[tid].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                    sh.inflight[tid].0.store(case + 1, Ordering::SeqCst);
                    let (cx, res) = one(check, case);
                    sh.inflight[tid].0.store(0, Ordering::SeqCst);
                    sh.done.fetch_add(1, Ordering::Relaxed);
                    for (k, v) in cx.counts {
                        *local.entry(k).or_insert(0) += v;
                    }
                    if let Some(w) = cx.skipped {
                        sh.skipped.fetch_add(1, Ordering::Relaxed);
                        let w: String = w.chars().take(160).collect();
                        let mut s = sh.skips.lock().unwrap();
                        if s.len() < 20 || s.contains_key(&w) {
                            *s.entry(w).or_insert(0) += 1;
                        }
                    } else if cx.nontrivial {
                        digests.push(hash(&cx.desc));
                        if case < 64 && cx.desc.len() < 1500 {
                            sh.samples.lock().unwrap().push((case, cx.desc.clone()));
                        }
                    }
                    if let Err(e) = res {
                        if let Some(f) = findings.iter().find(|f| e.contains(&f.pattern)) {
                            *sh.known_seen.lock().unwrap().entry(f.pattern.clone()).or_insert(0) += 1;
                            continue;
                        }
                        let mut v = sh.violation.lock().unwrap();
                        let newer = v.as_ref().map(|x| x.0 > case).unwrap_or(true);
                        if newer {
                            *v = Some((case, e, cx.desc, cx.trace));
                        }
                        sh.stop.store(true, Ordering::SeqCst);
                    }
                }
                if let Some(f) = &file {
                    let _ = f.write_at(&0u64.to_le_bytes(), tid as u64 * 8);
                }
                let mut c = sh.counts.lock().unwrap();
                for (k, v) in local {
                    *c.entry(k).or_insert(0) += v;
                }
                sh.digests.lock().unwrap().extend(digests);
            })
            .unwrap(),
        );
    }
    // watchdog
    let mut rounds = 0u64;
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        rounds += 1;
        if rounds % 100 != 0 {
            continue;
        }
        let now = start.elapsed().as_millis() as u64;
        let stats = sh.stat_files.lock().unwrap().clone();
        for (s, stat) in sh.inflight.iter().zip(stats) {
            let c = s.0.load(Ordering::SeqCst);
            let t = s.1.load(Ordering::SeqCst);
            let base = s.2.load(Ordering::SeqCst);
            if c == 0 || now < t + 10_000 {
                continue;
            }
            let cpu = stat.and_then(|s| cpu_ms(&s)).unwrap_or(0).saturating_sub(base);
            if s.0.load(Ordering::SeqCst) != c {
                continue;
            }
            if cpu > hang_cpu_ms(c - 1) {
                let msg = format!("case {} doesn't end: {} ms of CPU time used so far", c - 1, cpu);
                let p = write_replay(check.id, Some(c - 1), &msg, "", &[]);
                println!("{}", msg);
                println!("VIOLATION property={} replay={}", check.id, p.display());
                let n = sh.done.load(Ordering::SeqCst);
                write_evidence(check, n, 0, 0, &[], &BTreeMap::new(), start.elapsed().as_secs_f64(), 1);
                std::process::exit(1);
            }
            if now > t + STUCK_WALL_MS {
                println!("inconclusive: case {} is stuck", c - 1);
                std::process::exit(2);
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let done = sh.done.load(Ordering::SeqCst);
    let skipped = sh.skipped.load(Ordering::SeqCst);
    let counts = sh.counts.lock().unwrap().clone();
    let distinct = sh.digests.lock().unwrap().len() as u64;
    let mut samples = sh.samples.lock().unwrap().clone();
    samples.sort();
    let samples: Vec<String> = samples.into_iter().take(4).map(|s| s.1).collect();
    let wall = start.elapsed().as_secs_f64();
    let viol = sh.violation.lock().unwrap().take();
    write_evidence(
        check,
        done,
        skipped,
        distinct,
        &samples,
        &counts,
        wall,
        viol.is_some() as u64,
    );
    for (p, n) in sh.known_seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} ({} executions)", check.id, p, n);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} not judged, {:.1} s",
        check.id, done, distinct, skipped, wall
    );
    for (w, n) in sh.skips.lock().unwrap().iter().take(8) {
        println!("  not judged ({}x): {}", n, w);
    }
    if std::env::var("VERIF_VERBOSE").is_ok() {
        for (k, v) in &counts {
            println!("  {}: {}", k, v);
        }
    }
    if let Some((case, e, desc, trace)) = viol {
        let p = write_replay(check.id, Some(case), &e, &desc, &trace);
        println!("case {}: {}", case, e);
        println!("VIOLATION property={} replay={}", check.id, p.display());
        return 1;
    }
    let judged = done - skipped;
    if judged * 100 < done * check.min_judged || done == 0 {
        println!("inconclusive: only {} of {} cases could be judged", judged, done);
        return 2;
    }
    0
}
