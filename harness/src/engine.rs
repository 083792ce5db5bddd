//! Runs one property: fixed cases first, then proptest shards with seeds derived from VERIF_SEED;
//! shrinks failures, writes the replay file and the evidence file.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
/// CPU seconds one case may use before it counts as "does not return" (a normal case needs microseconds
/// to a few milliseconds).
const HANG_CPU_S: f64 = 120.0;

const MAX_HASHES: usize = 8_000_000;
/// the quick tier stops generating after this much time (it normally needs 10 - 40 s)
const QUICK_DEADLINE_S: u64 = 600;
/// cases before a failure that are kept, in case it depends on what was called earlier
const HISTORY: usize = 64;
/// address space of the run and of the re-run of a single case; memory that grows without bound ends the process
const RUN_BYTES: u64 = 20 << 30;
const REPLAY_BYTES: u64 = 8 << 30;
const SHM_SLOT: usize = 1 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

impl Obs {
    pub fn label(&mut self, s: impl Into<String>) { self.labels.push(s.into()); }
}

pub type Verdict = Result<(), String>;

pub trait Prop: 'static {
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// a call that never returns does not give the answer the property states
    const HANG_IS_VIOLATION: bool = true;
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + 'static;
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn fixed(_tier: Tier) -> Vec<Self::Case> { vec![] }
    fn check(case: &Self::Case, obs: &mut Obs) -> Verdict;
}

/// Calls the code under test; a panic becomes Err(message).
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { format!("panicked: {}", s) }
        else if let Some(s) = e.downcast_ref::<String>() { format!("panicked: {}", s) }
        else { "panicked".to_string() }
    })
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    harness_error: Option<String>,
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    // finalise
    h ^= h >> 33; h = h.wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 33;
    h
}

fn shard_seed(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = fnv(&format!("{}/{}/{}", seed, id, shard));
    for k in 0..4 {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[k * 8..k * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

struct Slot {
    current: Mutex<Option<String>>,
    count: AtomicU64,
    tid: AtomicI64,
    done: AtomicBool,
    /// copy of the current case that outlives the process
    shm: usize,
    /// the last cases, newest last
    history: Mutex<VecDeque<String>>,
}

impl Slot {
    fn publish(&self, js: &str) {
        {
            let mut cur = self.current.lock().unwrap();
            if let Some(old) = cur.take() {
                let mut h = self.history.lock().unwrap();
                if h.len() == HISTORY { h.pop_front(); }
                h.push_back(old);
            }
            *cur = Some(js.to_string());
        }
        if self.shm != 0 && js.len() + 8 <= SHM_SLOT {
            unsafe {
                let p = self.shm as *mut u8;
                std::ptr::write_volatile(p as *mut u64, 0);
                std::ptr::copy_nonoverlapping(js.as_ptr(), p.add(8), js.len());
                std::ptr::write_volatile(p as *mut u64, js.len() as u64);
            }
        }
    }
}

fn thread_cpu(tid: i64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    Some((ut + st) / hz)
}

fn eval<P: Prop>(case: &P::Case, slot: &Slot, stats: Option<&mut Stats>, sample: bool) -> Verdict {
    let js = serde_json::to_string(case).expect("case serialises");
    slot.publish(&js);
    slot.count.fetch_add(1, Ordering::SeqCst);
    let mut obs = Obs::default();
    let r = catch_unwind(AssertUnwindSafe(|| P::check(case, &mut obs)));
    match r {
        Ok(v) => {
            if let Some(st) = stats {
                st.evaluations += 1;
                if obs.nontrivial {
                    // memory bound: beyond this the distinct count is a lower bound
                    let new = st.hashes.len() < MAX_HASHES && st.hashes.insert(fnv(&js));
                    if new && sample && st.samples.len() < 3 {
                        st.samples.push(serde_json::from_str(&js).unwrap());
                    }
                }
                for l in obs.labels { *st.labels.entry(l).or_insert(0) += 1; }
            }
            v
        }
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
            if let Some(st) = stats { st.harness_error.get_or_insert(format!("harness panic: {} on {}", m, js)); }
            Ok(())
        }
    }
}

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn write_replay<P: Prop>(case_json: &str, msg: &str) -> String { write_replay_after::<P>(case_json, msg, &[]) }

/// `before`: cases that were run before this one and on which the failure may depend
fn write_replay_after<P: Prop>(case_json: &str, msg: &str, before: &[String]) -> String {
    let dir = format!("{}/replays", root());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{:016x}.json", dir, P::ID, fnv(case_json));
    let mut v = serde_json::json!({"property": P::ID, "message": msg, "case": serde_json::from_str::<serde_json::Value>(case_json).unwrap()});
    if !before.is_empty() { v["before"] = before.iter().map(|b| serde_json::from_str::<serde_json::Value>(b).unwrap()).collect(); }
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write replay");
    path
}

fn map_file(path: &str) -> usize {
    use std::os::fd::AsRawFd;
    let f = match std::fs::OpenOptions::new().read(true).write(true).open(path) { Ok(f) => f, Err(_) => return 0 };
    let p = unsafe { libc::mmap(std::ptr::null_mut(), SHARDS as usize * SHM_SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p == libc::MAP_FAILED { 0 } else { p as usize }
}

fn child(args: &[&str], shm: Option<&str>, quiet: bool, bytes: u64) -> std::io::Result<std::process::ExitStatus> {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe()?);
    c.args(args).env("VH_CHILD", "1");
    if let Some(p) = shm { c.env("VH_SHM", p); } else { c.env_remove("VH_SHM"); }
    if quiet { c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()); }
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.status()
}

/// Runs the property in a child process. A crash no `catch_unwind` stops (stack overflow, abort, memory
/// exhausted) is traced to the case that was running, in a process of its own.
pub fn supervise<P: Prop>(tier: Tier, seed: u64) -> i32 {
    if std::env::var("VH_CHILD").is_ok() { return run::<P>(tier, seed); }
    let start = Instant::now();
    let shm = std::env::temp_dir().join(format!("vharness-{}-{}", P::ID, std::process::id()));
    let made = std::fs::File::create(&shm).and_then(|f| f.set_len(SHARDS * SHM_SLOT as u64));
    let path = shm.to_string_lossy().to_string();
    let st = made.and_then(|_| child(&[P::ID], Some(&path), false, RUN_BYTES));
    let bytes = std::fs::read(&shm).unwrap_or_default();
    std::fs::remove_file(&shm).ok();
    let st = match st { Ok(s) => s, Err(e) => { eprintln!("{}: cannot run: {}", P::ID, e); return 2; } };
    if let Some(c) = st.code() { return c; }
    for k in 0..SHARDS as usize {
        let slot = match bytes.get(k * SHM_SLOT..(k + 1) * SHM_SLOT) { Some(s) => s, None => break };
        let n = u64::from_le_bytes(slot[..8].try_into().unwrap()) as usize;
        if n == 0 || n + 8 > SHM_SLOT { continue; }
        let js = match std::str::from_utf8(&slot[8..8 + n]) { Ok(s) if serde_json::from_str::<P::Case>(s).is_ok() => s, _ => continue };
        let msg = format!("the process died ({})", st);
        let file = write_replay::<P>(js, &msg);
        match child(&["replay", &file], None, true, REPLAY_BYTES) {
            Ok(r) if r.code().is_none() => {
                println!("{}: {} on case {}", P::ID, msg, &js[..js.char_indices().map(|(i, _)| i).take_while(|i| *i <= 2000).last().unwrap_or(0)]);
                write_evidence::<P>(tier, seed, start, &[], 1, Some(1));
                println!("VIOLATION property={} replay={}", P::ID, file);
                return 1;
            }
            _ => { std::fs::remove_file(&file).ok(); }
        }
    }
    eprintln!("{}: the process died ({}) and no case reproduces it", P::ID, st);
    2
}

/// exit code
pub fn run<P: Prop>(tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let total = P::cases(tier);
    let per = (total as u64 / SHARDS).max(1) as u32;
    let base = std::env::var("VH_SHM").ok().map(|p| map_file(&p)).unwrap_or(0);
    let slots: Vec<Arc<Slot>> = (0..SHARDS as usize)
        .map(|k| Arc::new(Slot { current: Mutex::new(None), count: AtomicU64::new(0), tid: AtomicI64::new(0), done: AtomicBool::new(false), shm: if base == 0 { 0 } else { base + k * SHM_SLOT }, history: Mutex::new(VecDeque::new()) }))
        .collect();

    // one failure is enough: the other shards stop generating
    let found = Arc::new(AtomicBool::new(false));
    let mut handles = vec![];
    for shard in 0..SHARDS {
        let slot = slots[shard as usize].clone();
        let found = found.clone();
        handles.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            slot.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i64, Ordering::SeqCst);
            let mut stats = Stats::default();
            let mut failure: Option<(P::Case, String, Vec<String>)> = None;
            let late = || tier == Tier::Quick && start.elapsed().as_secs() > QUICK_DEADLINE_S;
            let stop = || found.load(Ordering::Relaxed) || late();
            // fixed cases, dealt round-robin
            for (i, c) in P::fixed(tier).into_iter().enumerate() {
                if i as u64 % SHARDS != shard { continue; }
                if stop() { break; }
                if let Err(m) = eval::<P>(&c, &slot, Some(&mut stats), false) {
                    failure = Some((c, m, vec![]));
                    found.store(true, Ordering::Relaxed);
                    break;
                }
            }
            *stats.labels.entry("fixed-list cases".into()).or_insert(0) += stats.evaluations;
            if failure.is_none() {
                let cfg = Config {
                    cases: per,
                    failure_persistence: None,
                    max_shrink_iters: 4000,
                    max_shrink_time: 120_000,
                    max_global_rejects: 1,
                    source_file: None,
                    ..Config::default()
                };
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard_seed(seed, P::ID, shard));
                let mut runner = TestRunner::new_with_rng(cfg, rng);
                let cell = std::cell::RefCell::new((&mut stats, false));
                // the failure as it was first seen
                let first: std::cell::RefCell<Option<(P::Case, String, Vec<String>)>> = Default::default();
                let strat = P::strategy(tier);
                let res = runner.run(&strat.prop_map(|c| c), |case| {
                    let mut g = cell.borrow_mut();
                    let failed = g.1;
                    if !failed && stop() { return Err(TestCaseError::reject("stopped")); }
                    let (st, flag) = &mut *g;
                    let r = if failed { eval::<P>(&case, &slot, None, false) } else { eval::<P>(&case, &slot, Some(st), true) };
                    match r {
                        Ok(()) => Ok(()),
                        Err(m) => {
                            if !*flag { *first.borrow_mut() = Some((case.clone(), m.clone(), slot.history.lock().unwrap().iter().cloned().collect())); }
                            *flag = true;
                            found.store(true, Ordering::Relaxed);
                            Err(TestCaseError::fail(m))
                        }
                    }
                });
                match res {
                    Ok(()) => {}
                    Err(TestError::Fail(_, case)) => {
                        // plain re-execution of the minimal case, outside the library
                        match eval::<P>(&case, &slot, None, false) {
                            Err(m) => failure = Some((case, m, vec![])),
                            // The harness keeps no state between cases: the code under test answered
                            // differently to the same calls.
                            Ok(()) => failure = first.into_inner().map(|(c, m, b)| (c, format!("{} (not on every run: depends on earlier or concurrent calls)", m), b)),
                        }
                    }
                    Err(TestError::Abort(_)) if late() => { stats.labels.insert("stopped at the time limit".into(), 1); }
                    Err(TestError::Abort(_)) if found.load(Ordering::Relaxed) => {}
                    Err(TestError::Abort(r)) => { stats.harness_error.get_or_insert(format!("proptest aborted: {}", r)); }
                }
            }
            slot.done.store(true, Ordering::SeqCst);
            (stats, failure)
        }).unwrap());
    }

    // watchdog
    let mut last: Vec<(u64, f64)> = vec![(0, 0.0); SHARDS as usize];
    let mut tick = 0u64;
    loop {
        if slots.iter().all(|s| s.done.load(Ordering::SeqCst)) { break; }
        std::thread::sleep(Duration::from_millis(20));
        tick += 1;
        if tick % 50 != 0 { continue; }
        for (k, s) in slots.iter().enumerate() {
            if s.done.load(Ordering::SeqCst) { continue; }
            let tid = s.tid.load(Ordering::SeqCst);
            if tid == 0 { continue; }
            let c = s.count.load(Ordering::SeqCst);
            let cpu = match thread_cpu(tid) { Some(x) => x, None => continue };
            if last[k].0 != c { last[k] = (c, cpu); continue; }
            if c > 0 && cpu - last[k].1 > HANG_CPU_S {
                let js = s.current.lock().unwrap().clone().unwrap_or_default();
                if P::HANG_IS_VIOLATION {
                    let msg = format!("call did not return within {} CPU seconds", HANG_CPU_S);
                    let path = write_replay::<P>(&js, &msg);
                    println!("{}: {}", P::ID, msg);
                    write_evidence::<P>(tier, seed, start, &[], 1, Some(c));
                    println!("VIOLATION property={} replay={}", P::ID, path);
                    return 1;
                }
                eprintln!("{}: watchdog: a case exceeded {} CPU seconds: {}", P::ID, HANG_CPU_S, js);
                return 2;
            }
        }
    }

    let mut all = vec![];
    let mut failure = None;
    for h in handles {
        match h.join() {
            Ok((st, f)) => { if failure.is_none() { failure = f; } all.push(st); }
            Err(_) => { eprintln!("{}: shard thread died", P::ID); return 2; }
        }
    }
    write_evidence::<P>(tier, seed, start, &all, failure.is_some() as u64, None);
    if let Some((case, msg, before)) = failure {
        let js = serde_json::to_string(&case).unwrap();
        let path = write_replay_after::<P>(&js, &msg, &before);
        println!("{}: {}", P::ID, msg);
        println!("{}: minimal case: {}", P::ID, js);
        println!("VIOLATION property={} replay={}", P::ID, path);
        return 1;
    }
    for st in &all {
        if let Some(e) = &st.harness_error { eprintln!("{}: {}", P::ID, e); return 2; }
    }
    let n: u64 = all.iter().map(|s| s.evaluations).sum();
    println!("{}: held on {} cases ({:.1} s)", P::ID, n, start.elapsed().as_secs_f64());
    0
}

fn write_evidence<P: Prop>(tier: Tier, seed: u64, start: Instant, all: &[Stats], violations: u64, partial: Option<u64>) {
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut evals = partial.unwrap_or(0);
    for s in all {
        evals += s.evaluations;
        hashes.extend(&s.hashes);
        for (k, v) in &s.labels { *labels.entry(k.clone()).or_insert(0) += v; }
        samples.extend(s.samples.iter().take(1).cloned());
    }
    samples.truncate(6);
    let v = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": P::RULE,
            "samples": samples,
            "classes": labels,
            "shards": SHARDS,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{}/{}.json", dir, P::ID), serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write evidence");
}

pub fn replay<P: Prop>(v: &serde_json::Value, path: &str) -> i32 {
    let case: P::Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => { eprintln!("cannot read case: {}", e); return 2; }
    };
    if std::env::var("VH_CHILD").is_err() {
        return match child(&["replay", path], None, false, REPLAY_BYTES).map(|s| (s, s.code())) {
            Ok((_, Some(c))) => c,
            Ok((s, None)) => { println!("{}: the process died ({})", P::ID, s); println!("VIOLATION property={} replay={}", P::ID, path); 1 }
            Err(e) => { eprintln!("cannot run: {}", e); 2 }
        };
    }
    println!("{} case: {:?}", P::ID, case);
    for b in v["before"].as_array().into_iter().flatten() {
        if let Ok(b) = serde_json::from_value::<P::Case>(b.clone()) { let _ = P::check(&b, &mut Obs::default()); }
    }
    let mut obs = Obs::default();
    match P::check(&case, &mut obs) {
        Ok(()) => { println!("{}: holds on this case (labels {:?})", P::ID, obs.labels); 0 }
        Err(m) => { println!("{}: {}", P::ID, m); println!("VIOLATION property={} replay={}", P::ID, path); 1 }
    }
}
