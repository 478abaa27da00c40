//! Command line: `check` explores a property and writes its evidence, `replay` re-executes a replay file.
use crate::kernel::{Counters, COVER_N};
use crate::run::{run, RunOut, Shm, Viol, Want};
use crate::scenario::{Arch, Scenario};
use crate::{gen, kernel, minimise, raw, run as runm, shim};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const ROOT: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

/// What `replay` needs: the scenario with its choice tapes, and what it shows.
#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub verif_seed: u64,
    pub class: String,
    pub violation: String,
    pub trace_hash: String,
    pub steps: u64,
    pub minimised: String,
    pub history: Vec<String>,
    pub scenario: Scenario,
}

fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p & libc::ADDR_NO_RANDOMIZE == 0 {
            libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong);
            use std::os::unix::process::CommandExt;
            let a: Vec<_> = std::env::args_os().skip(1).collect();
            let e = std::process::Command::new("/proc/self/exe").args(a).env("SIM_REEXEC", "1").exec();
            eprintln!("exec: {}", e);
        }
    }
}

/// The seed of run `index` of a check.
pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    crate::rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(p), index ^ 0xabcdef).next() >> 16
}


/// Number of runs and wall-clock budget (seconds of exploring) of a check.
fn plan(prop: &str, thorough: bool) -> (u64, f64) {
    let q = match prop {
        "C01" => 20_000, "C02" => 12_000, "C03" => 20_000, "C04" => 20_000, "C05" => 30_000, "C06" => 14_000, "C07" => 11_000, "C08" => 3_000, "C09" => 10_000,
        "C10" => 18_000, "C11" => 40_000, "C12" => 150_000, "C13" => 9_000, "C14" => 5_000, "C15" => 4_500, "C16" => 20_000, "C17" => 16_000, "C19" => 2_500,
        _ => 1_000,
    };
    if thorough { (q * 40, 700.0) } else { (q, 45.0) }
}

#[derive(Clone, Serialize, Deserialize)]
struct Found { index: u64, viol: Viol }

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    hashes: BTreeSet<u64>,
    scenarios: u64,
    c: Counters,
    sim_ns: u64,
    steps: u64,
    choices: u64,
    threads: u64,
    inconclusive: BTreeMap<String, u64>,
    inc_example: Vec<(u64, String)>,
    by_arch: BTreeMap<String, u64>,
    by_kind: BTreeMap<String, u64>,
    rerun: u64,
    rerun_differs: Vec<u64>,
    /// Some runs and what identifies their executions: executed again in a fresh process at the end.
    sig: Vec<(u64, String)>,
    found: Vec<Found>,
    known: BTreeMap<String, u64>,
    real_us: u64,
}
impl Agg {
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs; self.nontrivial += o.nontrivial; self.hashes.extend(o.hashes); self.scenarios += o.scenarios; self.c.merge(&o.c); self.sim_ns += o.sim_ns; self.steps += o.steps;
        self.choices += o.choices; self.threads = self.threads.max(o.threads); self.rerun += o.rerun; self.rerun_differs.extend(o.rerun_differs); self.found.extend(o.found); self.sig.extend(o.sig); self.real_us += o.real_us;
        for (k, v) in o.inconclusive { *self.inconclusive.entry(k).or_default() += v }
        for (k, v) in o.by_arch { *self.by_arch.entry(k).or_default() += v }
        for (k, v) in o.by_kind { *self.by_kind.entry(k).or_default() += v }
        for (k, v) in o.known { *self.known.entry(k).or_default() += v }
        self.inc_example.extend(o.inc_example);
        self.inc_example.truncate(5);
    }
}

/// What identifies an execution.
fn sig(o: &RunOut) -> String { format!("{:x} {} {} {:?}", o.trace_hash, o.steps, o.sim_ns, o.c.m) }

struct Shared { next: AtomicU64, stop: AtomicU32 }

/// Lines `known: property=<id> class=<class> text=<substring>`; other lines are comments (and the record of fixes).
struct Known { class: String, text: String, line: String }
fn known_findings(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", ROOT)).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let Some((p, r)) = r.split_once(" class=") else { continue };
        let Some((c, x)) = r.split_once(" text=") else { continue };
        if p == format!("property={}", prop) { v.push(Known { class: c.to_string(), text: x.to_string(), line: l.to_string() }) }
    }
    v
}

/// Events that make a run worth counting: something raced, was delayed, failed, moved in time or was refused.
const TROUBLE: &[&str] = &["preemptions", "spurious_wakeup", "thread_stall", "thread_kept_off_the_cpu", "clock_jump_forward", "clock_jump_backward", "client_fin_midway", "client_close_midway", "client_reset_midway", "client_stall", "client_never_reads",
    "segment_pauses", "short_write", "partial_write", "write_error", "read_error", "accept_EMFILE", "accept_ECONNABORTED", "accept_EINTR", "accept_other_errno", "thread_EAGAIN", "log_error", "write_would_block", "write_blocked", "read_timeout", "write_timeout", "expired_entries_removed", "status_422", "status_400", "status_401", "status_403"];

fn worker(prop: &str, seed: u64, total: u64, deadline: f64, sh: &Shared, cpu: usize, mut out: std::fs::File) -> ! {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(cpu % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let shm = Shm::new();
    let known = known_findings(prop);
    let mut a = Agg::default();
    while sh.stop.load(Ordering::Relaxed) == 0 && raw::real_now() < deadline {
        let i = sh.next.fetch_add(1, Ordering::Relaxed);
        if i >= total { break }
        let sc = gen::gen(prop, i, run_seed(seed, prop, i));
        let o = run(&sc, &shm, Want { tapes: false, log: false }, 40);
        a.runs += 1;
        a.real_us += o.real_us;
        *a.by_arch.entry(sc.arch.name().to_string()).or_default() += 1;
        *a.by_kind.entry(sc.kind.clone()).or_default() += 1;
        if let Some(e) = &o.inconclusive {
            *a.inconclusive.entry(e.chars().take(80).collect()).or_default() += 1;
            if a.inc_example.len() < 3 { a.inc_example.push((i, e.chars().take(300).collect())) }
        }
        if i % 97 == 5 && o.viol.is_empty() && o.inconclusive.is_none() {
            let p = run(&sc, &shm, Want { tapes: false, log: false }, 40);
            a.rerun += 1;
            if sig(&p) != sig(&o) { a.rerun_differs.push(i) }
            if a.sig.len() < 4 { a.sig.push((i, sig(&o))) }
        }
        a.c.merge(&o.c);
        a.sim_ns += o.sim_ns;
        a.steps += o.steps;
        a.choices += o.choices;
        a.threads = a.threads.max(o.c.get("threads_created"));
        let h = if sc.arch == Arch::Lib { sc.seed } else { o.trace_hash };
        let work = o.c.get("responses") > 0 || o.c.get("lib_checks") > 0;
        if o.inconclusive.is_none() && work && (sc.arch == Arch::Lib || TROUBLE.iter().any(|k| o.c.get(k) > 0)) && a.hashes.insert(h) { a.nontrivial += 1 }
        let mut new: Vec<&Viol> = vec![];
        for v in &o.viol {
            match known.iter().find(|k| k.class == v.class && v.text.contains(&k.text)) { Some(k) => *a.known.entry(k.line.clone()).or_default() += 1, None => new.push(v) }
        }
        if let Some(v) = new.first() {
            a.found.push(Found { index: i, viol: (*v).clone() });
            sh.stop.store(1, Ordering::Relaxed);
        }
    }
    let _ = out.write_all(&serde_json::to_vec(&a).unwrap());
    drop(out);
    raw::exit_group(0)
}

fn explore(prop: &str, seed: u64, from: u64, total: u64, deadline: f64, jobs: usize) -> (Agg, u64) {
    let sh: &'static Shared = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Shared)
    };
    sh.next.store(from, Ordering::Relaxed);
    let _ = std::io::stdout().flush();
    let mut pipes = vec![];
    for w in 0..jobs {
        let mut fd = [0; 2];
        unsafe {
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            use std::os::fd::FromRawFd;
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fd[0]);
                worker(prop, seed, total, deadline, sh, w, std::fs::File::from_raw_fd(fd[1]));
            }
            libc::close(fd[1]);
            pipes.push((pid, std::fs::File::from_raw_fd(fd[0])));
        }
    }
    let mut agg = Agg::default();
    for (pid, mut f) in pipes {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        match serde_json::from_slice::<Agg>(&b) { Ok(a) => agg.merge(a), Err(_) => { *agg.inconclusive.entry("a worker died".into()).or_default() += 1 } }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0); }
    }
    agg.found.sort_by_key(|f| f.index);
    (agg, sh.next.load(Ordering::Relaxed).min(total))
}

fn describe(sc: &Scenario) -> serde_json::Value {
    let policy = ["uniform random", "random priorities", "mostly in turn"][sc.cfg.policy as usize % 3];
    let mut v = serde_json::json!({ "index": sc.index, "seed": sc.seed, "kind": sc.kind, "system": format!("{:?}", sc.arch), "scheduler": { "policy": policy, "preempt_probability": sc.cfg.slice_p, "mean_slice_blocks": sc.cfg.slice_mean },
        "timeline": sc.timeline.iter().take(6).map(|t| format!("{:.3}s {:?}", t.at as f64 / 1e9, t.kind)).collect::<Vec<_>>() });
    if sc.arch == Arch::Lib {
        v["operations"] = serde_json::json!(sc.lib.iter().take(12).map(|o| crate::lin::short(&format!("{:?}", o), 160)).collect::<Vec<_>>());
    } else {
        v["clients"] = serde_json::json!(sc.clients.iter().map(|c| c.steps.iter().take(6).map(|s| crate::lin::short(&crate::client::show_step(s), 200)).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    v
}

/// One run of the command line in a fresh process: does the file reproduce?
fn confirm(path: &str) -> bool {
    match std::process::Command::new("/proc/self/exe").arg("replay").arg(path).arg("--quiet").output() {
        Ok(o) => o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains("VIOLATION property="),
        Err(_) => false,
    }
}

fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = raw::real_now();
    let thorough = tier == "thorough";
    let (mut total, mut secs) = plan(prop, thorough);
    if let Some(x) = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()) { total = x }
    if let Some(x) = std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()) { secs = x }
    let jobs = std::env::var("SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize });
    // a replay file of an earlier run must not be mistaken for one of this run
    let dir = format!("{}/evidence/replay", ROOT);
    let _ = std::fs::create_dir_all(&dir);
    for t in ["", ".full"] { let _ = std::fs::remove_file(format!("{}/{}{}.json", dir, prop, t)); }
    let mut agg = Agg::default();
    let (mut from, deadline) = (0, t0 + secs);
    let mut explored_s = 0.0;
    let shm = Shm::new();
    let mut report: Option<(String, Viol)> = None;
    let mut unreproduced = vec![];
    // A report ends the exploration; one that does not come up again in a fresh process does not count, and the
    // exploration goes on behind it.
    'all: while from < total && unreproduced.len() < 20 {
        let te = raw::real_now();
        let (part, next) = explore(prop, seed, from, total, deadline, jobs);
        explored_s += raw::real_now() - te;
        from = next;
        let found = part.found.clone();
        agg.merge(part);
        for f in found.iter() {
            let sc = gen::gen(prop, f.index, run_seed(seed, prop, f.index));
            let budget = if thorough { 300.0 } else { 60.0 };
            let full = Replay { property: prop.into(), verif_seed: seed, class: f.viol.class.clone(), violation: f.viol.text.clone(), trace_hash: String::new(), steps: 0, minimised: "no".into(), history: vec![], scenario: sc.clone() };
            let full_path = format!("{}/{}.full.json", dir, prop);
            let path = format!("{}/{}.json", dir, prop);
            let _ = std::fs::write(&full_path, serde_json::to_vec_pretty(&full).unwrap());
            if !(confirm(&full_path) || confirm(&full_path)) { unreproduced.push(f.index); continue }
            let known = known_findings(prop);
            let m = minimise::minimise(&sc, &f.viol.class, &shm, budget, &|v: &Viol| !known.iter().any(|k| k.class == v.class && v.text.contains(&k.text)));
            if let Some((sc, out, note)) = m {
                let v = out.viol.iter().find(|v| v.class == f.viol.class).cloned().unwrap_or(f.viol.clone());
                let r = Replay { property: prop.into(), verif_seed: seed, class: v.class.clone(), violation: v.text.clone(), trace_hash: format!("{:x}", out.trace_hash), steps: out.steps, minimised: note, history: out.log.clone(), scenario: sc };
                let _ = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap());
                if confirm(&path) { report = Some((path, v)); break 'all }
            }
            report = Some((full_path, f.viol.clone()));
            break 'all;
        }
        if found.is_empty() { break }
    }
    // determinism across processes
    let mut fresh = 0;
    let mut fresh_differs = vec![];
    if report.is_none() {
        for (i, want) in agg.sig.iter().take(if thorough { 24 } else { 6 }) {
            let o = std::process::Command::new("/proc/self/exe").args(["sig", prop, &i.to_string(), &seed.to_string()]).output();
            let Ok(o) = o else { continue };
            fresh += 1;
            if String::from_utf8_lossy(&o.stdout).trim() != want.as_str() { fresh_differs.push(*i) }
        }
    }
    let wall = raw::real_now() - t0;
    let samples: Vec<_> = [0u64, 1, 2, 3, 4].iter().map(|i| describe(&gen::gen(prop, *i, run_seed(seed, prop, *i)))).collect();
    let faults: BTreeMap<&String, &u64> = agg.c.m.iter().filter(|(k, _)| TROUBLE.contains(&k.as_str()) && !k.starts_with("status_")).collect();
    let cover = unsafe { (0..COVER_N).filter(|i| *kernel::COVER.add(*i) != 0).count() };
    let inconclusive: u64 = agg.inconclusive.values().sum();
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.hashes.len(),
            "rule": "A run is one simulated execution, generated from (VERIF_SEED, property, index): server program or library, clients and their requests, scheduler policy, network, clock and faults. It is non-trivial if something was checked in it (a response, or an outcome of a library operation) and at least one pre-emption, fault, clock step, delayed segment, refused request or removal of an expired entry happened in it; two runs are the same if the hash over every scheduling decision with its time, and over every fault and network choice, is equal (for library histories: the seed of the history).",
            "samples": samples,
            "planned_runs": total,
            "runs_per_hour": (agg.runs as f64 / explored_s * 3600.0) as u64,
            "seeds_per_hour": (agg.scenarios.max(agg.runs) as f64 / explored_s * 3600.0) as u64,
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "scheduler_steps": agg.steps,
            "random_choices_taken": agg.choices,
            "basic_blocks_of_the_system_reached": cover,
            "most_threads_created_in_one_run": agg.threads,
            "faults_and_disturbances_injected": faults,
            "counters": agg.c.m,
            "runs_by_system": agg.by_arch,
            "runs_by_scenario_kind": agg.by_kind,
            "determinism": { "runs_executed_twice": agg.rerun, "runs_that_differed": agg.rerun_differs, "runs_executed_again_in_a_fresh_process": fresh, "of_these_differed": fresh_differs },
            "inconclusive_runs": agg.inconclusive, "inconclusive_examples": agg.inc_example,
            "unreproduced_reports": unreproduced,
            "known_findings_seen": agg.known,
            "real_code": ["all of /repo/server (lib: tokenizer, parser, interpreter, storage, auth, I/O, single and multi threaded servers; programs simple.rs, multi.rs, async.rs), unmodified", "Rust std (threads, mutexes, channels, condvars, sockets, time)", "tokio runtime with its I/O and time drivers", "httparse, serde_json, rand"],
            "stubs": ["scheduler, futexes, condvars below std, clocks and timers, sockets, epoll, eventfd, getrandom: the simulated kernel behind libc", "clients"]
        },
        "assumptions": ["pre-emption happens at basic block boundaries of /repo's crates and at every intercepted libc call; memory is sequentially consistent", "memory allocation below 3 GB succeeds; thread creation and writes to stdout fail only in runs of C16"],
        "wall_s": wall, "violations": if report.is_some() { 1 } else { 0 }
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", ROOT));
    std::fs::write(format!("{}/evidence/{}.json", ROOT, prop), serde_json::to_vec_pretty(&ev).unwrap()).expect("cannot write the evidence file");
    for k in known_findings(prop) { println!("KNOWN-FINDING: {}", k.line.trim_start_matches("known: ")) }
    println!("{}: {} runs ({} planned), {} distinct non-trivial, {:.0} simulated seconds, {} inconclusive, {} re-runs ({} differing), {:.1} s", prop, agg.runs, total, agg.hashes.len(), agg.sim_ns as f64 / 1e9, inconclusive, agg.rerun + fresh, agg.rerun_differs.len() + fresh_differs.len(), wall);
    match report {
        Some((path, v)) => {
            println!("{}: {}", v.class, crate::lin::short(&v.text, 1500));
            println!("VIOLATION property={} replay={}", prop, std::fs::canonicalize(&path).map(|p| p.display().to_string()).unwrap_or(path));
            1
        }
        None => 0,
    }
}

fn replay(path: &str, quiet: bool) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(path).expect("cannot read the replay file")).expect("not a replay file");
    let shm = Shm::new();
    let o: RunOut = run(&r.scenario, &shm, Want { tapes: true, log: true }, 120);
    if !quiet {
        for l in &o.log { println!("{}", l) }
        println!("{} steps, {:.6} simulated s, trace {:x} (recorded: {} steps, trace {})", o.steps, o.sim_ns as f64 / 1e9, o.trace_hash, r.steps, r.trace_hash);
        for v in &o.viol { println!("{}: {}", v.class, v.text) }
    }
    if o.viol.iter().any(|v| v.class == r.class) {
        if !quiet && !r.trace_hash.is_empty() { println!("{}", if format!("{:x}", o.trace_hash) == r.trace_hash && o.steps == r.steps { "exactly the recorded execution" } else { "NOT the recorded execution (the code differs from the one it was recorded on)" }) }
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else { println!("not reproduced"); 0 }
}

pub fn main() {
    if std::env::var_os("SIM_REEXEC").is_none() { no_aslr() }
    std::env::set_var("RUST_BACKTRACE", "0");
    shim::init();
    runm::install_hook();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), COVER_N, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        kernel::COVER = p as *mut u8;
    }
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok());
    match a.get(1).map(|s| s.as_str()) {
        Some("one") => {
            let sc = gen::gen(&a[2], n(3).unwrap(), run_seed(n(4).unwrap_or(1), &a[2], n(3).unwrap()));
            let shm = Shm::new();
            let log = a.iter().any(|x| x == "--log");
            if a.iter().any(|x| x == "--sc") { println!("{}", serde_json::to_string_pretty(&sc).unwrap()); }
            let o = run(&sc, &shm, Want { tapes: false, log }, 30);
            for l in &o.log { println!("{}", l) }
            println!("{} {:?} sim={:.3}s steps={} stop={} exit={} real={}us hash={:x} inc={:?}", sc.kind, sc.arch, o.sim_ns as f64 / 1e9, o.steps, o.stop, o.exit, o.real_us, o.trace_hash, o.inconclusive);
            println!("{:?}", o.c.m);
            for v in &o.viol { println!("VIOL {} {}", v.class, v.text) }
        }
        Some("bench") => {
            let shm = Shm::new();
            let from = n(4).unwrap_or(0);
            for i in from..from + n(3).unwrap_or(20) {
                let sc = gen::gen(&a[2], i, run_seed(n(5).unwrap_or(1), &a[2], i));
                let o = run(&sc, &shm, Want { tapes: false, log: false }, 30);
                println!("{} {} {:?} sim={:.3}s steps={} stop={} exit={} real={}us req={}/{} th={} inc={:?}", i, sc.kind, sc.arch, o.sim_ns as f64 / 1e9, o.steps, o.stop, o.exit, o.real_us, o.c.get("requests_answered"), o.c.get("requests"), o.c.get("threads_created"), o.inconclusive);
                for v in &o.viol { println!("    VIOL {} {}", v.class, v.text.chars().take(300).collect::<String>()) }
            }
        }
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(1);
            std::process::exit(check(&a[2], if tier == "thorough" { "thorough" } else { "quick" }, seed))
        }
        Some("sig") => {
            let sc = gen::gen(&a[2], n(3).unwrap(), run_seed(n(4).unwrap(), &a[2], n(3).unwrap()));
            println!("{}", sig(&run(&sc, &Shm::new(), Want { tapes: false, log: false }, 40)));
        }
        Some("replay") => std::process::exit(replay(&a[2], a.iter().any(|x| x == "--quiet"))),
        _ => { eprintln!("usage: sim check PROPERTY [quick|thorough] | replay FILE | one PROPERTY INDEX [SEED] [--log] [--sc] | bench PROPERTY N [FROM] [SEED]"); std::process::exit(2) }
    }
}
