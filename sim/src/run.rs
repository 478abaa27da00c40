//! One run: a forked process in which the server's threads live, and whose first thread waits for the end and judges.
use crate::kernel::*;
use crate::scenario::{Arch, Scenario, Tapes};
use crate::{judge, raw, shim};
use libc::c_void;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Viol { pub class: String, pub text: String }

#[derive(Clone, Default, Serialize, Deserialize, Debug)]
pub struct RunOut {
    pub viol: Vec<Viol>,
    /// The run says nothing (simulator error, resource limit, checker gave up).
    pub inconclusive: Option<String>,
    pub c: Counters,
    pub sim_ns: u64,
    pub steps: u64,
    pub trace_hash: u64,
    pub choices: u64,
    pub stop: String,
    pub exit: String,
    pub tapes: Option<Tapes>,
    pub log: Vec<String>,
    pub real_us: u64,
}

pub const SHM: usize = 48 << 20;
pub struct Shm { p: *mut u8 }
impl Shm {
    pub fn new() -> Shm {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shm { p: p as *mut u8 }
    }
    fn clear(&self) { unsafe { *(self.p as *mut u64) = 0 } }
    pub fn put(&self, b: &[u8]) {
        let n = b.len().min(SHM - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(8), n);
            *(self.p as *mut u64) = n as u64;
        }
    }
    fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p.add(8), *(self.p as *const u64) as usize) } }
}

pub static mut OUT: *const Shm = std::ptr::null();
static mut WANT: Want = Want { tapes: false, log: false };
#[derive(Clone, Copy)]
pub struct Want { pub tapes: bool, pub log: bool }

extern "C" fn thread0(_: *mut c_void) -> *mut c_void {
    let arch = k().sc.arch;
    let r = std::panic::catch_unwind(|| match arch {
        Arch::Single => repobins::single_main(),
        Arch::MultiMain => repobins::multi_main(),
        Arch::Multi(l, a) => repobins::multi_pools(l, a, 7878),
        Arch::Async(_) => repobins::async_main(),
        Arch::Lib => {}
    });
    unsafe { IN_SIM = true }
    system_exited(if r.is_ok() { Exit::Returned } else { Exit::Panicked });
    std::mem::forget(r);
    block(Key::Desched, None);
    park_forever()
}

/// Installed once: panics of the system are recorded (and unwind); panics of the simulator end the run.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| unsafe {
        let msg = format!("{}", info);
        if ACTIVE && !IN_SIM {
            IN_SIM = true;
            let kk = k();
            let now = kk.now;
            if kk.panics.len() < 20 { kk.panics.push(format!("[{:.6}s] {}", now as f64 / 1e9, msg)); }
            kk.c.inc("thread_panics");
            IN_SIM = false;
        } else if !OUT.is_null() {
            let o = RunOut { inconclusive: Some(format!("simulator panicked: {}", msg)), ..Default::default() };
            ACTIVE = false;
            (*OUT).put(&serde_json::to_vec(&o).unwrap());
            raw::exit_group(3);
        } else {
            eprintln!("{}", msg);
        }
    }));
}

fn finish(viol: Vec<Viol>, inconclusive: Option<String>, log: Vec<String>) -> ! {
    let kk = k();
    let mut o = RunOut { viol, inconclusive, c: std::mem::take(&mut kk.c), sim_ns: kk.now, steps: kk.steps, trace_hash: kk.trace_hash, stop: kk.stop_reason.to_string(), exit: format!("{:?}", kk.exit),
        choices: (kk.sched.rec.len() + kk.slice.rec.len() + kk.nett.rec.len() + kk.fault.rec.len()) as u64, ..Default::default() };
    o.trace_hash ^= kk.sched.hash ^ kk.slice.hash.rotate_left(13) ^ kk.nett.hash.rotate_left(27) ^ kk.fault.hash.rotate_left(41);
    unsafe {
        if WANT.tapes || (!o.viol.is_empty()) {
            let d = |t: &crate::rng::Tape| crate::rng::TapeData(t.rec.clone());
            o.tapes = Some(Tapes { sched: d(&kk.sched), slice: d(&kk.slice), net: d(&kk.nett), fault: d(&kk.fault) });
        }
        o.log = log;
        let mut b = serde_json::to_vec(&o).unwrap();
        if b.len() > SHM - 16 { o.tapes = None; b = serde_json::to_vec(&o).unwrap(); }
        (*OUT).put(&b);
    }
    raw::exit_group(0)
}

/// Library code ran for too long without returning.
pub fn lib_hang() -> ! {
    unsafe { ACTIVE = false; }
    k().stop_reason = "hang";
    finish(vec![Viol { class: "hang".into(), text: "a command or cleaning pass of the library does not return".into() }], None, vec![])
}

fn child(sc: Scenario) -> ! {
    unsafe {
        let lib = sc.arch == Arch::Lib;
        if let Arch::Async(w) = sc.arch { std::env::set_var("TOKIO_WORKER_THREADS", w.to_string()); }
        let mut kk = Box::new(K::new(sc));
        for i in 0..kk.sc.clients.len() {
            let st = kk.sc.clients[i].steps.clone();
            kk.actors.push(crate::client::Actor::new(i, st));
        }
        KP = Box::into_raw(kk);
        let kk = k();
        for i in 0..kk.sc.timeline.len() { let at = kk.sc.timeline[i].at; kk.post(at, Ev::Timeline(i)); }
        LIVE_HEAP = 0;
        ALLOCS = 0;
        if lib {
            let ops = kk.sc.lib.clone();
            kk.spawn_thr();
            IN_SIM = true;
            ACTIVE = true;
            let r = std::panic::catch_unwind(|| crate::lib_run::run(&ops));
            IN_SIM = true;
            ACTIVE = false;
            let mut v = vec![];
            let kk = k();
            match r {
                Ok(rep) => {
                    kk.c.add("lib_operations", rep.ops);
                    kk.c.add("lib_checks", rep.checks);
                    if let Some((class, text)) = rep.bad { v.push(Viol { class, text }); }
                }
                Err(e) => { std::mem::forget(e); v.push(Viol { class: "panic".into(), text: format!("a command or cleaning pass of the library panicked: {}", kk.panics.join("; ")) }); }
            }
            kk.stop_reason = "done";
            finish(v, None, vec![]);
        }
        IN_SIM = true;
        ACTIVE = true;
        let mut native = 0u64;
        if let Err(e) = shim::spawn_thread(std::ptr::null(), thread0, std::ptr::null_mut(), &mut native) {
            ACTIVE = false;
            finish(vec![], Some(format!("cannot create a thread: {}", e)), vec![]);
        }
        crate::client::start(kk);
        let done: *const std::sync::atomic::AtomicU32 = &kk.done;
        kk.thr[0].baton.store(1, Ordering::Release);
        raw::futex_wake(&kk.thr[0].baton);
        while (*done).load(Ordering::Acquire) == 0 { raw::futex_wait(&*done, 0); }
        ACTIVE = false;
        let (v, inc, log) = judge::judge(k(), WANT.log);
        finish(v, inc, log)
    }
}

/// Runs a scenario in a forked process.
pub fn run(sc: &Scenario, shm: &Shm, want: Want, limit_s: u32) -> RunOut {
    shm.clear();
    let t0 = raw::real_now();
    unsafe {
        OUT = shm;
        let pid = libc::fork();
        if pid == 0 {
            WANT = want;
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let nc = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nc);
            libc::alarm(limit_s);
            child(sc.clone());
        }
        OUT = std::ptr::null();
        if pid < 0 { return RunOut { inconclusive: Some("fork failed".into()), ..Default::default() } }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid { break }
            if r < 0 && *libc::__errno_location() != libc::EINTR { break }
        }
        let mut out = match serde_json::from_slice::<RunOut>(shm.get()) {
            Ok(o) => o,
            Err(_) => {
                let mut o = RunOut::default();
                if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { o.inconclusive = Some(format!("no end within {} s of real time", limit_s)); }
                else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL { o.inconclusive = Some("killed".into()); }
                else if libc::WIFSIGNALED(st) {
                    o.viol.push(Viol { class: "crash".into(), text: format!("the whole server process died of signal {} (abort, stack overflow or memory exhaustion)", libc::WTERMSIG(st)) });
                } else { o.inconclusive = Some(format!("ended with status {} and no result", st)); }
                o
            }
        };
        out.real_us = ((raw::real_now() - t0) * 1e6) as u64;
        out
    }
}
