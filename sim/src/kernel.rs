//! The simulated kernel's core: one clock, one event queue, one scheduler. Real threads exist, exactly one of them (the
//! holder of the baton) runs at any time, and it changes hands only inside `schedule`.
use crate::client::Actor;
use crate::net::Net;
use crate::raw;
use crate::rng::{Rng, Tape};
use crate::scenario::{Scenario, TlKind};
use std::collections::BinaryHeap;
use std::cmp::Reverse;
use std::sync::atomic::{AtomicU32, Ordering};

/// A run is in progress (set in the forked child only).
pub static mut ACTIVE: bool = false;
/// The baton holder is executing simulator code: redefined libc functions pass through.
pub static mut IN_SIM: bool = false;
pub static mut KP: *mut K = std::ptr::null_mut();
/// Basic blocks left before the running thread is pre-empted.
pub static mut COUNTDOWN: i64 = i64::MAX;
pub static mut SLICE: i64 = 0;
/// Bytes of heap held by the system under test.
pub static mut LIVE_HEAP: i64 = 0;
/// Allocations by threads of the system so far.
pub static mut ALLOCS: u64 = 0;
pub static mut COVER: *mut u8 = std::ptr::null_mut();
pub const COVER_N: usize = 1 << 16;

pub fn k() -> &'static mut K { unsafe { &mut *KP } }

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Offset of the monotonic clock the system sees (so that times before the start of the run exist).
pub const MONO0: u64 = 100_000 * SEC;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key { Sleep, Futex(usize), Obj(usize), Net, Epoll(usize), Join(usize), Desched }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St { Run, Blocked(Key), Exited }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake { Woken, Timeout }

pub struct Thr {
    pub baton: Box<AtomicU32>,
    pub st: St,
    pub wake: Wake,
    pub seq: u64,
    pub stall_until: u64,
    pub since_block: u64,
    pub prio: u64,
    pub spins: u32,
    pub pthread: u64,
    /// its present pause was stretched because nothing happens; it would end at this time
    pub lazy: Option<u64>,
    /// allocations since it was last taken off the processor for not blocking, and how often that happened with some
    pub allocs: u64,
    pub work: u64,
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ev {
    ThrTimer(usize, u64),
    Nop,
    Deliver { conn: usize, dir: usize, bytes: Vec<u8>, fin: bool, rst: bool },
    Arrive { conn: usize },
    Actor(usize, u64),
    Timeline(usize),
    /// a client that kept its side of a finished connection open closes it at last
    Hangup(usize),
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Event { pub at: u64, pub seq: u64, pub ev: Ev }

#[derive(Default, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Counters {
    pub m: std::collections::BTreeMap<String, u64>,
}
impl Counters {
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 { return }
        if let Some(v) = self.m.get_mut(k) { *v += n } else { self.m.insert(k.to_string(), n); }
    }
    pub fn inc(&mut self, k: &str) { self.add(k, 1) }
    pub fn get(&self, k: &str) -> u64 { *self.m.get(k).unwrap_or(&0) }
    pub fn merge(&mut self, o: &Counters) { for (k, v) in &o.m { self.add(k, *v) } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exit { Running, Returned, Panicked, ExitCall(i32) }

pub struct K {
    pub sc: Scenario,
    pub now: u64,
    pub seq: u64,
    pub ev: BinaryHeap<Reverse<Event>>,
    pub thr: Vec<Thr>,
    pub live: Vec<usize>,
    pub cur: usize,
    pub sched: Tape,
    pub slice: Tape,
    pub nett: Tape,
    pub fault: Tape,
    pub rand: Rng,
    pub net: Net,
    pub actors: Vec<Actor>,
    pub hist: Vec<crate::client::Op>,
    /// (monotonic time from which it holds, wall minus monotonic), in order
    pub clock: Vec<(u64, i64)>,
    pub c: Counters,
    pub steps: u64,
    pub max_threads: usize,
    pub exit: Exit,
    pub exit_at: u64,
    pub stop_reason: &'static str,
    /// Wakes the (real) finisher thread.
    pub done: AtomicU32,
    pub panics: Vec<String>,
    pub stderr: Vec<u8>,
    pub heap_marks: Vec<(u64, i64)>,
    /// Total time of injected thread stalls, for liveness bounds.
    pub stall_total: u64,
    pub stall_end: u64,
    pub stalls: Vec<(u64, u64)>,
    pub alloc_mark: u64,
    pub done_at: Option<u64>,
    pub trace_hash: u64,
    /// last time something arrived from a client
    pub active_at: u64,
    pub naps: u32,
    pub clock_steps: u32,
}

pub const WALL0: i64 = 1_700_000_000 * SEC as i64;
const STEP_CAP: u64 = 6_000_000;

impl K {
    pub fn new(sc: Scenario) -> K {
        let s = sc.seed;
        let t = sc.tapes.as_ref();
        K {
            now: 0, seq: 0, ev: BinaryHeap::new(), thr: vec![], live: vec![], cur: 0,
            sched: Tape::new(s, 11, t.map(|t| &t.sched)),
            slice: Tape::new(s, 12, t.map(|t| &t.slice)),
            nett: Tape::new(s, 13, t.map(|t| &t.net)),
            fault: Tape::new(s, 14, t.map(|t| &t.fault)),
            rand: Rng::new(sc.rand_seed, 15),
            net: Net::default(),
            actors: vec![], hist: vec![], clock: vec![(0, WALL0)], c: Counters::default(), steps: 0, max_threads: 0,
            exit: Exit::Running, exit_at: 0, stop_reason: "", done: AtomicU32::new(0), panics: vec![], stderr: vec![], heap_marks: vec![],
            stall_total: 0, stall_end: 0, stalls: vec![], alloc_mark: 0, done_at: None, trace_hash: 0, active_at: 0, naps: 0, clock_steps: 0,
            sc,
        }
    }
    pub fn post(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        let e = Event { at: at.max(self.now), seq: self.seq, ev };
        self.ev.push(Reverse(e));
    }
    pub fn trace(&mut self, a: u64, b: u64) {
        self.trace_hash = (self.trace_hash.rotate_left(7) ^ a.wrapping_mul(0x9e3779b97f4a7c15) ^ b).wrapping_mul(0xbf58476d1ce4e5b9);
    }
    pub fn wall_offset(&self) -> i64 { self.clock.last().unwrap().1 }
    /// The wall clock is read; perhaps somebody sets it first.
    pub fn read_wall(&mut self) -> i64 {
        let p = self.sc.cfg.p_step;
        if p > 0.0 && self.clock_steps < self.sc.cfg.step_n && self.fault(p) {
            self.clock_steps += 1;
            let m = self.sc.cfg.step_max.max(2);
            let d = self.rand_step(m);
            let o = self.wall_offset() + d;
            self.now += 1;
            self.clock.push((self.now, o));
            self.c.inc(if d > 0 { "clock_jump_forward" } else { "clock_jump_backward" });
            self.c.inc("clock_set_while_read");
            self.now += 1;
        }
        self.wall()
    }
    fn rand_step(&mut self, m: u64) -> i64 {
        let x = crate::rng::Rng::new(self.sc.seed ^ 0xc10c, self.clock_steps as u64).next();
        let d = 1 + ((x >> 1) % m) as i64;
        if x & 1 == 1 { d } else { -d }
    }
    pub fn wall(&self) -> i64 { self.now as i64 + self.wall_offset() }

    fn faults_on(&self) -> bool { self.now < self.sc.cfg.fault_until }
    pub fn fault(&mut self, p: f64) -> bool { self.faults_on() && self.fault.chance(p) }

    pub fn wake_key(&mut self, key: Key) {
        for i in 0..self.live.len() {
            let t = self.live[i];
            if self.thr[t].st == St::Blocked(key) { self.thr[t].st = St::Run; self.thr[t].wake = Wake::Woken; }
        }
    }
    /// Wakes up to n futex waiters, the first ones or a random one.
    pub fn futex_wake(&mut self, addr: usize, n: usize) -> usize {
        let mut done = 0;
        while done < n {
            let w: Vec<usize> = self.live.iter().copied().filter(|t| self.thr[*t].st == St::Blocked(Key::Futex(addr))).collect();
            if w.is_empty() { break }
            let i = self.sched.below(w.len() as u64) as usize;
            let t = w[i];
            self.thr[t].st = St::Run;
            self.thr[t].wake = Wake::Woken;
            done += 1;
        }
        done
    }
    fn stall(&mut self, t: usize, dur: u64) {
        let (now, at) = (self.now, self.now + dur);
        self.thr[t].stall_until = self.thr[t].stall_until.max(at);
        self.stall_total += dur;
        self.stall_end = self.stall_end.max(at);
        self.stalls.push((now, at));
        self.post(at, Ev::Nop);
    }
    fn run_timeline(&mut self, i: usize) {
        let tl = self.sc.timeline[i].clone();
        match tl.kind {
            TlKind::Jump(d) => {
                let o = self.wall_offset() + d;
                // never before the epoch of the run minus a day: SystemTime arithmetic stays in range
                self.clock.push((self.now, o));
                self.c.inc(if d > 0 { "clock_jump_forward" } else { "clock_jump_backward" });
            }
            TlKind::Stall { pick, dur } => {
                if self.live.is_empty() || self.exit != Exit::Running { return }
                let t = self.live[pick as usize % self.live.len()];
                self.stall(t, dur);
                self.c.inc("thread_stall");
            }
            TlKind::AcceptErr { n, errno } => { for _ in 0..n { self.net.accept_err.push_back(errno); } }
            TlKind::HeapMark => { let now = self.now; self.heap_marks.push((now, unsafe { LIVE_HEAP })); }
        }
    }
    /// How long pauses of polling threads may be stretched now.
    pub fn lazy(&self) -> u64 {
        let idle = self.now.saturating_sub(self.active_at);
        if self.sc.cfg.lazy == 0 || idle < 50 * MS { 0 } else { (idle / 8).min(self.sc.cfg.lazy) }
    }
    /// Something arrived from a client: stretched pauses end.
    fn activity(&mut self) {
        self.active_at = self.now;
        for i in 0..self.live.len() {
            let t = self.live[i];
            if let Some(o) = self.thr[t].lazy.take() {
                if let St::Blocked(_) = self.thr[t].st { let seq = self.thr[t].seq; self.post(o, Ev::ThrTimer(t, seq)); }
            }
        }
    }
    fn run_event(&mut self, e: Event) {
        if matches!(e.ev, Ev::Deliver { dir: 0, .. } | Ev::Arrive { .. }) { self.activity() }
        match e.ev {
            Ev::ThrTimer(t, seq) => {
                if self.thr[t].seq == seq {
                    if let St::Blocked(_) = self.thr[t].st { self.thr[t].st = St::Run; self.thr[t].wake = Wake::Timeout; }
                }
            }
            Ev::Nop => {}
            Ev::Deliver { conn, dir, bytes, fin, rst } => crate::net::deliver(self, conn, dir, bytes, fin, rst),
            Ev::Arrive { conn } => crate::net::arrive(self, conn),
            Ev::Actor(a, tok) => crate::client::on_timer(self, a, tok),
            Ev::Timeline(i) => self.run_timeline(i),
            Ev::Hangup(conn) => crate::net::close_side(self, conn, 0, false),
        }
    }
    pub fn spawn_thr(&mut self) -> usize {
        let prio = if self.sc.cfg.policy == 1 { self.sched.draw(|r| r.below(1000)) } else { 0 };
        let id = self.thr.len();
        self.thr.push(Thr { baton: Box::new(AtomicU32::new(0)), st: St::Run, wake: Wake::Woken, seq: 0, stall_until: 0, since_block: 0, prio, spins: 0, pthread: 0, lazy: None, allocs: 0, work: 0 });
        self.live.push(id);
        self.max_threads = self.max_threads.max(self.live.len());
        id
    }
    /// Some client still has something to do.
    fn clients_done(&self) -> bool { self.actors.iter().all(|a| a.done) }

    /// Advances time and events until a thread can run, and picks it. None: the run is over.
    fn next_thread(&mut self) -> Option<usize> {
        loop {
            self.steps += 1;
            if self.steps > STEP_CAP { self.stop_reason = "step cap"; return None }
            while let Some(Reverse(e)) = self.ev.peek() {
                if e.at > self.now { break }
                let Reverse(e) = self.ev.pop().unwrap();
                self.run_event(e);
            }
            if self.clients_done() {
                let at = match self.done_at {
                    Some(t) => t,
                    None => {
                        let now = self.now;
                        self.done_at = Some(now);
                        self.heap_marks.push((now, unsafe { LIVE_HEAP }));
                        let s = now + self.sc.settle;
                        self.post(s, Ev::Nop);
                        now
                    }
                };
                if self.now >= at + self.sc.settle || self.exit != Exit::Running {
                    let now = self.now;
                    self.heap_marks.push((now, unsafe { LIVE_HEAP }));
                    self.stop_reason = "done";
                    return None;
                }
            }
            if self.now >= self.sc.cfg.horizon { self.stop_reason = "horizon"; return None }
            if self.exit == Exit::Running {
                let now = self.now;
                let n = self.live.len();
                let mut run: [usize; 64] = [0; 64];
                let mut cnt = 0;
                // rotation: the current thread first, then the ones created after it, then the rest
                let start = self.live.iter().position(|t| *t >= self.cur).unwrap_or(0);
                for j in 0..n {
                    let t = self.live[(start + j) % n];
                    if self.thr[t].st == St::Run && self.thr[t].stall_until <= now && cnt < 64 { run[cnt] = t; cnt += 1; }
                }
                if cnt > 0 {
                    let i = if cnt == 1 { 0 } else {
                        match self.sc.cfg.policy {
                            1 => {
                                let mut b = 0;
                                for j in 1..cnt { if self.thr[run[j]].prio > self.thr[run[b]].prio { b = j } }
                                b
                            }
                            2 => self.sched.draw(|r| if r.chance(0.8) { 0 } else { r.below(cnt as u64) }) as usize % cnt,
                            _ => self.sched.below(cnt as u64) as usize,
                        }
                    };
                    return Some(run[i]);
                }
            }
            match self.ev.peek() {
                Some(Reverse(e)) => { self.now = self.now.max(e.at); }
                None => {
                    // Nothing can ever happen again.
                    self.stop_reason = "quiescent";
                    return None
                }
            }
        }
    }
    pub fn first_slice(&mut self) { self.new_slice() }
    fn new_slice(&mut self) {
        self.alloc_mark = unsafe { ALLOCS };
        let (p, mean) = (self.sc.cfg.slice_p, self.sc.cfg.slice_mean);
        let v = if p > 0.0 { self.slice.draw(|r| if r.chance(p) { r.geo(mean) } else { 0 }) } else { 0 };
        let cap = self.sc.cfg.spin_cap as i64;
        let left = (cap - self.thr[self.cur].since_block as i64).max(1);
        let s = if v == 0 { left } else { (v as i64).min(left) };
        unsafe { SLICE = s; COUNTDOWN = s; }
    }
    fn charge(&mut self) {
        unsafe {
            let used = (SLICE - COUNTDOWN).max(0) as u64;
            SLICE = 0; COUNTDOWN = 0;
            self.now += used * self.sc.cfg.ns_block + 150;
            self.thr[self.cur].since_block += used;
        }
    }
}

pub fn wall_range(clock: &[(u64, i64)], a: u64, b: u64) -> (i64, i64) {
    let mut lo = i64::MAX;
    let mut hi = i64::MIN;
    for (i, (from, off)) in clock.iter().enumerate() {
        let to = clock.get(i + 1).map_or(u64::MAX, |x| x.0);
        let s = (*from).max(a);
        let e = to.min(b);
        if s > e { continue }
        lo = lo.min(s as i64 + off);
        hi = hi.max(e as i64 + off);
    }
    (lo, hi)
}

/// The current thread's state is already set; gives the baton to whoever runs next and returns when this thread is
/// chosen again.
pub fn schedule() {
    let kk = k();
    kk.charge();
    let me = kk.cur;
    kk.thr[me].allocs += unsafe { ALLOCS } - kk.alloc_mark;
    let me_exited = kk.thr[me].st == St::Exited;
    match kk.next_thread() {
        None => {
            kk.done.store(1, Ordering::Release);
            raw::futex_wake(&kk.done);
            park_forever();
        }
        Some(t) => {
            kk.trace(t as u64, kk.now);
            kk.cur = t;
            if t != me {
                kk.c.inc("switches");
                kk.thr[t].baton.store(1, Ordering::Release);
                let w: *const AtomicU32 = &*kk.thr[me].baton;
                let tw: *const AtomicU32 = &*kk.thr[t].baton;
                raw::futex_wake(unsafe { &*tw });
                if me_exited { return }
                wait_baton(unsafe { &*w });
            }
            let kk = k();
            kk.new_slice();
        }
    }
}

pub fn wait_baton(w: &AtomicU32) {
    loop {
        if w.load(Ordering::Acquire) == 1 { w.store(0, Ordering::Relaxed); return }
        raw::futex_wait(w, 0);
    }
}

pub fn park_forever() -> ! {
    let w = AtomicU32::new(0);
    loop { raw::futex_wait(&w, 0); }
}

/// Blocks the current thread on `key`, until woken or until `deadline` (simulated monotonic time).
pub fn block(key: Key, deadline: Option<u64>) -> Wake {
    let kk = k();
    let me = kk.cur;
    kk.charge();
    kk.thr[me].seq += 1;
    kk.thr[me].since_block = 0;
    if key != Key::Desched { kk.thr[me].spins = 0; kk.thr[me].work = 0; }
    kk.thr[me].st = St::Blocked(key);
    if let Some(d) = deadline {
        let seq = kk.thr[me].seq;
        kk.post(d, Ev::ThrTimer(me, seq));
    }
    schedule();
    k().thr[me].lazy = None;
    k().thr[me].wake
}

/// Blocks until `at`, or a while longer if nothing happens at all.
pub fn block_lazy(key: Key, at: u64, lazy: u64) {
    let kk = k();
    let until = at.max(kk.now + lazy);
    if until > at { kk.thr[kk.cur].lazy = Some(at); kk.c.inc("stretched_pauses"); }
    block(key, Some(until));
}

/// A point where the scheduler may switch although the thread can go on.
pub fn maybe_switch() {
    let kk = k();
    kk.thr[kk.cur].st = St::Run;
    schedule();
}

/// Called when the running thread used up its slice of basic blocks.
pub fn slice_expired() {
    let kk = k();
    let me = kk.cur;
    if kk.sc.arch == crate::scenario::Arch::Lib { crate::run::lib_hang() }
    kk.charge();
    if kk.thr[me].since_block >= kk.sc.cfg.spin_cap {
        // Long computation or busy waiting: the simulated OS takes the CPU away for a while.
        let d = kk.slice.draw(|r| match r.below(4) { 0 => r.range(1, 2000), 1 => r.range(1, 300), _ => 0 });
        desched(d);
    } else {
        kk.c.inc("preemptions");
        if kk.sc.cfg.policy == 1 {
            let p = kk.sched.draw(|r| r.below(1000));
            kk.thr[me].prio = p;
        }
        let (p, max) = (kk.sc.cfg.nap_p, kk.sc.cfg.nap_max);
        if p > 0.0 && kk.naps < kk.sc.cfg.nap_n {
            let d = kk.slice.draw(|r| if r.chance(p) { if r.chance(0.5) { r.range(1, max) } else { r.range(1, (max / 20).max(1)) } } else { 0 });
            if d > 0 {
                kk.naps += 1;
                kk.c.inc("thread_kept_off_the_cpu");
                kk.stall(me, d);
            }
        }
        kk.thr[me].st = St::Run;
        schedule();
    }
}

/// Basic blocks of work without blocking that are not slowed down.
const WORK_GRACE: u64 = 20_000_000;

/// The simulated OS takes the CPU away from a thread that does not block, for longer each time it goes on spinning.
fn desched(extra_us: u64) {
    let kk = k();
    let me = kk.cur;
    kk.thr[me].since_block = 0;
    kk.c.inc("timeslice_exhausted");
    kk.thr[me].spins += 1;
    // a thread that allocates memory is at work rather than polling: it keeps its share of the processor for longer
    let allocs = kk.thr[me].allocs + unsafe { ALLOCS } - kk.alloc_mark;
    kk.alloc_mark = unsafe { ALLOCS };
    kk.thr[me].allocs = 0;
    if allocs > 0 {
        kk.thr[me].work += 1;
        if kk.thr[me].work <= WORK_GRACE / kk.sc.cfg.spin_cap.max(1) { kk.thr[me].spins = 0; }
    }
    let grace = kk.sc.cfg.spin_grace / kk.sc.cfg.spin_cap.max(1);
    let over = (kk.thr[me].spins as u64).saturating_sub(grace).min(12);
    let base = if over == 0 { 20 * US } else { (100 * US << over).min(kk.sc.cfg.spin_max) };
    let at = kk.now + base + if over == 0 { extra_us * US / 20 } else { extra_us * US };
    let lazy = if over == 0 { 0 } else { kk.lazy() };
    // (slow work may run into the server's own time limits)
    if over > 0 && allocs > 0 { let now = kk.now; kk.stalls.push((now, at)); }
    block_lazy(Key::Desched, at, lazy);
}

/// sched_yield
pub fn yielded() {
    let kk = k();
    let me = kk.cur;
    kk.charge();
    kk.thr[me].since_block += kk.sc.cfg.spin_cap / 40 + 1;
    if kk.thr[me].since_block >= kk.sc.cfg.spin_cap { desched(0); return }
    if kk.sc.cfg.policy == 1 {
        let p = kk.sched.draw(|r| r.below(1000));
        kk.thr[me].prio = p;
    }
    maybe_switch();
}

/// Body of every simulated thread after it received the baton for the first time.
pub fn thread_exit() {
    let kk = k();
    let me = kk.cur;
    kk.thr[me].st = St::Exited;
    kk.live.retain(|t| *t != me);
    kk.wake_key(Key::Join(me));
    schedule();
}

/// The system's main function ended (or the process called exit): no thread of it runs any more.
pub fn system_exited(how: Exit) {
    let kk = k();
    if kk.exit != Exit::Running { return }
    kk.exit = how;
    kk.exit_at = kk.now;
    crate::net::process_gone(kk);
}
