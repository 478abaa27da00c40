//! A scenario is everything that defines one run: server, clients, faults, scheduler knobs, seed (and, in a replay
//! file, the choice tapes).
use crate::rng::TapeData;
use crate::stmt::Stmt;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq, Eq)]
pub enum Arch {
    /// `simple.rs` (SingleThreadedServer)
    Single,
    /// `multi.rs` as shipped (3 listeners, 3 analyzers)
    MultiMain,
    /// Coordinator with other pool sizes
    Multi(usize, usize),
    /// `async.rs` with this many tokio workers
    Async(usize),
    /// No server: the library driven directly under simulated time and randomness
    Lib,
}
impl Arch {
    pub fn is_multi(&self) -> bool { matches!(self, Arch::MultiMain | Arch::Multi(..)) }
    pub fn name(&self) -> &'static str {
        match self { Arch::Single => "single", Arch::MultiMain => "multi_main", Arch::Multi(..) => "multi", Arch::Async(_) => "async", Arch::Lib => "lib" }
    }
}

fn crcv() -> usize { 65536 }

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Cfg {
    pub policy: u8,
    pub slice_p: f64,
    pub slice_mean: u64,
    pub spin_cap: u64,
    /// longest time a spinning thread loses the CPU for
    pub spin_max: u64,
    /// basic blocks a thread may run without blocking before the pauses grow longer
    pub spin_grace: u64,
    pub ns_block: u64,
    pub lat_min: u64,
    pub lat_max: u64,
    pub sleep_slack: u64,
    /// resolution of sleeps (a coarse system timer); 0: exact
    pub tick: u64,
    /// while no client does anything, polling threads sleep up to this much longer (they resume when one does)
    #[serde(default)]
    pub lazy: u64,
    /// chance that a pre-empted thread gets the CPU back only after a while (at most this long), and how often that may happen
    #[serde(default)]
    pub nap_p: f64,
    #[serde(default)]
    pub nap_max: u64,
    #[serde(default)]
    pub nap_n: u32,
    pub sndbuf: usize,
    pub rcvbuf: usize,
    /// how much a client's kernel takes while the client does not read
    #[serde(default = "crcv")]
    pub crcv: usize,
    pub p_spurious: f64,
    pub p_accept_err: f64,
    /// chance that a thread cannot be started (after the start-up)
    #[serde(default)]
    pub p_thread_err: f64,
    /// chance that writing to standard output fails
    #[serde(default)]
    pub p_log_err: f64,
    pub p_read_err: f64,
    pub p_write_err: f64,
    pub p_short_write: f64,
    /// chance that the wall clock is set when it is read, how often at most, and by how much at most
    #[serde(default)]
    pub p_step: f64,
    #[serde(default)]
    pub step_n: u32,
    #[serde(default)]
    pub step_max: u64,
    pub fault_until: u64,
    pub horizon: u64,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum TlKind {
    Jump(i64),
    Stall { pick: u64, dur: u64 },
    AcceptErr { n: u32, errno: i32 },
    HeapMark,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Tl { pub at: u64, pub kind: TlKind }

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
pub enum User { Admin, Write, Read, Unknown(String), Rejected, Missing }

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Body {
    /// A query made of these statements.
    Query(Vec<Stmt>),
    /// A well-formed HTTP/JSON request carrying this query text; what it means is unknown to the model, which
    /// only knows that it names none of the tracked keys.
    Text(String),
    /// Arbitrary bytes instead of a request.
    Raw(Vec<u8>),
}

/// What the client does at byte `at` of its request (clamped to the request) or after it.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum End {
    /// Send everything, read the response until the server closes.
    Normal,
    /// Send everything, shut down the sending side, read the response.
    HalfClose,
    /// Send the first n bytes, then shut down the sending side and wait for whatever comes.
    FinAt(usize),
    /// Send the first n bytes, then close fully.
    CloseAt(usize),
    /// Send the first n bytes, then reset.
    ResetAt(usize),
    /// Send the first n bytes, then do nothing for ever (the connection stays open until the end of the run or this time).
    StallAt(usize, u64),
    /// Send everything and never read for this long, then reset.
    NeverRead(u64),
    /// Send everything and read at most n bytes every d ns.
    SlowRead(usize, u64),
    /// The same, without a claim to the whole response.
    Sip(usize, u64),
    /// Send everything, read the response to its end, and keep the connection open for d ns after that.
    Linger(u64),
    /// Send everything and close without reading (after d ns).
    CloseAfter(u64),
    ResetAfter(u64),
}
impl End {
    /// The client waits for and reads the response.
    pub fn reads(&self) -> bool { matches!(self, End::Normal | End::HalfClose | End::SlowRead(..) | End::Linger(_)) }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Req {
    pub user: User,
    pub body: Body,
    /// Seed of the rendering of statements and HTTP head.
    pub style: u64,
    /// Cut points (byte offsets) with the pause before the next segment.
    pub cuts: Vec<(usize, u64)>,
    pub end: End,
    pub patience: u64,
    /// Errors of read/write may be injected on this connection.
    pub faulty: bool,
    /// Marks requests that oracles treat specially ("probe": must be answered in time; others free text).
    pub tag: String,
    /// Bytes the client sends after the request, on the same connection.
    #[serde(default)]
    pub trail: Vec<u8>,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Step {
    Wait(u64),
    WaitUntil(u64),
    /// Waits until every client that has this barrier reached it.
    Barrier(u32),
    Req(Req),
    /// Notes how much memory the server holds.
    HeapMark,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Client { pub steps: Vec<Step> }

#[derive(Clone, Default, Serialize, Deserialize, Debug)]
pub struct Tapes { pub sched: TapeData, pub slice: TapeData, pub net: TapeData, pub fault: TapeData }

/// What the judge may conclude beyond the checks that every run gets.
#[derive(Clone, Default, Serialize, Deserialize, Debug)]
pub struct Oracle {
    /// Connections and threads must be back to their resting numbers when the run ends.
    pub leaks: bool,
    /// Heap marks (in order: before the data, with the data; the last is the end of the run): memory must be back.
    pub heap: bool,
    /// Memory at the end must be what it was at the last mark a client made, whatever was requested in between.
    #[serde(default)]
    pub churn: bool,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Scenario {
    pub prop: String,
    /// Which generator made it (oracles depend on it).
    pub kind: String,
    pub index: u64,
    pub seed: u64,
    pub rand_seed: u64,
    pub arch: Arch,
    pub cfg: Cfg,
    pub clients: Vec<Client>,
    pub timeline: Vec<Tl>,
    pub oracle: Oracle,
    /// After all clients are done, keep the server running for this long.
    pub settle: u64,
    /// Library-level histories (Arch::Lib).
    #[serde(default)]
    pub lib: Vec<crate::lib_run::LibOp>,
    pub tapes: Option<Tapes>,
}
