//! Scenario generators, one family per property. A scenario is a function of (property, seed).
use crate::kernel::{MS, SEC, US};
use crate::lib_run::LibOp;
use crate::rng::Rng;
use crate::scenario::*;
use crate::stmt::{Stmt, Ty, Val};


pub struct G { pub r: Rng, uniq: i64 }

fn cfg() -> Cfg {
    Cfg { policy: 0, slice_p: 0.0, slice_mean: 1000, spin_cap: 4000, spin_max: 10 * MS, spin_grace: 300_000, ns_block: 20, lat_min: 20 * US, lat_max: 200 * US, sleep_slack: 0, tick: 0, lazy: 0, nap_p: 0.0, nap_max: 0, nap_n: 0, sndbuf: 1 << 17, rcvbuf: 1 << 16, crcv: 1 << 16,
        p_spurious: 0.0, p_accept_err: 0.0, p_thread_err: 0.0, p_log_err: 0.0, p_read_err: 0.0, p_write_err: 0.0, p_short_write: 0.0, p_step: 0.0, step_n: 0, step_max: 0, fault_until: 0, horizon: 900 * SEC }
}

impl G {
    fn uniq(&mut self) -> i64 { self.uniq += 1; self.uniq }
    /// Scheduling and network knobs: which ones are on varies from run to run.
    fn knobs(&mut self, arch: Arch) -> Cfg {
        let r = &mut self.r;
        let mut c = cfg();
        c.policy = r.weighted(&[4, 3, 3]) as u8;
        c.slice_p = *r.pick(&[0.0, 0.1, 0.3, 0.6, 1.0]);
        c.slice_mean = *r.pick(&[20, 100, 500, 2000, 4000]);
        c.lat_min = *r.pick(&[10 * US, 50 * US, 300 * US]);
        c.lat_max = c.lat_min + *r.pick(&[0, 100 * US, MS, 5 * MS]);
        c.sleep_slack = *r.pick(&[0, 200 * US, 3 * MS]);
        c.p_spurious = *r.pick(&[0.0, 0.0, 0.01]);
        c.fault_until = 3600 * SEC;
        if r.chance(0.25) { c.nap_p = *r.pick(&[0.01, 0.05, 0.2]); c.nap_max = *r.pick(&[MS, 10 * MS, 60 * MS]); c.nap_n = 4; }
        if arch.is_multi() { c.tick = *r.pick(&[0, 0, MS, 4 * MS]); c.lazy = *r.pick(&[0, 100 * MS, SEC]); }
        c
    }
    fn arch(&mut self, w: [u32; 3]) -> Arch {
        match self.r.weighted(&w) {
            0 => Arch::Single,
            1 => match self.r.below(5) { 0 | 1 => Arch::MultiMain, 2 => Arch::Multi(1, 1), 3 => Arch::Multi(self.r.range(2, 4) as usize, self.r.range(1, 3) as usize), _ => Arch::Multi(self.r.range(1, 3) as usize, self.r.range(2, 4) as usize) },
            _ => Arch::Async(self.r.range(1, 4) as usize),
        }
    }

    // ---- values ----
    fn ty(&mut self) -> Ty { *self.r.pick(&[Ty::Bool, Ty::Str, Ty::Int, Ty::Float]) }
    fn string(&mut self, max: u64) -> String {
        let r = &mut self.r;
        let n = match r.below(8) { 0 => 0, 1..=4 => r.range(1, 12), 5 | 6 => r.range(1, 60), _ => r.range(1, max.max(2)) };
        let kind = r.below(5);
        (0..n).map(|_| match kind {
            0 => *r.pick(&['a', 'b', 'Z', 'Q', '0', ' ', '_']),
            1 => *r.pick(&['"', '\\', '\n', '\t', '\r', ';', ':', ',', '[', ']', '{', '}', '/', '\'', 'n', 't', ' ']),
            2 => *r.pick(&['é', 'Ä', 'ß', 'İ', 'Σ', 'ς', 'ж', '日', '本', '😀', '𝔘', '\u{301}', '\u{200f}', 'ﬁ', 'K', '\u{feff}']),
            3 => char::from_u32(r.range(0, 0x2ff) as u32).unwrap_or('?'),
            _ => { let x = r.below(0x110000) as u32; char::from_u32(x).unwrap_or('x') }
        }).collect()
    }
    fn int(&mut self) -> i64 {
        let r = &mut self.r;
        match r.below(8) {
            0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, u32::MAX as i64, i32::MIN as i64, 255, 256, 65535, 65536]),
            1 => r.next() as i64,
            2 => -(r.below(1000) as i64),
            _ => r.below(100_000) as i64,
        }
    }
    fn float(&mut self) -> Val {
        let r = &mut self.r;
        let f = match r.below(6) {
            0 => *r.pick(&[0.0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, 16777217.0, 0.1, 1e20, 3.4e38]),
            1 => { let f = f32::from_bits(r.next() as u32); if f.is_finite() { f } else { 2.5 } }
            _ => (r.below(2_000_001) as f32 - 1_000_000.0) / *r.pick(&[1.0f32, 8.0, 100.0, 1000.0]),
        };
        Val::f(f)
    }
    fn scalar(&mut self, t: Ty) -> Val {
        match t { Ty::Bool => Val::Bool(self.r.chance(0.5)), Ty::Str => Val::Str(self.string(300)), Ty::Int => Val::Int(self.int()), Ty::Float => self.float() }
    }
    fn vec(&mut self, t: Ty) -> Val {
        let n = match self.r.below(6) { 0 => 0, 1..=3 => self.r.range(1, 5), 4 => self.r.range(5, 20), _ => self.r.range(20, 200) };
        Val::Vec(t, (0..n).map(|_| self.scalar(t)).collect())
    }
    fn map(&mut self, k: Ty, t: Ty) -> Val {
        let n = match self.r.below(6) { 0 => 0, 1..=3 => self.r.range(1, 4), 4 => self.r.range(4, 15), _ => self.r.range(15, 100) };
        Val::Map(k, t, (0..n).map(|_| (self.scalar(k), self.scalar(t))).collect())
    }
    fn kt(&mut self) -> Ty { *self.r.pick(&[Ty::Int, Ty::Str]) }
    fn value(&mut self) -> Val {
        match self.r.below(10) {
            0 => Val::Null,
            1 | 2 => { let t = self.ty(); self.vec(t) }
            3 | 4 => { let (k, t) = (self.kt(), self.ty()); self.map(k, t) }
            _ => { let t = self.ty(); self.scalar(t) }
        }
    }
    fn small(&mut self) -> Val {
        match self.r.below(8) {
            0 => { let n = self.r.below(4); Val::Vec(Ty::Int, (0..n).map(|_| Val::Int(self.uniq())).collect()) }
            1 => { let n = self.r.below(3); Val::Map(Ty::Int, Ty::Int, (0..n).map(|i| (Val::Int(i as i64), Val::Int(self.uniq()))).collect()) }
            2 => Val::Str(format!("S{}", self.uniq())),
            3 if self.r.chance(0.2) => Val::Null,
            _ => Val::Int(self.uniq()),
        }
    }

    // ---- statements over few keys, each mostly of one type: i* ints, v* int vectors, m* int->int maps ----
    fn key(&mut self, keys: &[&str]) -> String { self.r.pick(keys).to_string() }
    fn stmt(&mut self, keys: &[&str], life: f64) -> Stmt {
        use Stmt::*;
        let k = self.key(keys);
        let l = if self.r.chance(life) { Some(*self.r.pick(&[0, 1, 1, 2, 2, 3, 5])) } else { None };
        let fam = if self.r.chance(0.06) { 'x' } else { k.chars().next().unwrap() };
        match fam {
            'v' => match self.r.below(10) {
                0 | 1 => VPush(k, Val::Int(self.uniq())),
                2 => VPop(k),
                3 => VLen(k),
                4 => { let i = self.r.below(4); VGet(k, i) }
                5 => { let i = self.r.below(4); VSet(k, i, Val::Int(self.uniq())) }
                6 | 7 => { let n = self.r.below(4); Set(k, Val::Vec(Ty::Int, (0..n).map(|_| Val::Int(self.uniq())).collect()), l) }
                8 => TrySet(k, Val::Vec(Ty::Int, vec![Val::Int(self.uniq())]), l),
                _ => self.plain(k, l),
            },
            'm' => {
                let mk = Val::Int(self.r.below(4) as i64);
                match self.r.below(10) {
                    0 | 1 => MSet(k, mk, Val::Int(self.uniq())),
                    2 => MDel(k, mk),
                    3 => MLen(k),
                    4 => MGet(k, mk),
                    5 => MEx(k, mk),
                    6 | 7 => { let n = self.r.below(3); Set(k, Val::Map(Ty::Int, Ty::Int, (0..n).map(|i| (Val::Int(i as i64), Val::Int(self.uniq()))).collect()), l) }
                    8 => TrySet(k, Val::Map(Ty::Int, Ty::Int, vec![]), l),
                    _ => self.plain(k, l),
                }
            }
            'x' => match self.r.below(6) {
                0 => VPush(k, Val::Str("x".into())),
                1 => MSet(k, Val::Str("x".into()), Val::Bool(true)),
                2 => VGet(k, 1 << 40),
                3 => { let v = self.small(); Set(k, v, l) }
                4 => MGet(k, Val::Int(77)),
                _ => VPop(k),
            },
            _ => self.plain(k, l),
        }
    }
    fn plain(&mut self, k: String, l: Option<u64>) -> Stmt {
        use Stmt::*;
        let fam = k.chars().next().unwrap();
        let v = match fam { 'v' => Val::Vec(Ty::Int, vec![Val::Int(self.uniq()), Val::Int(self.uniq())]), 'm' => Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(self.uniq()))]), _ => Val::Int(self.uniq()) };
        match self.r.below(12) { 0..=2 => Get(k), 3 => TryGet(k), 4 => Ex(k), 5 => Type(k), 6 => Del(k), 7 | 8 => Set(k, v, l), 9 => TrySet(k, v, l), 10 => Upd(k, v, l), _ => Get(k) }
    }
    fn read(&mut self, k: String) -> Stmt {
        use Stmt::*;
        match k.chars().next().unwrap() {
            'v' => match self.r.below(4) { 0 => VLen(k), 1 => VGet(k, 0), _ => TryGet(k) },
            'm' => match self.r.below(4) { 0 => MLen(k), 1 => MEx(k, Val::Int(1)), _ => TryGet(k) },
            _ => match self.r.below(4) { 0 => Ex(k), 1 => Get(k), 2 => Type(k), _ => TryGet(k) },
        }
    }
    /// A batch whose half-done state another client could notice.
    fn atomic(&mut self) -> Vec<Stmt> {
        use Stmt::*;
        let n = self.uniq();
        match self.r.below(9) {
            7 => (0..self.r.range(4, 16)).map(|_| Set("i1".into(), Val::Int(self.uniq()), None)).collect(),
            8 => {
                let mut b = vec![];
                for _ in 0..self.r.range(2, 7) { b.push(Del("i1".into())); if self.r.chance(0.5) { b.push(VPush("v1".into(), Val::Int(self.uniq()))) } b.push(Set("i1".into(), Val::Int(self.uniq()), None)); }
                b
            }
            0 => vec![VPush("v1".into(), Val::Int(n)), VPush("v1".into(), Val::Int(-n))],
            1 => vec![Del("i1".into()), Set("i1".into(), Val::Int(n), None)],
            2 => vec![Set("i1".into(), Val::Int(n), None), Set("i2".into(), Val::Int(n), None)],
            3 => vec![Set("v1".into(), Val::Vec(Ty::Int, vec![]), None), VPush("v1".into(), Val::Int(n)), VPush("v1".into(), Val::Int(n + 1)), VLen("v1".into())],
            4 => vec![MSet("m1".into(), Val::Int(1), Val::Int(n)), MSet("m1".into(), Val::Int(2), Val::Int(n))],
            5 => vec![VPop("v1".into()), VPop("v1".into())],
            _ => vec![Set("i1".into(), Val::Int(n), None), Del("i2".into()), TrySet("i2".into(), Val::Int(n), None)],
        }
    }
    fn batch(&mut self, keys: &[&str], max: u64, life: f64) -> Vec<Stmt> {
        let n = match self.r.below(6) { 0..=2 => 1, 3 | 4 => self.r.range(1, max.min(3)), _ => self.r.range(1, max) };
        (0..n).map(|_| self.stmt(keys, life)).collect()
    }

    // ---- requests ----
    fn req(&mut self, stmts: Vec<Stmt>) -> Req {
        let user = if self.r.chance(0.5) { User::Admin } else { User::Write };
        Req { user, body: Body::Query(stmts), style: self.r.next(), cuts: vec![], end: End::Normal, patience: 40 * SEC, faulty: false, tag: String::new(), trail: vec![] }
    }
    fn cuts(&mut self, q: &mut Req, pause_total: u64) {
        let n = crate::http::render(q).len();
        let mut cuts: Vec<usize> = match self.r.below(8) {
            // where the text looks complete, or where a character or a line end is split
            6 | 7 => {
                let b = crate::http::render(q);
                let c = *self.r.pick(&["}", "\"", "\r", "\n", ":", "\"}", "\\", "]", " ", "\u{7f}"]);
                let at: Vec<usize> = if c == "\u{7f}" { (1..n).filter(|i| b[*i] >= 0x80 && b[*i] < 0xc0).collect() } else { b.windows(c.len()).enumerate().filter(|(_, w)| *w == c.as_bytes()).map(|(i, _)| i + c.len()).collect() };
                let keep = if at.len() > 60 { 60.0 / at.len() as f64 } else if self.r.chance(0.5) { 1.0 } else { 0.4 };
                at.into_iter().filter(|_| self.r.chance(keep)).collect()
            }
            0 => { let s = self.r.range(1, 7) as usize; (1..n.min(400)).step_by(s).collect() }
            1 => { let k = self.r.range(1, 3); (0..k).map(|_| self.r.below(n as u64) as usize).collect() }
            2 => { let k = self.r.range(2, 12); (0..k).map(|_| self.r.below(n as u64) as usize).collect() }
            3 => { let s = *self.r.pick(&[1024usize, 1023, 1025, 512, 2048]); (1..).map(|i| i * s).take_while(|x| *x < n).take(300).collect() }
            4 => { let k = self.r.range(1, 4); let h = 300.min(n as u64); (0..k).map(|_| self.r.below(h) as usize).collect() }
            _ => vec![n - 1],
        };
        cuts.retain(|x| *x > 0 && *x < n);
        cuts.sort();
        cuts.dedup();
        let m = cuts.len().max(1) as u64;
        let per = match self.r.below(4) { 0 => 0, 1 => 2 * MS, 2 => 20 * MS, _ => pause_total }.min(pause_total / m);
        q.cuts = cuts.into_iter().map(|c| (c, if per == 0 { if self.r.chance(0.5) { 0 } else { 300 * US } } else { self.r.range(0, per) })).collect();
    }
    /// Reads of every key by one client, alone.
    fn read_all(&mut self, keys: &[&str]) -> Vec<Step> {
        keys.iter().map(|k| { let mut q = self.req(vec![Stmt::TryGet(k.to_string())]); q.tag = "probe".into(); Step::Req(q) }).collect()
    }
    fn probe(&mut self, key: &str) -> Step { let mut q = self.req(vec![Stmt::TryGet(key.to_string())]); q.tag = "probe".into(); Step::Req(q) }
    fn stalls(&mut self, n: u64, from: u64, to: u64, max: u64) -> Vec<Tl> {
        (0..n).map(|_| Tl { at: self.r.range(from, to), kind: TlKind::Stall { pick: self.r.next() >> 8, dur: match self.r.below(3) { 0 => self.r.range(MS, 50 * MS), 1 => self.r.range(50 * MS, max.min(900 * MS).max(51 * MS)), _ => self.r.range(MS, max) } } }).collect()
    }
    fn wait(&mut self, max: u64) -> Step { let d = match self.r.below(3) { 0 => 0, 1 => self.r.below(max / 20 + 1), _ => self.r.below(max + 1) }; Step::Wait(d) }

    fn unparsable(&mut self, keys: &[&str]) -> String {
        let k = self.key(keys);
        let n = self.uniq();
        match self.r.below(47) {
            44 | 45 | 46 => {
                // a good literal with one bad element somewhere
                let t = self.ty();
                let other = { let x = self.ty(); if x as u8 == t as u8 { if matches!(t, Ty::Int) { Ty::Bool } else { Ty::Int } } else { x } };
                let n = match self.r.below(4) { 0 => self.r.range(1, 4), 1 => self.r.range(1, 12), 2 => self.r.range(1, 40), _ => self.r.range(1, 130) };
                let at = self.r.below(n);
                let mut r = Rng::new(self.r.next(), 5);
                let mut el = |g: &mut G, t: Ty| { let v = match t { Ty::Str => Val::Str(g.string(12)), t => g.scalar(t) }; crate::stmt::scalar_text(&v, &mut r) };
                let name = |t: Ty| match t { Ty::Bool => "bool", Ty::Str => "str", Ty::Int => "int", Ty::Float => "float" };
                let verb = *self.r.pick(&["set", "set", "upd", "try_set"]);
                let mut o;
                if self.r.chance(0.5) {
                    o = format!("{} {} {} [", verb, k, name(t));
                    for i in 0..n { if i > 0 { o.push(',') } let x = el(self, if i == at { other } else { t }); o.push_str(&x); }
                    o.push(']');
                } else {
                    let kt = self.kt();
                    let bad_key = self.r.chance(0.4);
                    o = format!("{} {} {} {} {{", verb, k, name(kt), name(t));
                    for i in 0..n {
                        if i > 0 { o.push(',') }
                        let kk = if i == at && bad_key { if matches!(kt, Ty::Int) { Ty::Str } else { Ty::Int } } else { kt };
                        let x = el(self, kk);
                        let y = el(self, if i == at && !bad_key { other } else { t });
                        o.push_str(&format!("{}:{}", x, y));
                    }
                    o.push('}');
                }
                o
            }
            40 => format!("größer {}", k),
            41 => format!("get {} \"日本😀\"", k),
            42 => format!("set {} \"é unterminated 𝔘", k),
            43 => format!("{}é = 5", k),
            24 => format!("set {} {}{}{}", k, ["", "-"][self.r.below(2) as usize], "9".repeat(self.r.range(39, 60) as usize), [".0", ".5", "."][self.r.below(3) as usize]),
            25 => format!("set {} float [1.5, 4{}.0]", k, "0".repeat(39)),
            26 => format!("vpush {} -1.5e{}", k, self.r.range(39, 400)),
            27 => format!("set {} 1.2.3", k),
            28 => format!("set {} -", k),
            29 => format!("set {} int {{1:2}}", k),
            30 => format!("set {} int int [1]", k),
            31 => format!("set {} str str {{\"a\" \"b\"}}", k),
            32 => format!("set {} int int {{1:2,}}", k),
            33 => format!("set {} [1, 2]", k),
            34 => format!("set {} \"a\"\"b\"", k),
            35 => format!("upd {} {} 5 6", k, n),
            36 => format!("set {} {} 1.5", k, n),
            37 => format!("set {} str int {{\"a\":1, 2:3}}", k),
            38 => format!("vget {} \"0\"", k),
            39 => format!("shutdown now"),
            0 => format!("set {} \"unterminated", k),
            1 => "bogus".into(),
            2 => format!("{} = {}", k, n),
            3 => format!("set {} int [1, 2", k),
            4 => format!("set {} int [1 2]", k),
            5 => format!("set {} {}x", k, n),
            6 => format!("set {} \"a\\q\"", k),
            7 => format!("get {} extra", k),
            8 => "get".into(),
            9 => "set".into(),
            10 => format!("set {} {} -5", k, n),
            11 => format!("set {} 99999999999999999999", k),
            12 => format!("set {} int int {{1:2", k),
            13 => format!("set {} int int {{1 2}}", k),
            14 => format!("vset {} -1 5", k),
            15 => format!("mset {} 1", k),
            16 => format!("vpush {}", k),
            17 => format!("set {} int [true]", k),
            18 => format!("set {} bool int {{}}", k),
            19 => format!("del {} #", k),
            20 => format!("set {} int [1,]", k),
            21 => format!("set {} int int {{", k),
            22 => format!("set {} int [", k),
            _ => format!("get {}", n),
        }
    }
}

fn base(prop: &str, index: u64, seed: u64, arch: Arch, cfg: Cfg, kind: &str) -> Scenario {
    Scenario { prop: prop.into(), kind: kind.into(), index, seed, rand_seed: seed ^ 0x5eed, arch, cfg, clients: vec![], timeline: vec![], oracle: Oracle::default(), settle: 20 * MS, lib: vec![], tapes: None }
}

const K5: [&str; 5] = ["i1", "i2", "v1", "m1", "v2"];

/// A query cannot express null with a lifetime: `set k 5` means the integer 5.
fn no_null_lifetimes(s: &mut Scenario) {
    use Stmt::*;
    for c in &mut s.clients {
        for st in &mut c.steps {
            if let Step::Req(Req { body: Body::Query(q), .. }) = st {
                for x in q { if let Set(_, Val::Null, l) | TrySet(_, Val::Null, l) | Upd(_, Val::Null, l) = x { *l = None } }
            }
        }
    }
}

pub fn gen(prop: &str, index: u64, seed: u64) -> Scenario {
    let mut s = gen0(prop, index, seed);
    let mut g = G { r: Rng::new(seed, 2), uniq: 500_000 };
    if s.arch != Arch::Lib && matches!(prop, "C01" | "C03" | "C04" | "C05" | "C07" | "C10" | "C13" | "C16" | "C17") && s.kind != "marathon" && g.r.chance(0.12) { noise(&mut g, &mut s); }
    if s.arch != Arch::Lib && matches!(prop, "C01" | "C03" | "C04" | "C05" | "C07" | "C10" | "C12" | "C13" | "C16") && s.kind != "marathon" && !s.kind.starts_with("long") && g.r.chance(0.2) { slices(&mut g, &mut s.cfg); if g.r.chance(0.5) { s.cfg.ns_block = 60; s.cfg.lat_max = s.cfg.lat_min; } }
    // queries with nothing in them but separators, if anything
    if s.arch != Arch::Lib && matches!(prop, "C01" | "C03" | "C08" | "C10" | "C13" | "C14" | "C15" | "C16") && g.r.chance(0.03) {
        let n = s.clients.len() as u64;
        let c = g.r.below(n) as usize;
        if let Some(at) = s.clients[c].steps.iter().rposition(|x| matches!(x, Step::Req(_))) {
            let mut q = g.req(vec![]);
            q.patience = 150 * SEC;
            s.clients[c].steps.insert(at, Step::Req(q));
        }
    }
    no_null_lifetimes(&mut s);
    s
}
fn gen0(prop: &str, index: u64, seed: u64) -> Scenario {
    let mut g = G { r: Rng::new(seed, 1), uniq: (seed % 50) as i64 * 1000 };
    let long = match prop { "C13" | "C15" => 0.02, "C07" | "C09" | "C16" => 0.01, "C01" | "C10" => 0.003, _ => 0.0 };
    if g.r.chance(long) { return marathon(&mut g, prop, index, seed) }
    match prop {
        "C01" => c01(&mut g, index, seed),
        "C02" => c02(&mut g, index, seed),
        "C03" => c03(&mut g, index, seed),
        "C04" => c04(&mut g, index, seed),
        "C05" => if g.r.chance(0.72) { lib(&mut g, "C05", index, seed) } else { c05_server(&mut g, index, seed) },
        "C06" => if g.r.chance(0.75) { lib(&mut g, "C06", index, seed) } else { c06_server(&mut g, index, seed) },
        "C07" => c07(&mut g, index, seed),
        "C08" => c08(&mut g, index, seed),
        "C09" => c09(&mut g, index, seed),
        "C10" => c10(&mut g, index, seed),
        "C11" => c11(&mut g, index, seed),
        "C12" => lib(&mut g, "C12", index, seed),
        "C13" => c13(&mut g, index, seed),
        "C14" => c14(&mut g, index, seed),
        "C15" => c15(&mut g, index, seed),
        "C16" => c16(&mut g, index, seed),
        "C19" => c19(&mut g, index, seed),
        "C17" => if g.r.chance(0.5) { lib(&mut g, "C17", index, seed) } else { c17(&mut g, index, seed) },
        _ => panic!("unknown property {}", prop),
    }
}

/// Makes requests overlap: a slow processor, a quick network.
fn bunch(g: &mut G, c: &mut Cfg) {
    if g.r.chance(0.5) {
        c.ns_block = *g.r.pick(&[60, 150, 400]);
        c.lat_min = *g.r.pick(&[2 * US, 10 * US]);
        c.lat_max = c.lat_min + *g.r.pick(&[0, 0, 20 * US, 200 * US]);
    }
    if g.r.chance(0.5) { slices(g, c); }
}
/// Time slices about as long as the work on one request, and no preference for anyone.
fn slices(g: &mut G, c: &mut Cfg) {
    c.policy = 0;
    c.slice_p = 1.0;
    c.slice_mean = *g.r.pick(&[1000, 3000, 6000]);
}
/// One more client that does something of everything, with keys of its own.
fn noise(g: &mut G, s: &mut Scenario) {
    s.kind.push_str("+noise");
    let keys = ["inoise", "vnoise", "mnoise"];
    let mut steps = vec![];
    for _ in 0..g.r.range(3, 7) {
        let mut q = anything(g, &keys);
        q.patience = 90 * SEC;
        steps.push(Step::Req(q));
        if g.r.chance(0.6) { let w = g.wait(60 * MS); steps.push(w); }
    }
    for k in keys { let p = g.probe(k); steps.push(p); }
    for st in steps.iter_mut() { if let Step::Req(q) = st { q.patience = 90 * SEC } }
    s.clients.push(Client { steps });
}
fn anything(g: &mut G, keys: &[&str]) -> Req {
    let mut q = g.req(vec![]);
    match g.r.below(12) {
        0 => { q.body = Body::Text(hostile_text(g)); }
        1 => { q.body = Body::Raw(raw_bad(g)); q.end = End::HalfClose; }
        2 => { let t = g.unparsable(keys); q.body = Body::Query(vec![Stmt::Bad(t)]); }
        3 => { let b = g.batch(keys, 2, 0.0); q.body = Body::Query(b); q.user = [User::Missing, User::Rejected, User::Unknown("q".into()), User::Read][g.r.below(4) as usize].clone(); }
        4 => {
            let b = g.batch(keys, 2, 0.0);
            q.body = Body::Query(b);
            let at = g.r.below(crate::http::render(&q).len() as u64) as usize;
            q.end = match g.r.below(5) { 0 => End::FinAt(at.max(1)), 1 => End::CloseAt(at), 2 => End::ResetAt(at), 3 => End::CloseAfter(g.r.below(5 * MS)), _ => End::ResetAfter(g.r.below(5 * MS)) };
        }
        5 | 6 => { let k = g.key(keys); let b = rich(g, &k); q.body = Body::Query(b); }
        7 => { let f = failing_on(g, keys[0], keys[1], keys[2]); q.body = Body::Query(vec![f]); }
        8 => { let k = g.key(keys); let rd = g.read(k); q.body = Body::Query(vec![rd]); q.user = User::Read; }
        _ => { let b = g.batch(keys, 3, 0.1); q.body = Body::Query(b); }
    }
    if g.r.chance(0.1) { g.cuts(&mut q, 10 * MS); }
    if q.end == End::Normal && g.r.chance(0.1) { q.end = End::Linger(g.r.range(MS, 30 * SEC)); }
    q
}
/// Several hundred short requests of one kind or of all kinds: whatever is used up a little by each of them runs out.
fn marathon(g: &mut G, prop: &str, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([2, 3, 3]);
    let mut c = g.knobs(arch);
    c.slice_p = c.slice_p.min(0.1);
    c.nap_p = 0.0;
    c.spin_grace = 3_000_000;
    if prop == "C16" { c.p_accept_err = 0.1; c.p_read_err = 0.2; c.p_write_err = 0.2; }
    let mut s = base(prop, index, seed, arch, c, "marathon");
    let n = g.r.range(1, 4);
    let per = g.r.range(280, 420) / n;
    let keys = ["i1", "v1", "m1"];
    // mostly one kind of request, so that its effects add up
    let kind = g.r.below(10);
    for ci in 0..n {
        let own = [format!("i{}", ci), format!("v{}", ci), format!("m{}", ci)];
        let own: Vec<&str> = own.iter().map(|x| x.as_str()).collect();
        let mut steps = vec![];
        for _ in 0..per {
            let mut q = g.req(vec![]);
            let kind = if g.r.chance(0.25) { 20 } else { kind };
            match kind {
                0 => { let t = g.unparsable(&keys); q.body = Body::Query(vec![Stmt::Bad(t)]); }
                1 => { let f = failing(g); q.body = Body::Query(vec![f]); }
                2 => { let b = g.batch(&keys, 2, 0.0); q.body = Body::Query(b); q.user = [User::Missing, User::Rejected, User::Unknown("q".into()), User::Read][g.r.below(4) as usize].clone(); }
                3 => { q.body = Body::Raw(raw_bad(g)); q.end = End::HalfClose; }
                4 => { q.body = Body::Query(vec![Stmt::Get("i1".into())]); let at = g.r.below(crate::http::render(&q).len() as u64) as usize; q.end = match g.r.below(3) { 0 => End::CloseAt(at), 1 => End::ResetAt(at), _ => End::FinAt(at.max(1)) }; }
                5 => { q.body = Body::Query(vec![Stmt::Get("i1".into())]); q.end = if g.r.chance(0.5) { End::CloseAfter(g.r.below(2 * MS)) } else { End::ResetAfter(g.r.below(2 * MS)) }; }
                6 => { q.body = Body::Text(hostile_text(g)); }
                7 => { q.body = Body::Raw(b"x".to_vec()); q.end = End::CloseAt(0); }
                8 => { let b = g.batch(&own, 2, 0.0); q.body = Body::Query(b); }
                9 => q = anything(g, &own),
                _ => { let rd = g.read(g.r.clone().pick(&keys).to_string()); q.body = Body::Query(vec![rd]); }
            }
            if prop == "C16" { q.faulty = g.r.chance(0.5) }
            // (unanswered writes stay open in the search for an order for ever)
            if !q.end.reads() || q.faulty { if let Body::Query(b) = &q.body { if b.iter().any(|x| x.is_write()) && g.r.chance(0.97) { let k = g.key(&keys); let rd = g.read(k); q.body = Body::Query(vec![rd]); } } }
            q.patience = 150 * SEC;
            steps.push(Step::Req(q));
        }
        steps.push(Step::Barrier(1));
        for k in keys { let p = g.probe(k); steps.push(p); }
        s.clients.push(Client { steps });
    }
    s.oracle.leaks = prop == "C15";
    if s.oracle.leaks { s.settle = 16 * SEC; }
    s
}

/// A few clients change the same thing batch after batch while others do nothing but look at it.
fn c01_readers(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([1, 8, 4]);
    let mut c = g.knobs(arch);
    c.nap_p = 0.0;
    if g.r.chance(0.7) { slices(g, &mut c); }
    c.ns_block = *g.r.pick(&[20, 60, 150, 400]);
    c.lat_min = *g.r.pick(&[2 * US, 10 * US, 50 * US]);
    c.lat_max = c.lat_min + *g.r.pick(&[0, 0, 20 * US, 200 * US]);
    let mut s = base("C01", index, seed, arch, c, "writers and readers");
    let (w, r) = *g.r.pick(&[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)]);
    let shape = g.r.below(6);
    let rounds = g.r.range(4, 12);
    let step = g.r.chance(0.7);
    for ci in 0..w + r {
        let mut steps = vec![];
        if ci == 0 { steps.push(Step::Req(g.req(vec![Stmt::Set("v1".into(), Val::Vec(Ty::Int, vec![]), None), Stmt::Set("m1".into(), Val::Map(Ty::Int, Ty::Int, vec![]), None), Stmt::Set("i1".into(), Val::Int(0), None), Stmt::Set("i2".into(), Val::Int(0), None)]))); }
        steps.push(Step::Barrier(1));
        for j in 0..rounds {
            if step { steps.push(Step::Barrier(10 + j as u32)); }
            let n = g.uniq();
            let m = g.r.range(2, 16);
            let b = if ci < w {
                match shape {
                    0 => (0..m).map(|x| Stmt::Set("i1".into(), Val::Int(n * 100 + x as i64), None)).collect(),
                    1 => (0..g.r.range(1, m / 2)).flat_map(|x| [Stmt::Set("i1".into(), Val::Int(n * 100 + x as i64), None), Stmt::Set("i2".into(), Val::Int(n * 100 + x as i64), None)]).collect(),
                    2 => vec![Stmt::VPush("v1".into(), Val::Int(n)), Stmt::VPush("v1".into(), Val::Int(-n)), Stmt::VPop("v1".into()), Stmt::VPop("v1".into())],
                    3 => (0..g.r.range(1, m / 2)).flat_map(|x| [Stmt::Del("i1".into()), Stmt::Set("i1".into(), Val::Int(n * 100 + x as i64), None)]).collect(),
                    4 => (0..m.min(6)).flat_map(|x| [Stmt::MSet("m1".into(), Val::Int(x as i64), Val::Int(n)), Stmt::MDel("m1".into(), Val::Int(x as i64))]).collect(),
                    _ => g.atomic(),
                }
            } else {
                match shape {
                    0 => vec![Stmt::Get("i1".into())],
                    1 => vec![Stmt::Get("i1".into()), Stmt::Get("i2".into())],
                    2 => vec![if g.r.chance(0.5) { Stmt::VLen("v1".into()) } else { Stmt::Get("v1".into()) }],
                    3 => vec![Stmt::Get("i1".into())],
                    4 => vec![if g.r.chance(0.5) { Stmt::MLen("m1".into()) } else { Stmt::Get("m1".into()) }],
                    _ => { let k = g.key(&["i1", "i2", "v1", "m1"]); vec![g.read(k)] }
                }
            };
            let mut q = g.req(b);
            if ci >= w && g.r.chance(0.3) { q.user = User::Read; }
            steps.push(Step::Req(q));
        }
        if ci == 0 { steps.push(Step::Barrier(2)); steps.extend(g.read_all(&K5)); } else { steps.push(Step::Barrier(2)); }
        s.clients.push(Client { steps });
    }
    s
}
fn c01(g: &mut G, index: u64, seed: u64) -> Scenario {
    if g.r.chance(0.3) { return c01_readers(g, index, seed) }
    let arch = g.arch([1, 7, 4]);
    let c = g.knobs(arch);
    let mut s = base("C01", index, seed, arch, c, "concurrent");
    let n = g.r.range(2, 4);
    let setup = vec![
        Step::Req(g.req(vec![Stmt::Set("v1".into(), Val::Vec(Ty::Int, vec![]), None), Stmt::Set("m1".into(), Val::Map(Ty::Int, Ty::Int, vec![]), None), Stmt::Set("i1".into(), Val::Int(0), None), Stmt::Set("i2".into(), Val::Int(0), None)])),
    ];
    let nk = g.r.range(1, 5) as usize;
    let keys = &K5[..nk];
    // one client writes, the others look at what it writes
    let watch = g.r.chance(0.25);
    let life = if g.r.chance(0.1) { 0.3 } else { 0.0 };
    bunch(g, &mut s.cfg);
    let together = g.r.chance(0.5);
    for ci in 0..n {
        let mut steps = vec![];
        if ci == 0 { steps.extend(setup.clone()); }
        steps.push(Step::Barrier(1));
        let m = g.r.range(2, if watch { 8 } else if n == 2 { 6 } else { 4 });
        for j in 0..m {
            if together && g.r.chance(0.8) { steps.push(Step::Barrier(10 + j as u32)); }
            let b = if watch && ci > 0 && g.r.chance(0.8) { let k = g.key(&["i1", "i1", "v1"]); vec![g.read(k)] } else { match g.r.below(5) { 0 | 1 => g.atomic(), 2 => { let k = g.key(&["v1", "i1", "i2", "m1"]); let mut b = vec![g.read(k)]; if g.r.chance(0.4) { let k2 = g.key(&["i1", "i2", "v1"]); b.insert(0, Stmt::Get(k2)); } b } 3 if g.r.chance(0.15) => g.batch(keys, 16, life), _ => g.batch(keys, 4, life) } };
            let mut q = g.req(b);
            if g.r.chance(0.12) { q.end = End::CloseAfter(g.r.below(3 * MS)); }
            if g.r.chance(0.15) { g.cuts(&mut q, 20 * MS); }
            steps.push(Step::Req(q));
            if !together && g.r.chance(0.4) { let w = g.wait(5 * MS); steps.push(w); }
        }
        steps.push(Step::Barrier(2));
        if ci == 0 { steps.extend(g.read_all(&K5)); }
        s.clients.push(Client { steps });
    }
    if g.r.chance(0.35) { let k = g.r.range(1, 3); s.timeline = g.stalls(k, MS, 60 * MS, 2500 * MS); s.kind = "concurrent+stalls".into(); }
    s
}

fn c02(g: &mut G, index: u64, seed: u64) -> Scenario {
    if g.r.chance(0.4) { return lib(g, "C02", index, seed) }
    let arch = g.arch([3, 3, 3]);
    let mut c = g.knobs(arch);
    c.spin_grace = 3_000_000;
    c.slice_p = c.slice_p.min(0.1);
    c.ns_block = 5; c.spin_cap = 20_000; c.spin_max = 4 * MS;
    let mut s = base("C02", index, seed, arch, c, "values");
    let n = g.r.range(1, 2);
    for ci in 0..n {
        let own: Vec<String> = if g.r.chance(0.3) { names(g, ci) } else { (0..3).map(|i| if g.r.chance(0.2) { format!("é{}_{}", ci, i) } else { format!("{}{}_{}", ["key", "a", "_x", "zz9"][g.r.below(4) as usize], ci, i) }).collect() };
        let mut steps = vec![];
        for _ in 0..g.r.range(3, 8) {
            let k = g.r.pick(&own).clone();
            let st = rich(g, &k);
            steps.push(Step::Req(g.req(st)));
            if g.r.chance(0.1) { let t = g.unparsable(&[&k]); steps.push(Step::Req(g.req(vec![Stmt::Bad(t)]))); }
            let k2 = if g.r.chance(0.8) { k } else { g.r.pick(&own).clone() };
            let q = match g.r.below(5) { 0 => Stmt::TryGet(k2), 1 => Stmt::Type(k2), _ => Stmt::Get(k2) };
            steps.push(Step::Req(g.req(vec![q])));
        }
        for k in &own { steps.push(Step::Req(g.req(vec![Stmt::TryGet(k.clone())]))); }
        s.clients.push(Client { steps });
    }
    s
}
/// Names that a careless server might take for each other, or for something else.
fn names(g: &mut G, ci: u64) -> Vec<String> {
    let c = ["a", "b"][ci as usize % 2];
    match g.r.below(5) {
        0 | 1 => {
            // a long common part
            let n = *g.r.pick(&[15u64, 16, 31, 32, 47, 63, 64, 127, 128, 254, 255, 256, 300, 1000, 1023, 1024, 3000]);
            let n = (n as i64 + g.r.range(0, 4) as i64 - 2) as usize;
            let p = format!("{}{}", c, ["k", "é", "x_", "0"][g.r.below(4) as usize].repeat(n));
            vec![format!("{}1", p), format!("{}2", p), p]
        }
        2 => vec![format!("{}_1", c), format!("{}1", c), format!("{}__1", c), format!("{}1_", c)],
        3 => ["ß", "ss", "ﬁ", "fi", "ς", "σ", "é", "e", "ж", "日本"].iter().map(|x| format!("{}{}", c, x)).collect::<Vec<_>>().chunks(4).nth(g.r.below(3) as usize).unwrap().to_vec(),
        _ => (0..4).map(|_| format!("{}{}{}", *g.r.pick(&["set", "get", "null", "true", "false", "int", "str", "shutdown", "e5", "del", "none", "ex", "float", "upd"]), *g.r.pick(&["_", "x", "1", "s"]), c)).collect(),
    }
}
/// Writes of all kinds with rich values on one key.
fn rich(g: &mut G, k: &str) -> Vec<Stmt> {
    use Stmt::*;
    let k = k.to_string();
    match g.r.below(9) {
        0..=3 => { let v = g.value(); vec![Set(k, v, None)] }
        4 => { let v = g.value(); let w = g.value(); vec![Set(k.clone(), v, None), Upd(k, w, None)] }
        5 => { let v = g.value(); let w = g.value(); vec![Del(k.clone()), TrySet(k.clone(), v, None), TrySet(k, w, None)] }
        6 | 7 => {
            let t = g.ty();
            let v = g.vec(t);
            let n = if let Val::Vec(_, e) = &v { e.len() as u64 } else { 0 };
            let mut o = vec![Set(k.clone(), v, None)];
            for _ in 0..g.r.range(1, 4) {
                let x = g.scalar(t);
                o.push(match g.r.below(4) { 0 | 1 => VPush(k.clone(), x), 2 if n > 0 => { let i = g.r.below(n); VSet(k.clone(), i, x) } 2 => VLen(k.clone()), _ => VPop(k.clone()) });
            }
            if g.r.chance(0.4) { o.push(match g.r.below(2) { 0 => VLen(k), _ => { let i = g.r.below(n + 1); VGet(k, i) } }) }
            o
        }
        _ => {
            let (kt, t) = (g.kt(), g.ty());
            let v = g.map(kt, t);
            let ks: Vec<Val> = if let Val::Map(_, _, e) = &v { e.iter().map(|x| x.0.clone()).collect() } else { vec![] };
            let mut o = vec![Set(k.clone(), v, None)];
            let mut used = ks.clone();
            for _ in 0..g.r.range(1, 4) {
                let mk = if !used.is_empty() && g.r.chance(0.5) { g.r.pick(&used).clone() } else { let x = g.scalar(kt); used.push(x.clone()); x };
                let x = g.scalar(t);
                o.push(match g.r.below(4) { 0 | 1 => MSet(k.clone(), mk, x), 2 => MDel(k.clone(), mk), _ => MEx(k.clone(), mk) });
            }
            if g.r.chance(0.4) && !used.is_empty() { let mk = g.r.pick(&used).clone(); o.push(match g.r.below(3) { 0 => MLen(k), 1 => MEx(k, mk), _ => MGet(k, mk) }) }
            o
        }
    }
}

/// Statement bound to fail on the keys set up by `c03`.
fn failing(g: &mut G) -> Stmt { failing_on(g, "i1", "v1", "m1") }
fn failing_on(g: &mut G, i: &str, v: &str, m: &str) -> Stmt {
    use Stmt::*;
    let n = g.uniq();
    let (i1, v1, m1) = (|| i.to_string(), || v.to_string(), || m.to_string());
    match g.r.below(16) {
        0 => Get("nokey".into()), 1 => Upd("nokey".into(), Val::Int(n), None), 2 => VPush(v1(), Val::Str("no".into())), 3 => VSet(v1(), 1000, Val::Int(n)),
        4 => MSet(m1(), Val::Str("k".into()), Val::Int(n)), 5 => MSet(m1(), Val::Int(1), Val::Bool(true)), 6 => VPop(i1()), 7 => MDel(i1(), Val::Int(1)),
        8 => VGet(v1(), 5000), 9 => MGet(m1(), Val::Int(12345)), 10 => VLen(m1()), 11 => MLen(v1()), 12 => VPush(i1(), Val::Int(n)),
        13 => MDel(m1(), Val::Str("x".into())), 14 => VSet(v1(), 0, Val::f(1.5)), _ => Type("nokey".into()),
    }
}
fn c03(g: &mut G, index: u64, seed: u64) -> Scenario {
    if g.r.chance(0.35) { return lib(g, "C03", index, seed) }
    let arch = g.arch([2, 4, 3]);
    let mut c = g.knobs(arch);
    // (long batches are computation: a thread's pauses for spinning must not hit it)
    let long = g.r.chance(0.25);
    if long { c.spin_grace = 1_000_000_000; c.slice_p = c.slice_p.min(0.05); c.ns_block = 2; }
    let mut s = base("C03", index, seed, arch, c, if long { "long batches" } else { "batches" });
    let n = g.r.range(1, 3);
    let mut len = 2u64;
    for ci in 0..n {
        let mut steps = vec![];
        if ci == 0 {
            let d = g.uniq();
            let nv = if g.r.chance(0.2) { g.r.range(3, 80) } else { 2 };
            let nm = if g.r.chance(0.2) { g.r.range(2, 140) } else { 1 };
            let v: Vec<Val> = (0..nv).map(|_| Val::Int(g.uniq())).collect();
            let m: Vec<(Val, Val)> = (0..nm).map(|i| (Val::Int(1 + i as i64), Val::Int(g.uniq()))).collect();
            if nv > 2 { len = nv }
            steps.push(Step::Req(g.req(vec![Stmt::Set("v1".into(), Val::Vec(Ty::Int, v), None), Stmt::Set("m1".into(), Val::Map(Ty::Int, Ty::Int, m), None), Stmt::Set("i1".into(), Val::Int(d), None)])));
        }
        steps.push(Step::Barrier(1));
        for _ in 0..g.r.range(2, 5) {
            let top = match g.r.below(40) { 0..=3 if long => 150, 4..=7 => 20, _ => 5 };
            let mut b: Vec<Stmt> = (0..g.r.range(0, top)).map(|_| g.stmt(&K5, 0.0)).collect();
            match g.r.below(5) {
                // just past the end of a longer vector (as it was at the beginning)
                0 if len > 2 && g.r.chance(0.6) => { let x = len + g.r.below(2); let u = g.uniq(); b.insert(0, if g.r.chance(0.7) { Stmt::VSet("v1".into(), x, Val::Int(u)) } else { Stmt::VGet("v1".into(), x) }) }
                0 | 1 | 2 => { let f = failing(g); let i = g.r.below(b.len() as u64 + 1) as usize; b.insert(i, f) }
                3 => { let t = g.unparsable(&K5); if g.r.chance(0.6) { b.push(Stmt::Bad(t)) } else { let i = g.r.below(b.len() as u64 + 1) as usize; b.insert(i, Stmt::Bad(if t.contains('"') || t.contains('[') || t.contains('{') { "bogus".into() } else { t })) } }
                _ => {}
            }
            // the same thing twice (or more often) in a row
            if !b.is_empty() && g.r.chance(0.15) { let i = g.r.below(b.len() as u64) as usize; if !matches!(b[i], Stmt::Bad(_)) { for _ in 0..g.r.range(1, 3) { let x = b[i].clone(); b.insert(i, x) } } }
            steps.push(Step::Req(g.req(b)));
            if g.r.chance(0.5) { let k = g.key(&K5); let rd = g.read(k); steps.push(Step::Req(g.req(vec![rd]))); }
        }
        steps.push(Step::Barrier(2));
        if ci == 0 { steps.extend(g.read_all(&K5)); }
        s.clients.push(Client { steps });
    }
    s
}

fn c04(g: &mut G, index: u64, seed: u64) -> Scenario {
    if g.r.chance(0.5) { return lib(g, "C04", index, seed) }
    let arch = g.arch([3, 3, 3]);
    let mut c = g.knobs(arch);
    if arch.is_multi() { c.tick = 4 * MS; c.lazy = SEC; c.spin_max = 50 * MS; }
    c.slice_p = c.slice_p.min(0.1);
    let mut s = base("C04", index, seed, arch, c, "lifetimes");
    let n = g.r.range(1, 2);
    let keys = ["i1", "v1", "m1"];
    for _ in 0..n {
        let mut steps = vec![];
        let mut t = 20 * MS;
        for _ in 0..g.r.range(1, 3) {
            // one write with a lifetime, then commands around its deadline
            let k = g.key(&keys);
            let l = g.r.range(0, 3);
            let v = match &k[..1] { "v" => Val::Vec(Ty::Int, vec![Val::Int(g.uniq()), Val::Int(g.uniq())]), "m" => Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(g.uniq()))]), _ => Val::Int(g.uniq()) };
            let w = match g.r.below(4) { 0 => vec![Stmt::Del(k.clone()), Stmt::TrySet(k.clone(), v, Some(l))], 1 => vec![Stmt::Set(k.clone(), v.clone(), None), Stmt::Upd(k.clone(), v, Some(l))], _ => vec![Stmt::Set(k.clone(), v, Some(l))] };
            steps.push(Step::WaitUntil(t));
            steps.push(Step::Req(g.req(w)));
            let dl = t + l * SEC;
            let mut times: Vec<u64> = (0..g.r.range(1, 4)).map(|_| match g.r.below(5) { 0 => dl.saturating_sub(g.r.range(20 * MS, 300 * MS)), 1 => dl + g.r.range(30 * MS, 200 * MS), 2 => g.r.range(t, dl + SEC), 3 => dl + g.r.range(0, 2 * SEC), _ => g.r.range(t, dl.max(t + 1)) }).collect();
            times.sort();
            for x in times {
                steps.push(Step::WaitUntil(x.max(t)));
                let mut b = vec![];
                for _ in 0..g.r.range(1, 2) { b.push(if g.r.chance(0.7) { around(g, &k) } else { g.stmt(&keys, 0.5) }) }
                steps.push(Step::Req(g.req(b)));
                if g.r.chance(0.5) { let rd = g.read(k.clone()); steps.push(Step::Req(g.req(vec![rd]))); }
            }
            t = dl + g.r.range(0, SEC);
        }
        steps.push(Step::Barrier(2));
        steps.extend(g.read_all(&keys));
        s.clients.push(Client { steps });
    }
    s
}
/// Any command, on a key whose lifetime is about to end or just ended.
fn around(g: &mut G, k: &str) -> Stmt {
    use Stmt::*;
    let k = k.to_string();
    let n = g.uniq();
    let l = if g.r.chance(0.5) { Some(g.r.range(0, 3)) } else { None };
    let v = match &k[..1] { "v" => Val::Vec(Ty::Int, vec![Val::Int(n)]), "m" => Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(n))]), _ => Val::Int(n) };
    let plain = g.r.chance(0.5);
    match (&k[..1], plain) {
        ("v", false) => match g.r.below(5) { 0 => VGet(k, 0), 1 => VLen(k), 2 => VPop(k), 3 => VPush(k, Val::Int(n)), _ => VSet(k, 0, Val::Int(n)) },
        ("m", false) => match g.r.below(5) { 0 => MGet(k, Val::Int(1)), 1 => MEx(k, Val::Int(1)), 2 => MLen(k), 3 => MDel(k, Val::Int(1)), _ => MSet(k, Val::Int(2), Val::Int(n)) },
        _ => match g.r.below(8) { 0 => Get(k), 1 => TryGet(k), 2 => Ex(k), 3 => Type(k), 4 => Del(k), 5 => Upd(k, v, l), 6 => TrySet(k, v, l), _ => Set(k, v, l) },
    }
}

fn c05_server(g: &mut G, index: u64, seed: u64) -> Scenario {
    // background cleaning in the running servers, with live and expiring keys around
    let arch = g.arch([0, 4, 5]);
    let mut c = g.knobs(arch);
    if arch.is_multi() { c.tick = 10 * MS; c.lazy = SEC; c.spin_max = 100 * MS; c.spin_cap = 1500; }
    c.slice_p = c.slice_p.min(0.1);
    let mut s = base("C05", index, seed, arch, c, "server cleaning");
    let keys = ["i1", "v1", "m1", "i2"];
    let span = if arch.is_multi() { 14 * SEC } else { 4 * SEC };
    for _ in 0..g.r.range(1, 2) {
        let mut times: Vec<u64> = (0..g.r.range(8, 16)).map(|_| g.r.below(span)).collect();
        times.sort();
        let mut steps = vec![];
        for t in times {
            steps.push(Step::WaitUntil(t));
            let b = if g.r.chance(0.4) { let k = g.key(&keys); vec![around(g, &k)] } else { g.batch(&keys, 3, 0.5) };
            steps.push(Step::Req(g.req(b)));
        }
        steps.push(Step::Barrier(2));
        steps.extend(g.read_all(&keys));
        s.clients.push(Client { steps });
    }
    s
}

fn c06_server(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = if g.r.chance(0.5) { Arch::Async(g.r.range(1, 3) as usize) } else if g.r.chance(0.5) { Arch::MultiMain } else { Arch::Multi(1, 1) };
    let mut c = g.knobs(arch);
    c.spin_grace = 3_000_000;
    c.slice_p = 0.0;
    c.ns_block = 2; c.spin_cap = 20_000;
    if arch.is_multi() { c.tick = 20 * MS; c.lazy = SEC; c.spin_max = 200 * MS; c.spin_cap = 3000; }
    let mut s = base("C06", index, seed, arch, c, "server memory");
    s.oracle.heap = true;
    let mut steps = vec![Step::Req(g.req(vec![Stmt::Set("i1".into(), Val::Int(1), None)])), Step::Req(g.req(vec![Stmt::Get("i1".into())])), Step::WaitUntil(1500 * MS)];
    let n = g.r.range(4, 8);
    for i in 0..n {
        let len = g.r.range(14_000, 22_000) as usize;
        let v = match g.r.below(3) {
            0 => Val::Vec(Ty::Int, (0..len / 24).map(|x| Val::Int(x as i64)).collect()),
            1 => Val::Vec(Ty::Str, (0..len / 300).map(|_| Val::Str("q".repeat(280))).collect()),
            _ => Val::Str("x".repeat(len)),
        };
        let l = Some(g.r.range(2, 4));
        let k = format!("h{}", i);
        let b = match g.r.below(4) {
            0 => vec![Stmt::TrySet(k, v, l)],
            1 => vec![Stmt::Set(k.clone(), Val::Int(0), None), Stmt::Upd(k, v, l)],
            2 => vec![Stmt::Set(k.clone(), Val::Int(0), Some(100)), Stmt::Set(k, v, l)],
            _ => vec![Stmt::Set(k, v, l)],
        };
        steps.push(Step::Req(g.req(b)));
    }
    // keys that stay
    for i in 0..g.r.below(3) { let l = if g.r.chance(0.5) { Some(100_000) } else { None }; steps.push(Step::Req(g.req(vec![Stmt::Set(format!("p{}", i), Val::Int(i as i64), l)]))); }
    s.clients.push(Client { steps });
    s.timeline = vec![Tl { at: 1400 * MS, kind: TlKind::HeapMark }];
    // the clock was set before all that: cleaning goes on
    if g.r.chance(0.25) { let d = g.r.range(30, 100_000) as i64 * SEC as i64; s.timeline.push(Tl { at: 1450 * MS, kind: TlKind::Jump(if g.r.chance(0.7) { -d } else { d }) }); }
    // multi: 5 picks every 5 s; up to 8 expiring (plus 3 others): 50 sweeps leave one of 11 with chance (10/11)^250
    s.settle = if arch.is_multi() { 250 * SEC } else { 40 * SEC };
    if g.r.chance(0.12) {
        // clients keep the server busy all the time, to the end
        s.kind = "server memory, under load".into();
        let (gap, n) = if arch.is_multi() { (g.r.range(300 * MS, 1100 * MS), s.settle / SEC) } else { (g.r.range(10 * MS, 99 * MS), 400) };
        s.timeline.push(Tl { at: 2300 * MS, kind: TlKind::HeapMark });
        let mut steps = vec![Step::WaitUntil(2500 * MS)];
        for _ in 0..n { let p = g.probe("i1"); steps.push(p); steps.push(Step::Wait(gap)); }
        s.clients.push(Client { steps });
        s.settle = 50 * MS;
    } else
    // a thread that does not get to run for a long time, after everything is stored
    if g.r.chance(0.3) {
        let k = g.r.range(1, 2);
        for _ in 0..k { let at = g.r.range(2 * SEC, 8 * SEC); s.timeline.push(Tl { at, kind: TlKind::Stall { pick: g.r.next() >> 8, dur: g.r.range(2 * SEC, 20 * SEC) } }); }
        s.settle += 50 * SEC;
    } else if !arch.is_multi() && g.r.chance(0.4) {
        // ... in the middle of what it does
        s.cfg.slice_p = 0.3;
        s.cfg.slice_mean = *g.r.pick(&[100, 500]);
        s.cfg.nap_p = *g.r.pick(&[0.003, 0.01]);
        s.cfg.nap_n = 2;
        s.cfg.nap_max = 25 * SEC;
        s.settle += 60 * SEC;
    }
    s
}

fn c07(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([2, 6, 4]);
    let mut c = g.knobs(arch);
    c.p_short_write = *g.r.pick(&[0.0, 0.0, 0.3]);
    let mut s = base("C07", index, seed, arch, c, "attribution");
    let n = g.r.range(2, 5);
    for ci in 0..n {
        let (k, kv, km) = (format!("own{}", ci), format!("vown{}", ci), format!("mown{}", ci));
        let v = g.uniq() + 1_000_000 * (ci as i64 + 1);
        let mut steps = vec![Step::Req(g.req(vec![Stmt::Set(kv.clone(), Val::Vec(Ty::Int, vec![Val::Int(v)]), None), Stmt::Set(km.clone(), Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(v))]), None), Stmt::Set(k.clone(), Val::Int(v), None)]))];
        for _ in 0..g.r.range(3, 6) {
            let mut q = match g.r.below(12) {
                0..=3 => g.req(vec![Stmt::Get(k.clone())]),
                4 => { let mut q = g.req(vec![Stmt::Get(k.clone())]); q.user = [User::Missing, User::Rejected, User::Unknown(format!("mallory{}", ci)), User::Read][g.r.below(4) as usize].clone(); q }
                5 => { let mut q = g.req(vec![Stmt::Set("shared".into(), Val::Int(v), None)]); q.user = User::Read; q }
                6 if g.r.chance(0.15) => g.req(vec![]),
                6 => { let t = g.unparsable(&[&k[..]]); g.req(vec![Stmt::Bad(t)]) }
                7 => { let mut f = failing_on(g, &k, &kv, &km); if f.key() == Some("nokey") { let none = format!("none{}", ci); f = match g.r.below(3) { 0 => Stmt::Get(none), 1 => Stmt::Type(none), _ => Stmt::Upd(none, Val::Int(v), None) } } g.req(vec![f]) }
                8 => { let mut q = g.req(vec![]); q.body = Body::Raw(raw_bad(g)); q.end = End::HalfClose; q }
                9 => { let x = g.value(); g.req(vec![Stmt::Set(format!("r{}", ci), x, None), Stmt::Get(format!("r{}", ci))]) }
                10 if g.r.chance(0.2) => { let t: &str = *g.r.pick(&["q", "é", "日", "😀"]); let m = g.r.range(300, 4000) as usize; let x = Val::Str(t.repeat(m)); g.req(vec![Stmt::Set(format!("r{}", ci), x, None), Stmt::Get(format!("r{}", ci))]) }
                10 => { let t = g.string(40).replace('\u{0}', ""); g.req(vec![Stmt::Set(kv.clone(), Val::Vec(Ty::Str, vec![Val::Str(t)]), None), Stmt::VGet(kv.clone(), 0)]) }
                _ => { let v2 = v + g.r.range(1, 900) as i64; g.req(vec![Stmt::Upd(k.clone(), Val::Int(v2), None), Stmt::Get(k.clone())]) }
            };
            if g.r.chance(0.15) { q.end = End::SlowRead(g.r.range(30, 90) as usize, g.r.range(100 * US, 3 * MS)); }
            if g.r.chance(0.06) && !matches!(q.body, Body::Raw(_)) { trailing(g, &mut q); }
            steps.push(Step::Req(q));
            if g.r.chance(0.3) { let w = g.wait(300 * MS); steps.push(w); }
        }
        s.clients.push(Client { steps });
    }
    if g.r.chance(0.6) { let k = g.r.range(1, 4); s.timeline = g.stalls(k, 2 * MS, 80 * MS, 3500 * MS); s.kind = "attribution+stalls".into(); }
    else if g.r.chance(0.5) {
        // threads that lose the processor for seconds in the middle of something
        s.kind = "attribution+pauses".into();
        s.cfg.slice_p = 0.3;
        s.cfg.slice_mean = *g.r.pick(&[100, 500, 2000]);
        s.cfg.nap_p = *g.r.pick(&[0.01, 0.05]);
        s.cfg.nap_n = 2;
        s.cfg.nap_max = 5 * SEC;
    }
    s
}
/// Bytes that are not a well-formed request (a server that is told no more comes must answer with an error).
fn raw_bad(g: &mut G) -> Vec<u8> {
    let q = "{\"query\": \"set evil 1\"}";
    let u = "Username: admin\r\n";
    let s = match g.r.below(26) {
        0 => format!("GET / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", u, q.len(), q),
        1 => format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", u, q.len() + 10, q),
        2 => format!("POST / HTTP/1.1\r\n{}Content-Length: 18446744073709551615\r\n\r\n{}", u, q),
        3 => format!("POST / HTTP/1.1\r\n{}Content-Length: 18446744073709551600\r\n\r\n{}", u, q),
        4 => format!("POST / HTTP/1.1\r\n{}Content-Length: 99999999999999999999999\r\n\r\n{}", u, q),
        5 => format!("POST / HTTP/1.1\r\n{}Content-Length: -1\r\n\r\n{}", u, q),
        6 => format!("POST / HTTP/1.1\r\n{}Content-Length: abc\r\n\r\n{}", u, q),
        7 => format!("POST / HTTP/1.1\r\n{}\r\n{}", u, q),
        8 => format!("POST / HTTP/1.1\r\n{}Content-Length: 5\r\n\r\nnotjs", u),
        9 => format!("POST / HTTP/1.1\r\n{}Content-Length: 2\r\n\r\n[]", u),
        10 => format!("POST / HTTP/1.1\r\n{}Content-Length: 13\r\n\r\n{{\"query\": 12}}", u),
        11 => format!("POST / HTTP/1.1\r\n{}Content-Length: 14\r\n\r\n{{\"q\": \"get a\"}}", u),
        12 => format!("PUT / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", u, q.len(), q),
        13 => "\r\n\r\n\r\n".into(),
        14 => "hello".into(),
        15 => format!("POST / HTTP/1.1\r\n{}X-Big: {}", u, "y".repeat(g.r.range(10, 9000) as usize)),
        16 => { let h: String = (0..g.r.range(33, 80)).map(|i| format!("X-H{}: 1\r\n", i)).collect(); format!("POST / HTTP/1.1\r\n{}{}Content-Length: {}\r\n\r\n{}", u, h, q.len(), q) }
        17 => format!("POST / HTTP/9.9\r\n{}Content-Length: {}\r\n\r\n{}", u, q.len(), q),
        18 => format!("POST / HTTP/1.1\r\nUsername admin\r\nContent-Length: {}\r\n\r\n{}", q.len(), q),
        19 => format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", u, q.len() - 1, &q[..q.len() - 1]),
        20 => "POST".into(),
        21 => format!("POST / HTTP/1.1\r\n{}Content-Length: 0\r\n\r\n", u),
        22 => { let n = g.r.range(200, 3000) as usize; format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", u, n, "[".repeat(n)) }
        23 => {
            let mut b = format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n", u, q.len() + 1).into_bytes();
            b.extend(&q.as_bytes()[..12]);
            b.push(0xff);
            b.extend(&q.as_bytes()[12..]);
            // invalid UTF-8 in the query itself: whatever the server makes of it is not this statement
            b.truncate(b.len() - 6);
            b.extend(b"\xc3\x28\x80oo");
            return b;
        }
        24 => { return (0..g.r.range(1, 400)).map(|_| g.r.next() as u8).collect() }
        _ => "\0\0\0\0".into(),
    };
    s.into_bytes()
}

/// Bytes after the request: a line end, blanks, noise, another request, something that looks like more of the body.
fn trailing(g: &mut G, q: &mut Req) {
    let n = g.uniq();
    q.trail = match g.r.below(8) {
        0 | 1 => b"\r\n".to_vec(),
        2 => b"\n \t".to_vec(),
        3 => format!("POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 40\r\n\r\n{{\"query\": \"set after{:06} 1; shutdown\"}}", n).into_bytes(),
        4 => b"}".to_vec(),
        5 => vec![0xff, 0, 0xfe],
        6 => "z".repeat(g.r.range(1, 3000) as usize).into_bytes(),
        _ => b",\"query\": \"shutdown\"}".to_vec(),
    };
}
fn c08(g: &mut G, index: u64, seed: u64) -> Scenario {
    let mut arch = g.arch([3, 3, 3]);
    // (one analyzer for large data: idle ones spin, and a pause for spinning must not hit the one that computes)
    let bigs = g.r.chance(0.45);
    if bigs { arch = match arch { Arch::MultiMain => Arch::Multi(3, 1), Arch::Multi(l, _) => Arch::Multi(l, 1), a => a } }
    let mut c = g.knobs(arch);
    c.spin_grace = if bigs { 1_000_000_000 } else { 3_000_000 };
    c.slice_p = c.slice_p.min(0.05);
    c.ns_block = 1; c.spin_cap = 20_000; c.spin_max = 2 * MS;
    c.sndbuf = *g.r.pick(&[1, 700, 2048, 4096, 16384, 65536, 1 << 20]).max(&200);
    c.rcvbuf = *g.r.pick(&[300, 1024, 4096, 65536, 1 << 19]);
    c.crcv = if bigs { *g.r.pick(&[65536, 65536, 1 << 19, 20_000]) } else { *g.r.pick(&[65536, 4096, 500, 80]) };
    c.p_short_write = *g.r.pick(&[0.0, 0.0, 0.2, 0.6]);
    let mut s = base("C08", index, seed, arch, c, "segmentation");
    for ci in 0..g.r.range(1, 2) {
        let mut steps = vec![];
        for i in 0..g.r.range(2, 4) {
            let k = format!("k{}_{}", ci, i);
            let big = bigs && g.r.chance(0.7);
            let v = if big {
                let n = *g.r.pick(&[900u64, 1500, 4000, 20_000, 70_000, 300_000]);
                let n = g.r.range(n / 2, n) as usize;
                match g.r.below(3) { 0 => Val::Vec(Ty::Int, (0..n / 8).map(|x| Val::Int(x as i64 * 7919 % 100_003)).collect()), 1 => Val::Str("ab\u{e9}C".repeat(n / 5)), _ => Val::Str((0..n).map(|x| (b'a' + (x % 23) as u8) as char).collect()) }
            } else if g.r.chance(0.3) {
                // text that looks like the end of something
                let m = g.r.range(1, 6);
                Val::Str((0..m).map(|_| *g.r.pick(&["\"}", "}", "\r\n\r\n", "\r\n", "Content-Length: 3\r\n\r\n", "{\"query\": \"get i1\"}", "\\", "\"", "HTTP/1.1 200 OK", "\u{0}", "é", "日", "x", "0\r\n\r\n"])).collect())
            } else { g.value() };
            let mut q = g.req(vec![Stmt::Set(k.clone(), v, None)]);
            if g.r.chance(0.2) { fill(g, &mut q, &k); }
            let after = g.r.chance(0.12);
            if after { trailing(g, &mut q); }
            if g.r.chance(0.85) { g.cuts(&mut q, 2500 * MS); }
            if after && g.r.chance(0.3) { let at = crate::http::render(&q).len() - q.trail.len(); q.cuts = vec![(at, g.r.below(300 * MS))]; }
            q.patience = 60 * SEC;
            if g.r.chance(0.2) { q.end = End::HalfClose; }
            steps.push(Step::Req(q));
            let mut q = g.req(vec![Stmt::Get(k)]);
            if g.r.chance(0.1) { trailing(g, &mut q); }
            if g.r.chance(0.6) { g.cuts(&mut q, 2500 * MS); }
            q.patience = 60 * SEC;
            match g.r.below(4) {
                0 if !big => q.end = End::SlowRead(g.r.range(1, 400) as usize, g.r.range(50 * US, 2 * MS)),
                0 => q.end = End::SlowRead(g.r.range(20_000, 60_000) as usize, g.r.range(MS, 100 * MS)),
                1 => q.end = End::HalfClose,
                _ => {}
            }
            steps.push(Step::Req(q));
        }
        s.clients.push(Client { steps });
    }
    s
}

/// A request whose length is a multiple of the usual buffer sizes, or nearly so.
fn fill(g: &mut G, q: &mut Req, k: &str) {
    let m = *g.r.pick(&[512i64, 1024, 1024, 1024, 2048, 4096]);
    let off = *g.r.pick(&[0i64, 0, 0, 1, -1]);
    let n0 = g.r.range(0, 3000) as i64;
    let mut n = n0;
    for _ in 0..4 {
        q.body = Body::Query(vec![Stmt::Set(k.to_string(), Val::Str("f".repeat(n as usize)), None)]);
        let over = (crate::http::render(q).len() as i64 - off).rem_euclid(m);
        if over == 0 { return }
        n += m - over;
    }
}

/// Well-formed HTTP and JSON, hostile query text (never a complete statement on a tracked key).
fn hostile_text(g: &mut G) -> String { hostile_upto(g, 37) }

/// (37 to 39 are long: for runs that give a working thread the time)
fn hostile_upto(g: &mut G, top: u64) -> String {
    let n = g.uniq();
    let deep = |c: &str, n: usize| c.repeat(n);
    match g.r.below(top) {
        37 => { let c = *g.r.pick(&[";", " ", "[", "{", "; ", "\n", "-", "9", "\"", ",", "int "]); deep(c, (g.r.range(10_000, 150_000) as usize) / c.len()) }
        38 => { let c = *g.r.pick(&["get u1;", "ex u1 ", "try_get u2;;", "type u1;"]); deep(c, g.r.range(200, 4000) as usize) }
        39 => { let c = *g.r.pick(&[";", " ", "\t", "\n;"]); format!("{}set u1 {}{}", deep(c, (g.r.range(5_000, 120_000) as usize) / c.len()), n, deep(c, g.r.below(5000) as usize)) }
        34 => {
            // escapes, whole and cut off
            let e = *g.r.pick(&["u", "x", "0", "U", "'", "a", "b", "u{", "N{", "\n", "e", "1", " "]);
            let h = *g.r.pick(&["", "1", "12", "123", "00e9", "d800", "dc00", "zz", "000", "1F600", "}", "é", "ffff", "𝔘"]);
            format!("set u1 \"{}\\{}{}{}", *g.r.pick(&["", "a", "é", "\\\\"]), e, h, *g.r.pick(&["", "", "\"", "\\", " \"", "\" 5"]))
        }
        35 => format!("set u1 {}", *g.r.pick(&["1e", "1.", "-", "--1", "+1", "0x10", "1_000", "²", "٣", "1.٣", "1.2.3", "-.5", ".5", "1.e5", "1.0e", "-9223372036854775809", "NaN", "inf", "-inf", "1.0e40", "1e5", "Ⅷ", "½.0", "１", "-１", "0.0000000000000000000000000000000000000000000000000000001e"])),
        36 => { let (a, b) = (*g.r.pick(&["vget", "vset", "mget", "mset", "set", "upd", "try_set", "vpush"]), g.r.range(0, 3)); let mut o = format!("{} u1", a); for _ in 0..b { o.push_str(*g.r.pick(&[" -1", " 1.5", " \"x\"", " null", " true", " [1]", " {", " int", " 99999999999999999999", " u2", " ;", " int [true]", " get"])) } o }
        0 => "   ".into(), 1 => "\n".into(), 2 => "set".into(), 3 => "get".into(), 4 => "\"".into(), 5 => "\"abc\"".into(), 6 => "set u1 \"abc\"".into(), 7 => "get u1 ".into(),
        8 => "set u1 int [".into(), 9 => "set u1 int int {".into(), 10 => "set u1 int int {1".into(), 11 => "set u1 int int {1:".into(), 12 => "set u1 int int {1:2".into(), 13 => "set u1 int [1".into(),
        14 => "set u1 int [1,".into(), 15 => "del".into(), 16 => "ex ".into(), 17 => "vget u1".into(), 18 => "mset u1".into(), 19 => format!("set u1 {} 9223372036854775807", n),
        20 => format!("set u1 {} 18446744073709551615", n), 21 => "set u1 1e999".into(), 22 => format!("set u1 {}.0", "9".repeat(60)), 23 => "vset u1 9223372036854775807 1".into(), 24 => deep(";", 3000), 25 => deep("[", 2000),
        26 => format!("set u1 \"{}\"", deep("A", 20_000)), 27 => format!("get {}", deep("u", 5000)), 28 => "set u1 -".into(), 29 => "set u1 int [1]]".into(), 30 => "set u1 ½".into(), 31 => "set u1 \"\\".into(),
        32 => { let m = g.r.range(1, 30); (0..m).map(|_| *g.r.pick(&["set ", "u1 ", "int ", "[", "]", "{", "}", ",", ":", ";", "\"", "1", "-", ".", "str ", "\\", " ", "get ", "true", "é", "vpush ", "mset ", "upd ", "u2 ", "5 "])).collect() }
        _ => { let m = g.r.range(1, 40); (0..m).map(|_| char::from_u32(g.r.below(0x250) as u32).unwrap_or('x')).collect::<String>().replace("shutdown", "") }
    }
}
fn c09(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([3, 4, 3]);
    let mut c = g.knobs(arch);
    c.spin_grace = 3_000_000;
    c.slice_p = c.slice_p.min(0.1);
    if arch.is_multi() { c.tick = 4 * MS; c.lazy = SEC; c.spin_max = 50 * MS; }
    c.ns_block = 5; c.spin_cap = 20_000;
    let mut s = base("C09", index, seed, arch, c, "hostile input");
    let keys = ["i1", "v1", "m1"];
    let mut setup = vec![];
    for k in keys { let p = match &k[..1] { "v" => Val::Vec(Ty::Int, vec![Val::Int(g.uniq())]), "m" => Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(g.uniq()))]), _ => Val::Int(g.uniq()) }; setup.push(Stmt::Set(k.into(), p, None)); }
    let n = g.r.range(1, 2);
    for ci in 0..n {
        let mut steps = vec![];
        if ci == 0 { steps.push(Step::Req(g.req(setup.clone()))); }
        steps.push(Step::Barrier(1));
        for _ in 0..g.r.range(2, 5) {
            let mut q = g.req(vec![]);
            match g.r.below(8) {
                0 | 1 => { q.body = Body::Text(hostile_upto(g, 40)); if g.r.chance(0.3) { q.user = User::Read } }
                2 | 3 => { q.body = Body::Raw(raw_bad(g)); q.end = if g.r.chance(0.6) { End::HalfClose } else { End::Normal }; q.patience = 90 * SEC; }
                4 if g.r.chance(0.3) => { q.body = Body::Query(g.batch(&keys, 2, 0.0)); q.user = User::Unknown(odd_name(g)); }
                4 => { let t = g.unparsable(&keys); let mut b = if g.r.chance(0.5) { g.batch(&keys, 2, 0.0) } else { vec![] }; b.push(Stmt::Bad(t)); q.body = Body::Query(b); }
                _ => {
                    // a good request that the client breaks off
                    let mut b = g.batch(&keys, 3, 0.0);
                    let long = g.r.chance(0.1);
                    if long { let n = *g.r.pick(&[900, 5000, 30_000, 100_000, 300_000]); b.push(Stmt::Set("u1".into(), Val::Str("L".repeat(g.r.range(n / 2, n) as usize)), None)); }
                    q.body = Body::Query(b);
                    let len = crate::http::render(&q).len();
                    let at = if long && g.r.chance(0.5) { len - 1 - g.r.below(20) as usize } else { g.r.below(len as u64) as usize };
                    q.patience = 90 * SEC;
                    q.end = match if long { g.r.below(3) } else { g.r.below(5) } { 0 => End::FinAt(at.max(1)), 1 => End::CloseAt(at), 2 => End::ResetAt(at), 3 => End::CloseAfter(g.r.below(5 * MS)), _ => End::ResetAfter(g.r.below(5 * MS)) };
                }
            }
            if g.r.chance(0.25) && matches!(q.body, Body::Raw(_)) {
                let len = crate::http::render(&q).len().max(1) as u64;
                q.end = match g.r.below(3) { 0 => End::CloseAfter(g.r.below(3 * MS)), 1 => End::ResetAfter(g.r.below(3 * MS)), _ => End::CloseAt(g.r.below(len) as usize) };
            }
            if g.r.chance(0.3) { g.cuts(&mut q, 50 * MS); }
            steps.push(Step::Req(q));
            if g.r.chance(0.5) { let k = g.key(&keys); steps.push(g.probe(&k)); }
        }
        steps.push(Step::Barrier(2));
        for k in keys { let p = g.probe(k); steps.push(p); }
        for st in steps.iter_mut() { if let Step::Req(q) = st { q.patience = q.patience.max(90 * SEC) } }
        s.clients.push(Client { steps });
    }
    s
}

const NAMES: &[&str] = &["root", "Admin", "ADMIN", "administrator", "admin2", "writer", "re ad", "", "admin, read", "0", "admin;", "nobody", "Write", "READ", "unauthenticated2", "1admin", "-admin", "_write", "*admin", "xadmin", "admin\tx", "\"admin\"", "user=admin", "admin\\0", "read,write", "unauthenticated admin", "администратор"];
/// A user nobody knows; now and then a long name, in any alphabet.
fn odd_name(g: &mut G) -> String {
    if g.r.chance(0.8) { return g.r.pick(NAMES).to_string() }
    let alphabet: Vec<char> = ["admin", "rw_-7", "é", "日本語", "añ", "🦀x", "a;,=\"'b"][g.r.below(7) as usize].chars().collect();
    let n = if g.r.chance(0.8) { g.r.range(1, 140) } else { g.r.range(140, 3000) };
    let mut t: String = (0..n).map(|_| *g.r.pick(&alphabet)).collect();
    if g.r.chance(0.3) { t.insert_str(0, *g.r.pick(&["admin", "write", "read", "unauthenticated"])) }
    if ["admin", "write", "read", "unauthenticated"].contains(&t.as_str()) { t.push('x') }
    t
}
fn c10(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([3, 4, 3]);
    let c = g.knobs(arch);
    let mut s = base("C10", index, seed, arch, c, "access");
    let keys = ["i1", "v1", "m1"];
    let n = g.r.range(1, 4);
    for ci in 0..n {
        let mut steps = vec![];
        if ci == 0 { let mut b = vec![]; for k in keys { b.push(match &k[..1] { "v" => Stmt::Set(k.into(), Val::Vec(Ty::Int, vec![Val::Int(g.uniq())]), None), "m" => Stmt::Set(k.into(), Val::Map(Ty::Int, Ty::Int, vec![]), None), _ => Stmt::Set(k.into(), Val::Int(g.uniq()), None) }) } let mut q = g.req(b); q.user = User::Admin; steps.push(Step::Req(q)); }
        steps.push(Step::Barrier(1));
        for _ in 0..g.r.range(2, 5) {
            let mut b = g.batch(&keys, 4, 0.0);
            if g.r.chance(0.2) { let i = g.r.below(b.len() as u64 + 1) as usize; b.insert(i, Stmt::Shutdown); }
            let mut q = g.req(b);
            let has_shutdown = matches!(&q.body, Body::Query(b) if b.contains(&Stmt::Shutdown));
            q.user = match g.r.below(8) { 0 | 1 => User::Write, 2 | 3 | 4 => User::Read, 5 => User::Unknown(odd_name(g)), 6 => if g.r.chance(0.5) { User::Rejected } else { User::Missing }, _ => if has_shutdown { User::Write } else { User::Admin } };
            // header-like text in the body is not a header
            if g.r.chance(0.08) { q.body = Body::Query(vec![Stmt::Set("i1".into(), Val::Str("\r\nUsername: admin\r\n\r\n".into()), None)]); }
            // long batches, with what decides about them near the end
            if g.r.chance(0.06) {
                let mut b: Vec<Stmt> = (0..g.r.range(12, 300)).map(|_| { let k = g.key(&keys); g.read(k) }).filter(|s| matches!(s, Stmt::TryGet(_) | Stmt::Ex(_))).collect();
                let k = g.key(&keys);
                let p = g.plain(k, None);
                let i = b.len() - g.r.below(b.len() as u64 / 3 + 1) as usize;
                b.insert(i, if g.r.chance(0.3) && !matches!(q.user, User::Admin) { Stmt::Shutdown } else { p });
                q.body = Body::Query(b);
            }
            // reads only, by readers
            if q.user == User::Read && g.r.chance(0.5) { let k = g.key(&keys); q.body = Body::Query(vec![g.read(k)]); }
            steps.push(Step::Req(q));
        }
        steps.push(Step::Barrier(2));
        if ci == 0 { for k in keys { let mut p = g.probe(k); if let Step::Req(q) = &mut p { if g.r.chance(0.4) { q.user = User::Read } } steps.push(p); } }
        s.clients.push(Client { steps });
    }
    s.settle = 2500 * MS;
    if arch.is_multi() { s.cfg.tick = 10 * MS; }
    s
}

fn c11(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([2, 4, 6]);
    let mut c = g.knobs(arch);
    if arch.is_multi() { c.tick = *g.r.pick(&[0, 4 * MS, 10 * MS]); c.lazy = SEC; c.spin_max = 50 * MS; c.spin_cap = 2000; }
    // a slow processor, and a shutdown just when the server may look at its flag
    let slow = matches!(arch, Arch::Async(_)) && g.r.chance(0.5);
    if slow { c.ns_block = *g.r.pick(&[20, 100, 400, 1500]); c.slice_p = *g.r.pick(&[0.1, 0.3, 0.6]); c.slice_mean = *g.r.pick(&[20, 100]); c.spin_cap = 100_000; }
    let mut s = base("C11", index, seed, arch, c, "shutdown");
    if g.r.chance(0.4) {
        s.cfg.slice_p = *g.r.pick(&[0.1, 0.3, 0.6]);
        s.cfg.slice_mean = *g.r.pick(&[20, 100, 500]);
        s.cfg.nap_p = *g.r.pick(&[0.01, 0.05, 0.2]); s.cfg.nap_max = *g.r.pick(&[60 * MS, 600 * MS, 1200 * MS]); s.cfg.nap_n = g.r.range(1, 3) as u32;
    }
    let n = if slow { 0 } else { g.r.range(0, 3) };
    let t0 = if slow { g.r.range(1, 2) * SEC - g.r.below(40 * MS) } else { g.r.range(5 * MS, 2500 * MS) };
    // other clients, among them ones whose shutdown must not count
    for _ in 0..n {
        let mut steps = vec![];
        for _ in 0..g.r.range(1, 5) {
            let mut q = match g.r.below(6) {
                0 => { let mut q = g.req(vec![Stmt::Shutdown]); q.user = [User::Read, User::Write, User::Missing, User::Rejected, User::Unknown("x".into())][g.r.below(5) as usize].clone(); q }
                1 => { let mut q = g.req(vec![Stmt::Get("missing".into()), Stmt::Shutdown]); q.user = User::Admin; q }
                2 => { let t = g.unparsable(&["i1"]); let mut q = g.req(vec![Stmt::Shutdown, Stmt::Bad(t)]); q.user = User::Admin; q }
                _ => { let b = g.batch(&["i1", "v1"], 3, 0.0); g.req(b) }
            };
            if g.r.chance(0.2) { let len = crate::http::render(&q).len() as u64; q.end = match g.r.below(4) { 0 => End::StallAt(g.r.below(len) as usize, g.r.range(SEC, 30 * SEC)), 1 => End::CloseAfter(g.r.below(MS)), 2 => End::NeverRead(10 * SEC), _ => End::ResetAt(g.r.below(len) as usize) }; }
            q.patience = 150 * SEC;
            let w = g.wait(800 * MS);
            steps.push(w);
            steps.push(Step::Req(q));
        }
        s.clients.push(Client { steps });
    }
    if g.r.chance(0.75) {
        let mut b = if g.r.chance(0.3) { vec![Stmt::Set("i1".into(), Val::Int(g.uniq()), None)] } else { vec![] };
        b.push(Stmt::Shutdown);
        if g.r.chance(0.1) { b.push(Stmt::Set("i1".into(), Val::Int(g.uniq()), None)); }
        let mut q = g.req(b);
        q.user = User::Admin;
        q.patience = 150 * SEC;
        if g.r.chance(0.2) { g.cuts(&mut q, 500 * MS); }
        s.clients.push(Client { steps: vec![Step::WaitUntil(t0), Step::Req(q)] });
        s.settle = 60 * SEC;
        if !slow && g.r.chance(0.08) {
            // others never leave it in peace
            for _ in 0..g.r.range(1, 2) {
                let gap = *g.r.pick(&[20 * MS, 100 * MS, 300 * MS, 900 * MS]);
                let mut steps = vec![];
                for _ in 0..(30 * SEC / gap).min(400) { let mut p = g.probe("i1"); if let Step::Req(q) = &mut p { q.patience = 150 * SEC } steps.push(p); steps.push(Step::Wait(gap)); }
                s.clients.push(Client { steps });
            }
        }
    } else {
        s.kind = "no shutdown".into();
        s.settle = 3 * SEC;
        // an accept that fails is no reason to stop
        if g.r.chance(0.3) { let errno = *g.r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ECONNABORTED, libc::EINTR, libc::ENOMEM, libc::EPROTO]); s.timeline.push(Tl { at: g.r.range(MS, 2 * SEC), kind: TlKind::AcceptErr { n: g.r.range(1, 6) as u32, errno } }); }
    }
    if !slow && g.r.chance(0.15) && s.kind == "shutdown" {
        s.kind = "unheard shutdown".into();
        let mark = g.uniq() + 7_000_000;
        let mut q = g.req(vec![Stmt::Set("i9".into(), Val::Int(mark), None), Stmt::Shutdown]);
        q.user = User::Admin;
        q.patience = 150 * SEC;
        if g.r.chance(0.4) { q.end = match g.r.below(3) { 0 => End::CloseAfter(g.r.below(MS)), 1 => End::ResetAfter(g.r.below(MS)), _ => End::CloseAfter(0) }; }
        let k = s.clients.len() - 1;
        s.clients[k].steps = vec![Step::WaitUntil(t0), Step::Req(q)];
        let mut steps = vec![Step::WaitUntil(t0 + 30 * SEC)];
        for _ in 0..2 { let mut p = g.probe("i9"); if let Step::Req(q) = &mut p { q.patience = 20 * SEC } steps.push(p); }
        s.clients.push(Client { steps });
        for _ in 0..g.r.range(1, 5) { s.timeline.push(Tl { at: t0 + g.r.below(3 * MS), kind: TlKind::Stall { pick: g.r.next() >> 8, dur: g.r.range(900 * MS, 4 * SEC) } }); }
    } else if slow && g.r.chance(0.6) {
        // the thread that would handle the shutdown stands still until the server's own timer is due as well
        let from = t0 - g.r.range(MS, 300 * MS);
        let to = (t0 / SEC + 1) * SEC + g.r.range(MS, 400 * MS);
        s.timeline = vec![Tl { at: from, kind: TlKind::Stall { pick: g.r.next() >> 8, dur: to - from } }];
    } else if slow { s.timeline = (0..g.r.below(4)).map(|_| Tl { at: t0 + g.r.below(50 * MS), kind: TlKind::Stall { pick: g.r.next() >> 8, dur: g.r.range(MS, 60 * MS) } }).collect(); }
    else if g.r.chance(0.3) { let k = g.r.range(1, 3); let st = g.stalls(k, 0, t0 + 3 * SEC, 3 * SEC); s.timeline.extend(st); }
    // the clock is set around the shutdown
    if !slow && s.kind == "shutdown" && g.r.chance(0.1) { for _ in 0..g.r.range(1, 3) { let d = jump(g); s.timeline.push(Tl { at: t0.saturating_sub(SEC) + g.r.below(3 * SEC), kind: TlKind::Jump(d) }); } }
    s
}

fn c13(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([2, 6, 4]);
    let mut c = g.knobs(arch);
    let marathon = g.r.chance(0.04);
    let idle = !marathon && g.r.chance(0.35);
    let night = idle && g.r.chance(0.15);
    if night { c.horizon = 40_000 * SEC }
    if arch.is_multi() && (idle || marathon) { c.tick = 20 * MS; c.lazy = SEC; c.spin_max = 200 * MS; c.spin_cap = 1500; }
    let mut s = base("C13", index, seed, arch, c, if marathon { "marathon" } else if idle { "idle" } else { "burst" });
    let n = if idle || marathon { g.r.range(1, 3) } else { g.r.range(3, 10) };
    for ci in 0..n {
        let mut steps = vec![];
        for j in 0..if marathon { g.r.range(150, 600) / n } else { g.r.range(2, if idle { 4 } else { 5 }) } {
            let k = format!("k{}", ci);
            let b = if j == 0 || g.r.chance(0.4) { vec![Stmt::Set(k, Val::Int(g.uniq()), None)] } else { match g.r.below(4) { 0 => { let f = failing(g); vec![f] } 1 => { let t = g.unparsable(&["k0"]); vec![Stmt::Bad(t)] } _ => vec![Stmt::TryGet(k)] } };
            let mut q = g.req(b);
            if g.r.chance(0.1) { q.user = [User::Read, User::Missing, User::Rejected, User::Unknown("q".into())][g.r.below(4) as usize].clone(); }
            steps.push(Step::Req(q));
            if idle { steps.push(Step::Wait(if night && g.r.chance(0.5) { g.r.range(60 * SEC, 2400 * SEC) } else { g.r.range(0, 20 * SEC) })); } else if g.r.chance(0.2) { let w = g.wait(30 * MS); steps.push(w); }
        }
        s.clients.push(Client { steps });
    }
    if g.r.chance(0.4) { let k = g.r.range(1, 5); s.timeline = g.stalls(k, 0, 100 * MS, 2500 * MS); }
    for cl in s.clients.iter_mut() {
        cl.steps.push(Step::Barrier(1));
        cl.steps.push(Step::Wait(3 * SEC));
        let mut q = g.req(vec![Stmt::TryGet("k0".into())]);
        q.tag = "probe".into();
        cl.steps.push(Step::Req(q));
    }
    s
}

fn c14(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([3, 4, 3]);
    let mut c = g.knobs(arch);
    c.spin_grace = 3_000_000;
    c.slice_p = 0.0;
    if arch.is_multi() { c.tick = 20 * MS; c.lazy = SEC; c.spin_max = 200 * MS; c.spin_cap = 1500; }
    c.ns_block = 3;
    c.sndbuf = *g.r.pick(&[2048, 8192]);
    c.rcvbuf = *g.r.pick(&[1024, 4096]);
    c.crcv = *g.r.pick(&[65536, 20_000, 4000, 1000]);
    let mut s = base("C14", index, seed, arch, c, "stalled clients");
    let m = g.r.range(1, 4);
    let patience = 15 * SEC * (m + 1) + 10 * SEC;
    let big = Val::Str("z".repeat(60_000));
    // one well-behaved client first (data for a large response), then the stalled ones arrive
    let u = g.uniq();
    let mut steps = vec![Step::Req(g.req(vec![Stmt::Set("big".into(), big, None)])), Step::Req(g.req(vec![Stmt::Set("i1".into(), Val::Int(u), None)])), Step::Barrier(1), Step::Wait(g.r.range(0, 50 * MS))];
    for _ in 0..g.r.range(1, 3) { let p = g.probe("i1"); steps.push(p); let b = vec![Stmt::Set("i1".into(), Val::Int(g.uniq()), None)]; steps.push(Step::Req(g.req(b))); if g.r.chance(0.5) { steps.push(Step::Wait(g.r.range(0, 3 * SEC))); } }
    for st in steps.iter_mut() { if let Step::Req(q) = st { q.patience = patience } }
    s.clients.push(Client { steps });
    for _ in 0..m {
        let mut q;
        if g.r.chance(0.25) {
            q = g.req(vec![Stmt::Get("big".into())]);
            q.end = End::NeverRead(patience + 5 * SEC);
            if g.r.chance(0.4) {
                // takes a little of it now and then
                q.end = End::Sip(*g.r.pick(&[1, 100, 600, 1500]), g.r.range(SEC, 9 * SEC));
                q.patience = patience + 5 * SEC;
            }
        } else if g.r.chance(0.2) {
            // gets its response, and does not hang up
            q = g.req(vec![Stmt::Get("i1".into())]);
            if g.r.chance(0.5) { let t = g.unparsable(&["i1"]); q.body = Body::Query(vec![Stmt::Bad(t)]); }
            q.end = End::Linger(patience + 5 * SEC);
            q.patience = patience;
        } else {
            let b = g.batch(&["v1", "m1"], 2, 0.0);
            q = g.req(b);
            let len = crate::http::render(&q).len() as u64;
            let at = match g.r.below(4) { 0 => 0, 1 => g.r.below(20), 2 => len - 1, _ => g.r.below(len) } as usize;
            q.end = End::StallAt(at, patience + 5 * SEC);
            if at > 4 && g.r.chance(0.25) {
                // a trickle: a byte now and then
                q.cuts = (1..at.min(40)).map(|i| (i, g.r.range(SEC, 4 * SEC))).collect();
            }
        }
        s.clients.push(Client { steps: vec![Step::Barrier(1), Step::Wait(g.r.range(0, 200 * MS)), Step::Req(q)] });
    }
    s
}

fn c15(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([2, 4, 3]);
    let mut c = g.knobs(arch);
    c.spin_grace = 3_000_000;
    c.slice_p = c.slice_p.min(0.1);
    if arch.is_multi() { c.tick = *g.r.pick(&[2 * MS, 10 * MS]); c.lazy = SEC; c.spin_max = 100 * MS; c.spin_cap = 2000; }
    let faults = g.r.chance(0.4);
    if faults { c.p_read_err = 0.05; c.p_write_err = 0.05; c.p_accept_err = 0.05; }
    let mut s = base("C15", index, seed, arch, c, "mix");
    s.oracle.leaks = true;
    let n = g.r.range(2, 5);
    let per = g.r.range(30, 45) / n;
    let keys = ["i1", "v1", "m1"];
    for _ in 0..n {
        let mut steps = vec![];
        for _ in 0..per {
            let mut q = g.req(vec![]);
            match g.r.below(12) {
                0 => { q.body = Body::Text(hostile_text(g)); }
                1 => { q.body = Body::Raw(raw_bad(g)); q.end = End::HalfClose; }
                2 => { let t = g.unparsable(&keys); q.body = Body::Query(vec![Stmt::Bad(t)]); }
                3 => { q.body = Body::Query(vec![Stmt::Get("i1".into())]); q.user = [User::Missing, User::Rejected, User::Unknown("q".into())][g.r.below(3) as usize].clone(); }
                4 | 5 | 6 => {
                    let b = g.batch(&keys, 2, 0.0);
                    q.body = Body::Query(b);
                    let len = crate::http::render(&q).len() as u64;
                    let at = g.r.below(len) as usize;
                    q.end = match g.r.below(7) { 0 => End::FinAt(at.max(1)), 1 => End::CloseAt(at), 2 => End::ResetAt(at), 3 => End::CloseAfter(g.r.below(5 * MS)), 4 => End::ResetAfter(g.r.below(5 * MS)), 5 => End::SlowRead(20, MS), _ => if g.r.chance(0.15) { End::StallAt(at, g.r.range(100 * MS, 2 * SEC)) } else { End::CloseAt(0) } };
                }
                _ => { let b = g.batch(&keys, 3, 0.2); q.body = Body::Query(b); }
            }
            if q.end == End::Normal && g.r.chance(0.15) { q.end = End::Linger(g.r.range(10 * MS, 60 * SEC)); }
            if faults && g.r.chance(0.3) { q.faulty = true; }
            q.patience = 150 * SEC;
            steps.push(Step::Req(q));
        }
        s.clients.push(Client { steps });
    }
    s.settle = 16 * SEC;
    s
}

fn c16(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([3, 4, 3]);
    let mut c = g.knobs(arch);
    c.p_accept_err = *g.r.pick(&[0.0, 0.1, 0.3]);
    c.p_read_err = *g.r.pick(&[0.0, 0.15, 0.3]);
    c.p_write_err = *g.r.pick(&[0.0, 0.15, 0.3]);
    c.p_short_write = *g.r.pick(&[0.0, 0.3]);
    c.fault_until = *g.r.pick(&[200 * MS, 30 * SEC]);
    if arch.is_multi() && g.r.chance(0.35) { c.p_thread_err = *g.r.pick(&[0.02, 0.1, 0.4]); }
    if g.r.chance(0.25) { c.p_log_err = *g.r.pick(&[0.05, 0.5, 1.0]); }
    let mut s = base("C16", index, seed, arch, c, "failing calls");
    let keys = ["i1", "v1", "m1"];
    let n = g.r.range(1, 3);
    for ci in 0..n {
        let mut steps = vec![];
        if ci == 0 { let u = g.uniq(); steps.push(Step::Req(g.req(vec![Stmt::Set("v1".into(), Val::Vec(Ty::Int, vec![]), None), Stmt::Set("i1".into(), Val::Int(u), None), Stmt::Set("m1".into(), Val::Map(Ty::Int, Ty::Int, vec![]), None)]))); }
        steps.push(Step::Barrier(1));
        for _ in 0..g.r.range(3, 6) {
            let b = if g.r.chance(0.3) { g.atomic() } else { g.batch(&keys, 3, 0.0) };
            let mut q = g.req(b);
            q.faulty = g.r.chance(0.6);
            if g.r.chance(0.3) { g.cuts(&mut q, 30 * MS); }
            steps.push(Step::Req(q));
        }
        steps.push(Step::Barrier(2));
        for k in keys { let p = g.probe(k); steps.push(p); }
        s.clients.push(Client { steps });
    }
    if g.r.chance(0.4) { let errno = *g.r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ECONNABORTED, libc::EINTR, libc::ENOMEM, libc::EPROTO]); s.timeline.push(Tl { at: g.r.range(MS, 40 * MS), kind: TlKind::AcceptErr { n: g.r.range(1, 20) as u32, errno } }); }
    s
}

fn c17(g: &mut G, index: u64, seed: u64) -> Scenario {
    let arch = g.arch([2, 3, 3]);
    let mut c = g.knobs(arch);
    c.slice_p = c.slice_p.min(0.1);
    if arch.is_multi() { c.tick = 10 * MS; c.lazy = SEC; c.spin_max = 100 * MS; c.spin_cap = 1500; }
    let mut s = base("C17", index, seed, arch, c, "clock steps");
    let keys = ["i1", "i2", "v1", "m1"];
    let span = if arch.is_multi() { 8 * SEC } else { 4 * SEC };
    let mut all = vec![];
    for _ in 0..g.r.range(1, 2) {
        let mut times: Vec<u64> = (0..g.r.range(8, 14)).map(|_| g.r.below(span)).collect();
        times.sort();
        all.extend(times.clone());
        let mut steps = vec![];
        for (i, t) in times.into_iter().enumerate() {
            steps.push(Step::WaitUntil(t));
            let b = if i < 3 {
                let k = g.key(&keys);
                let l = if g.r.chance(0.7) { Some(*g.r.pick(&[1, 2, 5, 60, 3600, 100_000])) } else { None };
                let v = match &k[..1] { "v" => Val::Vec(Ty::Int, vec![Val::Int(g.uniq())]), "m" => Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(g.uniq()))]), _ => Val::Int(g.uniq()) };
                vec![Stmt::Set(k, v, l)]
            } else if g.r.chance(0.5) { let k = g.key(&keys); vec![around(g, &k)] } else { g.batch(&keys, 2, 0.5) };
            steps.push(Step::Req(g.req(b)));
        }
        steps.push(Step::Barrier(2));
        steps.extend(g.read_all(&keys));
        steps.push(Step::Barrier(3));
        s.clients.push(Client { steps });
    }
    if g.r.chance(0.12) {
        // and in the end the server has to stop, whatever the clock says
        s.kind = "clock steps, shutdown".into();
        let mut q = g.req(vec![Stmt::Shutdown]);
        q.user = User::Admin;
        s.clients[0].steps.push(Step::Req(q));
        s.settle = 60 * SEC;
        for _ in 0..g.r.range(1, 2) { let d = jump(g); s.timeline.push(Tl { at: span + g.r.below(1500 * MS), kind: TlKind::Jump(d) }); }
    }
    if g.r.chance(0.4) { steps_at_reads(g, &mut s.cfg); }
    for _ in 0..g.r.range(1, 4) {
        let d = jump(g);
        // at any time, or while a request is under way
        let at = if g.r.chance(0.5) { g.r.below(span) } else { *g.r.pick(&all) + g.r.below(3 * MS) };
        s.timeline.push(Tl { at, kind: TlKind::Jump(d) });
        if g.r.chance(0.3) { s.timeline.push(Tl { at: at.saturating_sub(g.r.below(MS)), kind: TlKind::Stall { pick: g.r.next() >> 8, dur: g.r.range(10 * MS, 90 * MS) } }); }
    }
    // requests that take a while
    if g.r.chance(0.4) { let at = *g.r.pick(&all) + g.r.below(2 * MS); s.timeline.push(Tl { at, kind: TlKind::Stall { pick: g.r.next() >> 8, dur: g.r.range(12 * MS, 180 * MS) } }); }
    s
}
/// Many requests that leave the stored data as it was: memory must be as it was, too.
fn c19(g: &mut G, index: u64, seed: u64) -> Scenario {
    use Stmt::*;
    let arch = g.arch([3, 3, 4]);
    let mut c = g.knobs(arch);
    c.slice_p = c.slice_p.min(0.1);
    c.nap_p = 0.0;
    if arch.is_multi() { c.tick = *g.r.pick(&[2 * MS, 10 * MS]); c.lazy = SEC; c.spin_max = 10 * MS; c.spin_cap = 6000; }
    if g.r.chance(0.2) { c.p_read_err = 0.1; c.p_write_err = 0.1; c.p_accept_err = 0.05; }
    let mut s = base("C19", index, seed, arch, c, "churn");
    s.oracle.churn = true;
    let n = g.r.range(1, 3);
    let total = *g.r.pick(&[250, 400, 600]);
    let kind = g.r.below(12);
    if !matches!(arch, Arch::Single) && g.r.chance(0.06) {
        // nobody asks for anything for hours
        s.kind = "idle".into();
        let l = if g.r.chance(0.5) { Some(1_000_000) } else { None };
        let q = g.req(vec![Set("i1".into(), Val::Int(1), None), Set("i2".into(), Val::Int(2), l)]);
        let p = g.probe("i1");
        let hours = if arch.is_multi() { g.r.range(4000, 12_000) } else { g.r.range(400, 1600) };
        s.cfg.horizon = 40_000 * SEC;
        s.clients.push(Client { steps: vec![Step::Req(q), p.clone(), Step::Wait(30 * SEC), Step::HeapMark, Step::Wait(hours * SEC), p] });
        s.settle = 4 * SEC;
        return s;
    }
    for ci in 0..n {
        let (i, v, m, t) = (format!("i{}", ci), format!("v{}", ci), format!("m{}", ci), format!("t{}", ci));
        let setup = |g: &mut G| -> Vec<Step> {
            let b = vec![Set(i.clone(), Val::Int(7), None), Set(v.clone(), Val::Vec(Ty::Int, (0..20).map(Val::Int).collect()), None), Set(m.clone(), Val::Map(Ty::Int, Ty::Int, (0..10).map(|x| (Val::Int(x), Val::Int(x))).collect()), None), Set(t.clone(), Val::Str("t".repeat(200)), None)];
            let mut q = g.req(b);
            q.tag = "keep".into();
            vec![Step::Req(q)]
        };
        let mut one = |g: &mut G| -> Step {
            let mut q = g.req(vec![]);
            let kind = match kind { 11 => g.r.below(11), k => if g.r.chance(0.1) { g.r.below(11) } else { k } };
            let u = g.uniq();
            let len = g.r.range(100, 400) as usize;
            let long = format!("{}_{}", ["k", "keY", "q"][g.r.below(3) as usize].repeat(len / 3), u);
            match kind {
                0 => { let b = vec![Set(t.clone(), Val::Str("x".repeat(len)), None), VPush(v.clone(), Val::Int(u)), VPop(v.clone()), MSet(m.clone(), Val::Int(99), Val::Int(u)), MDel(m.clone(), Val::Int(99))]; q.body = Body::Query(b) }
                1 => { let x = g.value(); let k = format!("{}_{}", t, u); q.body = Body::Query(vec![Set(k.clone(), x, None), Get(k.clone()), Del(k)]) }
                2 => { q.body = Body::Query(vec![match g.r.below(5) { 0 => Get(long), 1 => Type(long), 2 => VPush(long, Val::Int(1)), 3 => MGet(long, Val::Int(1)), _ => Upd(long, Val::Int(1), None) }]) }
                3 => { q.body = Body::Query(vec![Bad(format!("bogus {} {}", long, u))]) }
                4 => { q.body = Body::Query(vec![Get(t.clone())]); q.user = match g.r.below(4) { 0 => User::Missing, 1 => User::Rejected, _ => User::Unknown(long) } }
                5 => { q.body = Body::Query(vec![Set(long, Val::Int(u), None)]); q.user = User::Read }
                6 => { q.body = Body::Raw(raw_bad(g)); q.end = End::HalfClose }
                7 => { q.body = Body::Query(vec![TryGet(long)]); let at = g.r.below(crate::http::render(&q).len() as u64) as usize; q.end = match g.r.below(3) { 0 => End::CloseAt(at), 1 => End::ResetAt(at), _ => End::FinAt(at.max(1)) } }
                8 => { q.body = Body::Query(vec![Get(t.clone())]); q.end = if g.r.chance(0.5) { End::CloseAfter(g.r.below(2 * MS)) } else { End::ResetAfter(g.r.below(2 * MS)) } }
                9 => { q.body = Body::Query(vec![TrySet(i.clone(), Val::Str(long.clone()), None), TrySet(t.clone(), Val::Str(long), Some(50)), Ex(v.clone()), MLen(m.clone())]) }
                _ => { q.body = Body::Query(vec![Set(i.clone(), Val::Int(u), Some(1000)), Get(v.clone()), TryGet(m.clone()), Get(t.clone())]) }
            }
            q.patience = 150 * SEC;
            q.faulty = g.r.chance(0.3) && (!q.end.reads() || matches!(&q.body, Body::Query(b) if !b.iter().any(|x| x.is_write())));
            Step::Req(q)
        };
        let mut steps = setup(g);
        for _ in 0..g.r.range(30, 50) / n { let st = one(g); steps.push(st); }
        steps.push(Step::Barrier(1));
        steps.extend(setup(g));
        if ci == 0 { steps.push(Step::Wait(3 * SEC)); steps.push(Step::HeapMark); }
        steps.push(Step::Barrier(3));
        for _ in 0..total / n { let st = one(g); steps.push(st); }
        steps.push(Step::Barrier(4));
        steps.extend(setup(g));
        s.clients.push(Client { steps });
    }
    s.settle = 4 * SEC;
    s
}
/// The clock is set just when somebody looks at it.
fn steps_at_reads(g: &mut G, c: &mut Cfg) {
    c.p_step = *g.r.pick(&[0.02, 0.1, 0.4]);
    c.step_n = g.r.range(1, 4) as u32;
    c.step_max = *g.r.pick(&[MS, 100 * MS, 3 * SEC, 3600 * SEC, 40_000_000 * SEC]);
    c.fault_until = 3600 * SEC;
}
fn jump(g: &mut G) -> i64 {
    let m = *g.r.pick(&[100 * MS, SEC, 3 * SEC, 10 * SEC, 3600 * SEC, 86_400 * SEC, 40_000_000 * SEC]);
    let d = g.r.range(1, m) as i64;
    if g.r.chance(0.5) { d } else { -d }
}

/// Sizes around the limits of narrow integers and beyond.
fn scale(g: &mut G, prop: &str, index: u64, seed: u64) -> Scenario {
    use Stmt::*;
    let mut c = cfg();
    c.spin_cap = 400_000_000;
    c.ns_block = 1;
    let mut s = base(prop, index, seed, Arch::Lib, c, "library, large");
    let n = match g.r.below(12) { 0..=2 => g.r.range(250, 262), 3 => g.r.range(500, 520), 4 => g.r.range(1020, 1030), 5 => g.r.range(4090, 4100), 6 => 10_000, 7 => g.r.range(16_380, 16_390), 8 => g.r.range(32_764, 32_772), 9 => g.r.range(65_530, 65_540), 10 => 70_000, _ => g.r.range(200, 5000) };
    let at = |g: &mut G| -> u64 { match g.r.below(4) { 0 => n - 1 - g.r.below(4), 1 => *g.r.pick(&[0, 127, 128, 254, 255, 256, 257]) % n, 2 => *g.r.pick(&[1023, 1024, 4095, 4096, 32_767, 32_768, 65_535, 65_536]) % n, _ => g.r.below(n) } };
    let mut bs: Vec<Vec<Stmt>> = vec![];
    let k = match g.r.below(5) { 0 => "k".repeat(n as usize), _ => "v1".to_string() };
    let l = if matches!(prop, "C04" | "C12") { Some(1_000_000) } else { None };
    let (t, base) = (*g.r.pick(&[Ty::Int, Ty::Int, Ty::Str, Ty::Float, Ty::Bool]), g.uniq());
    let el = move |i: u64| match t { Ty::Int => Val::Int(base + i as i64), Ty::Str => Val::Str(format!("e{}", i)), Ty::Float => Val::f(i as f32 / 4.0), Ty::Bool => Val::Bool(i * i % 7 < 3) };
    match g.r.below(4) {
        0 | 1 => {
            bs.push(vec![Set(k.clone(), Val::Vec(t, (0..n).map(el).collect()), l), VLen(k.clone())]);
            for _ in 0..g.r.range(6, 14) {
                let i = at(g);
                bs.push(match g.r.below(6) { 0 => vec![VPush(k.clone(), el(n + i)), VLen(k.clone())], 1 => vec![VSet(k.clone(), i, el(n + 1)), VGet(k.clone(), i)], 2 => vec![VPop(k.clone())], 3 => vec![VGet(k.clone(), n + g.r.below(20))], _ => vec![VGet(k.clone(), i)] });
            }
            bs.push(vec![Get(k.clone())]);
            bs.push(vec![VLen(k.clone())]);
        }
        2 => {
            let kt = g.kt();
            let key = move |i: u64| if kt == Ty::Int { Val::Int(i as i64) } else { Val::Str(format!("k{}", i)) };
            bs.push(vec![Set(k.clone(), Val::Map(kt, t, (0..n).map(|i| (key(i), el(i))).collect()), l), MLen(k.clone())]);
            for _ in 0..g.r.range(6, 14) {
                let i = at(g);
                bs.push(match g.r.below(6) { 0 => vec![MSet(k.clone(), key(n + i), el(i)), MLen(k.clone())], 1 => vec![MSet(k.clone(), key(i), el(n + 1)), MGet(k.clone(), key(i))], 2 => vec![MDel(k.clone(), key(i)), MLen(k.clone())], 3 => vec![MEx(k.clone(), key(i))], _ => vec![MGet(k.clone(), key(i))] });
            }
            bs.push(vec![Get(k.clone())]);
            bs.push(vec![MLen(k.clone())]);
        }
        _ => {
            let part = g.string(40);
            let mut x = String::new();
            while (x.chars().count() as u64) < n { x.push_str(&part); x.push('a') }
            let x: String = x.chars().take(n as usize).collect();
            bs.push(vec![Set(k.clone(), Val::Str(x.clone()), l), Get(k.clone())]);
            bs.push(vec![TrySet(k.clone(), Val::Str(x.clone()), None), Ex(k.clone())]);
            bs.push(vec![Upd(k.clone(), Val::Vec(Ty::Str, vec![Val::Str(x.clone()), Val::Str("b".into())]), None), Get(k.clone())]);
            bs.push(vec![Set(k.clone(), Val::Map(Ty::Str, Ty::Str, vec![(Val::Str(x.clone()), Val::Str(x.clone()))]), None), MGet(k.clone(), Val::Str(x))]);
        }
    }
    bs.push(vec![Type(k.clone())]);
    if g.r.chance(0.5) { bs.push(vec![Del(k.clone())]); bs.push(vec![TryGet(k)]); }
    for b in bs {
        let style = if g.r.chance(0.5) { Some(g.r.next()) } else { None };
        let user = if g.r.chance(0.5) { User::Write } else { User::Admin };
        s.lib.push(LibOp::Batch(user, b, style));
    }
    s.lib.push(LibOp::Counts);
    s.lib.push(LibOp::ReadAll);
    s
}
/// Library-level histories.
fn lib(g: &mut G, prop: &str, index: u64, seed: u64) -> Scenario {
    let mut c = cfg();
    c.spin_cap = 400_000_000;
    c.ns_block = 5;
    let mut s = base(prop, index, seed, Arch::Lib, c, "library");
    if prop == "C17" && g.r.chance(0.3) { steps_at_reads(g, &mut s.cfg); }
    let mut o: Vec<LibOp> = vec![];
    if prop == "C02" && g.r.chance(0.012) { return scale(g, prop, index, seed) }
    let many = matches!(prop, "C02" | "C04" | "C05" | "C06") && g.r.chance(0.03);
    let crowd = many && g.r.chance(0.2);
    // C05 and C06 use more keys, so that many of the expiring ones are around at once
    let names: Vec<String> = { let n = if crowd { *g.r.pick(&[200, 262, 262, 300, 520, 1040]) } else if many { g.r.range(30, 150) } else { match prop { "C05" | "C06" => g.r.range(2, 14), "C12" => g.r.range(1, 4), _ => g.r.range(2, 5) } }; (0..n).map(|i| format!("{}{}", ["i", "v", "m"][i as usize % 3], i)).collect() };
    let keys: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let steps = if many { g.r.range(100, 400) } else { g.r.range(15, 70) };
    if many { s.kind = "library, many keys".into(); }
    if crowd {
        // all there from the start, most of them with a lifetime
        let p = *g.r.pick(&[0.5, 0.9, 1.0]);
        for part in names.chunks(40) {
            let b = part.iter().map(|k| { let l = if g.r.chance(p) { Some(*g.r.pick(&[1, 2, 3, 5, 1000, 1000])) } else { None }; let u = g.uniq();
                Stmt::Set(k.clone(), match &k[..1] { "v" => Val::Vec(Ty::Int, vec![Val::Int(u)]), "m" => Val::Map(Ty::Int, Ty::Int, vec![(Val::Int(1), Val::Int(u))]), _ => Val::Int(u) }, l) }).collect();
            o.push(LibOp::Batch(User::Write, b, None));
        }
        o.push(LibOp::Counts);
        s.kind = "library, crowd".into();
    }
    let pl = match prop { "C02" | "C03" => 0.05, "C04" | "C12" => 0.7, _ => 0.6 };
    for _ in 0..steps {
        let x = g.r.below(100);
        let style = if g.r.chance(0.5) { Some(g.r.next()) } else { None };
        let expire = match prop { "C05" => 30, "C06" => 22, "C04" => 8, "C12" => 6, "C17" => 10, _ => 3 };
        let sleep = match prop { "C02" | "C03" => 2, "C06" | "C12" | "C04" => 22, _ => 18 };
        let life = match prop { "C12" => 40, "C05" => 4, "C06" => 6, "C17" => 8, _ => 0 };
        let jumps = if prop == "C17" { 14 } else { 0 };
        if x < expire {
            if prop == "C06" && g.r.chance(0.15) { o.push(LibOp::Drain) }
            else if g.r.chance(0.2) { o.push(LibOp::CheckExpire(g.key(&keys))) }
            else { o.push(LibOp::Expire(g.r.range(1, 12) as u32, g.r.chance(0.5))) }
        } else if x < expire + sleep {
            o.push(LibOp::Sleep(match g.r.below(5) { 0 => g.r.below(MS), 1 => g.r.below(400 * MS), 2 => g.r.below(1100 * MS), 3 => SEC * g.r.range(1, 3), _ => g.r.below(4 * SEC) }))
        } else if x < expire + sleep + life {
            let k = g.key(&keys);
            if g.r.chance(0.45) { o.push(LibOp::GetLifetime(k)) }
            else {
                let l = match g.r.below(8) { 0 | 1 => None, 2..=5 => Some(g.r.below(5)), 6 => Some(g.r.range(5, 1_000_000)), _ => Some(*g.r.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 62, u32::MAX as u64, 1 << 40])) };
                o.push(LibOp::SetLifetime(k, l))
            }
        } else if x < expire + sleep + life + jumps {
            o.push(LibOp::Jump(jump(g)))
        } else if x >= 97 { o.push(LibOp::Counts) }
        else {
            let b = match prop {
                "C02" => { let k = g.key(&keys); if g.r.chance(0.6) { let mut b = rich(g, &k); if g.r.chance(0.4) { b.push(Stmt::Get(k)) } b } else { vec![Stmt::TryGet(k)] } }
                "C03" => { let top = if g.r.chance(0.02) { 150 } else { 6 }; let mut b = g.batch(&keys, top, pl); if g.r.chance(0.5) { let f = failing(g); let i = g.r.below(b.len() as u64 + 1) as usize; b.insert(i, f) } b }
                "C04" | "C12" => { let k = g.key(&keys); match g.r.below(4) { 0 | 1 => vec![around(g, &k)], 2 => { let st = g.stmt(&keys, pl); vec![st] } _ => { let n = g.uniq(); let l = match g.r.below(9) { 0 => Some(*g.r.pick(&[i64::MAX as u64, u64::MAX, 1 << 62, u64::MAX / 2 + 5, 1 << 45])), 1 => None, _ => Some(g.r.below(4)) }; vec![Stmt::Set(k, Val::Int(n), l)] } } }
                _ => g.batch(&keys, 3, pl),
            };
            let mut st = style;
            // lifetimes above i64::MAX cannot be written in a query
            let big = b.iter().any(|s| matches!(s, Stmt::Set(_, _, Some(l)) | Stmt::TrySet(_, _, Some(l)) | Stmt::Upd(_, _, Some(l)) if *l > i64::MAX as u64));
            // (null and a lifetime: no text for it)
            let nul = b.iter().any(|s| matches!(s, Stmt::Set(_, Val::Null, Some(_)) | Stmt::TrySet(_, Val::Null, Some(_)) | Stmt::Upd(_, Val::Null, Some(_))));
            if big || nul { st = None }
            let user = if g.r.chance(0.04) { User::Read } else if g.r.chance(0.5) { User::Write } else { User::Admin };
            o.push(LibOp::Batch(user, b, st));
        }
        if g.r.chance(0.12) { let k = g.key(&keys); o.push(LibOp::Batch(User::Read, vec![Stmt::TryGet(k)], None)) }
    }
    o.push(LibOp::Counts);
    o.push(LibOp::ReadAll);
    if matches!(prop, "C05" | "C06" | "C04" | "C12") { o.push(LibOp::Sleep(g.r.below(6 * SEC))); o.push(LibOp::Drain); o.push(LibOp::ReadAll); }
    s.lib = o;
    s
}
