//! Linearizability of a recorded history against the reference model (depth-first search with memoisation).
use crate::http::Obs;
use crate::model::{self, State, Win};
use crate::scenario::User;
use crate::stmt::Stmt;
use std::collections::HashMap;

pub struct LOp {
    pub label: String,
    pub inv: u64,
    /// None: no definite answer; it may have been executed at any time after `inv` (up to `late`), or never.
    pub ret: Option<u64>,
    pub late: u64,
    pub user: User,
    pub stmts: Vec<Stmt>,
    pub obs: Option<Obs>,
}
pub enum Verdict { Ok(u64), Bad(String), Unknown }

/// Which operations are done.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
struct Mask([u64; MAX_OPS / 64]);
const MAX_OPS: usize = 1024;
impl Mask {
    fn has(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
    fn within(&self, o: &Mask) -> bool { self.0.iter().zip(o.0.iter()).all(|(a, b)| a & !b == 0) }
    fn with(&self, i: usize) -> Mask { let mut m = *self; m.0[i / 64] |= 1 << (i % 64); m }
}

struct Search<'a> {
    ops: &'a [LOp],
    clock: &'a [(u64, i64)],
    monotone: bool,
    /// what was tried: which answered operations were done and the state; then, which of the others were done to get there
    memo: HashMap<(Mask, u64), Vec<Mask>>,
    nodes: u64,
    best: (usize, Mask, State),
    order: Vec<usize>,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

impl<'a> Search<'a> {
    fn go(&mut self, mask: Mask, extra: Mask, st: &State, floor: u64, done: usize) -> Option<bool> {
        self.nodes += 1;
        if self.nodes > 150_000 { return None }
        if done > self.best.0 { self.best = (done, mask, st.clone()); }
        let mut min_ret = u64::MAX;
        let mut open = false;
        for (i, o) in self.ops.iter().enumerate() {
            if mask.has(i) { continue }
            if let Some(r) = o.ret { min_ret = min_ret.min(r); open = true; }
        }
        if !open { return Some(true) }
        // the same with fewer of the optional operations spent was tried already: nothing more to be had
        let tried = self.memo.entry((mask, hash(&st.canon()))).or_default();
        if tried.iter().any(|x| x.within(&extra)) { return Some(false) }
        tried.retain(|x| !extra.within(x));
        tried.push(extra);
        for idx in 0..self.order.len() {
            let i = self.order[idx];
            if mask.has(i) || extra.has(i) { continue }
            let o = &self.ops[i];
            if o.inv > min_ret { continue }
            let a = o.inv.max(floor);
            let b = o.ret.unwrap_or(o.late).min(min_ret.max(a));
            let w = Win { clock: self.clock, a, b: b.max(a), monotone: self.monotone };
            for (want, next) in model::request(st, &o.user, &o.stmts, &w) {
                if let Some(obs) = &o.obs { if !model::matches(&want, obs) { continue } }
                let (m, e) = if o.ret.is_some() { (mask.with(i), extra) } else { (mask, extra.with(i)) };
                match self.go(m, e, &next, a, done + o.ret.is_some() as usize) {
                    Some(true) => return Some(true),
                    None => return None,
                    Some(false) => {}
                }
            }
        }
        Some(false)
    }
}

pub fn check(ops: &[LOp], clock: &[(u64, i64)]) -> Verdict {
    // answered operations, and unanswered ones that could have an effect
    let ops: Vec<&LOp> = ops.iter().filter(|o| o.ret.is_some() || (!o.stmts.iter().any(|s| matches!(s, Stmt::Bad(_)))
        && o.stmts.iter().any(|s| s.is_write() || *s == Stmt::Shutdown) && matches!(o.user, User::Admin | User::Write))).collect();
    if ops.len() > MAX_OPS { return Verdict::Unknown }
    let owned: Vec<LOp> = ops.iter().map(|o| LOp { label: o.label.clone(), inv: o.inv, ret: o.ret, late: o.late, user: o.user.clone(), stmts: o.stmts.clone(), obs: o.obs.clone() }).collect();
    let monotone = clock.windows(2).all(|w| w[1].1 >= w[0].1);
    let mut order: Vec<usize> = (0..owned.len()).collect();
    order.sort_by_key(|i| (owned[*i].ret.is_none(), owned[*i].ret.unwrap_or(0), owned[*i].inv));
    let mut s = Search { ops: &owned, clock, monotone, memo: HashMap::new(), nodes: 0, best: (0, Mask::default(), State::default()), order };
    match s.go(Mask::default(), Mask::default(), &State::default(), 0, 0) {
        Some(true) => Verdict::Ok(s.nodes),
        None => Verdict::Unknown,
        Some(false) => {
            let (n, mask, st) = s.best.clone();
            let total = owned.iter().filter(|o| o.ret.is_some()).count();
            let mut t = format!("no order of the requests explains the responses; longest explained prefix: {} of {} answered requests, leaving {{{}}}; then:", n, total, short(&st.canon(), 400));
            let min_ret = owned.iter().enumerate().filter(|(i, o)| !mask.has(*i) && o.ret.is_some()).map(|(_, o)| o.ret.unwrap()).min().unwrap_or(u64::MAX);
            for (i, o) in owned.iter().enumerate() {
                if mask.has(i) || o.inv > min_ret || o.obs.is_none() { continue }
                let a = o.inv;
                let w = Win { clock, a, b: o.ret.unwrap_or(o.late).max(a), monotone };
                let wants: Vec<String> = model::request(&st, &o.user, &o.stmts, &w).iter().map(|x| model::show(&x.0)).collect();
                t.push_str(&format!(" [{} {:?} {}: expected {}, got {}]", o.label, o.user, short(&format!("{:?}", o.stmts), 500), short(&wants.join(" or "), 400),
                    o.obs.as_ref().map_or("-".into(), |x| short(&model::show_obs(x), 400))));
                if t.len() > 2500 { break }
            }
            Verdict::Bad(t)
        }
    }
}
pub fn short(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "..." } }
