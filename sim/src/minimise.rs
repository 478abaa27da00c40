//! Makes a violating run small: first the scenario (clients, steps, statements, faults, knobs), each candidate being a
//! new seeded run; then the recorded choices of the remaining run, of which as many as possible are replaced by the
//! benign default (no pre-emption, no fault, least delay, next thread in turn).
use crate::lib_run::LibOp;
use crate::run::{run, RunOut, Shm, Viol, Want};
use crate::scenario::*;
use crate::{raw, rng::TapeData};

struct M<'a> { class: &'a str, shm: &'a Shm, deadline: f64, accept: &'a dyn Fn(&Viol) -> bool, tried: u64 }
impl<'a> M<'a> {
    fn over(&self) -> bool { raw::real_now() > self.deadline }
    fn test(&mut self, sc: &Scenario) -> Option<RunOut> {
        self.tried += 1;
        let o = run(sc, self.shm, Want { tapes: true, log: true }, 60);
        if o.viol.iter().any(|v| v.class == self.class && (self.accept)(v)) { Some(o) } else { None }
    }
    /// Tries the candidate, with a few other seeds too.
    fn attempt(&mut self, cur: &mut (Scenario, RunOut), cand: Scenario) -> bool {
        for s in 0..3u64 {
            if self.over() { return false }
            let mut c = cand.clone();
            c.seed = c.seed.wrapping_add(s * 7919);
            if let Some(o) = self.test(&c) { *cur = (c, o); return true }
            if cand.arch == Arch::Lib { break }
        }
        false
    }
    /// Removes as many elements as possible of the list that `f` finds in a scenario.
    fn shrink_list(&mut self, cur: &mut (Scenario, RunOut), len: impl Fn(&Scenario) -> usize, cut: impl Fn(&mut Scenario, usize, usize)) -> bool {
        let mut any = false;
        let mut size = len(&cur.0).max(1);
        loop {
            let mut at = 0;
            while at < len(&cur.0) {
                if self.over() { return any }
                let n = size.min(len(&cur.0) - at);
                let mut c = cur.0.clone();
                cut(&mut c, at, n);
                if self.attempt(cur, c) { any = true } else { at += n }
            }
            if size == 1 { return any }
            size = (size + 1) / 2;
        }
    }
    fn simplify(&mut self, cur: &mut (Scenario, RunOut), f: impl Fn(&mut Scenario) -> bool) -> bool {
        let mut c = cur.0.clone();
        if !f(&mut c) || self.over() { return false }
        self.attempt(cur, c)
    }
}

fn req(s: &mut Scenario, c: usize, i: usize) -> Option<&mut Req> {
    match s.clients.get_mut(c).and_then(|c| c.steps.get_mut(i)) { Some(Step::Req(q)) => Some(q), _ => None }
}

pub fn minimise(sc: &Scenario, class: &str, shm: &Shm, budget: f64, accept: &dyn Fn(&Viol) -> bool) -> Option<(Scenario, RunOut, String)> {
    let t0 = raw::real_now();
    let mut m = M { class, shm, deadline: t0 + budget * 0.65, accept, tried: 0 };
    let first = m.test(sc)?;
    let mut cur = (sc.clone(), first);
    loop {
        let mut any = false;
        any |= m.shrink_list(&mut cur, |s| s.lib.len(), |s, a, n| { s.lib.drain(a..a + n); });
        if cur.0.clients.len() > 1 { any |= m.shrink_list(&mut cur, |s| s.clients.len(), |s, a, n| { if n < s.clients.len() { s.clients.drain(a..a + n); } }); }
        any |= m.shrink_list(&mut cur, |s| s.timeline.len(), |s, a, n| { s.timeline.drain(a..a + n); });
        for c in 0..cur.0.clients.len() { any |= m.shrink_list(&mut cur, |s| s.clients.get(c).map_or(0, |x| x.steps.len()), |s, a, n| {
            // (what brings the data back to where it was has to stay: without it the candidate counts as no violation)
            if s.oracle.churn && s.clients[c].steps[a..a + n].iter().any(|x| !matches!(x, Step::Req(q) if q.tag.is_empty())) { s.oracle.churn = false }
            s.clients[c].steps.drain(a..a + n);
        }); }
        for i in 0..cur.0.lib.len() {
            any |= m.shrink_list(&mut cur, |s| match s.lib.get(i) { Some(LibOp::Batch(_, b, _)) if b.len() > 1 => b.len(), _ => 0 }, |s, a, n| if let LibOp::Batch(_, b, _) = &mut s.lib[i] { b.drain(a..a + n); });
        }
        for c in 0..cur.0.clients.len() {
            if cur.0.oracle.churn { continue }
            for i in 0..cur.0.clients[c].steps.len() {
                any |= m.shrink_list(&mut cur, |s| match s.clients.get(c).and_then(|x| x.steps.get(i)) { Some(Step::Req(Req { body: Body::Query(b), .. })) if b.len() > 1 => b.len(), _ => 0 }, |s, a, n| if let Some(Req { body: Body::Query(b), .. }) = req(s, c, i) { b.drain(a..a + n); });
                any |= m.simplify(&mut cur, |s| req(s, c, i).map_or(false, |q| { let r = !q.cuts.is_empty(); q.cuts.clear(); r }));
                any |= m.simplify(&mut cur, |s| req(s, c, i).map_or(false, |q| { let r = q.end != End::Normal; q.end = End::Normal; r }));
                any |= m.simplify(&mut cur, |s| req(s, c, i).map_or(false, |q| { let r = q.faulty; q.faulty = false; r }));
            }
        }
        any |= m.simplify(&mut cur, |s| { let c = &mut s.cfg; let r = c.p_spurious + c.p_accept_err + c.p_read_err + c.p_write_err + c.p_short_write + c.p_thread_err + c.p_log_err > 0.0; c.p_thread_err = 0.0; c.p_log_err = 0.0; c.p_spurious = 0.0; c.p_accept_err = 0.0; c.p_read_err = 0.0; c.p_write_err = 0.0; c.p_short_write = 0.0; r });
        any |= m.simplify(&mut cur, |s| { let c = &mut s.cfg; let r = c.p_step > 0.0; c.p_step = 0.0; r });
        any |= m.simplify(&mut cur, |s| { let r = s.cfg.slice_p > 0.0; s.cfg.slice_p = 0.0; r });
        any |= m.simplify(&mut cur, |s| { let r = s.cfg.policy != 0; s.cfg.policy = 0; r });
        any |= m.simplify(&mut cur, |s| { let r = s.cfg.lat_max != s.cfg.lat_min || s.cfg.sleep_slack > 0; s.cfg.lat_max = s.cfg.lat_min; s.cfg.sleep_slack = 0; r });
        any |= m.simplify(&mut cur, |s| { let r = matches!(s.arch, Arch::MultiMain | Arch::Multi(..)) && s.arch != Arch::Multi(1, 1); if r { s.arch = Arch::Multi(1, 1) } r });
        any |= m.simplify(&mut cur, |s| { let r = matches!(s.arch, Arch::Async(n) if n > 1); if r { s.arch = Arch::Async(1) } r });
        any |= m.simplify(&mut cur, |s| { let r = !s.clients.is_empty() && s.settle > 20_000_000 && class != "leak" && class != "memory"; if r { s.settle = 20_000_000 } r });
        if !any || m.over() { break }
    }
    let structural = m.tried;
    let mut note = format!("scenario: {} candidate runs", structural);
    // the choices
    if let (Some(t), true) = (cur.1.tapes.clone(), cur.0.arch != Arch::Lib) {
        m.deadline = t0 + budget;
        let mut all: Vec<(u8, (u64, u64))> = vec![];
        for (i, d) in [&t.sched, &t.slice, &t.net, &t.fault].iter().enumerate() { all.extend(d.0.iter().map(|x| (i as u8, *x))) }
        let build = |l: &[(u8, (u64, u64))]| { let g = |i: u8| TapeData(l.iter().filter(|x| x.0 == i).map(|x| x.1).collect()); Tapes { sched: g(0), slice: g(1), net: g(2), fault: g(3) } };
        let mut c = cur.0.clone();
        c.tapes = Some(t);
        match m.test(&c) {
            None => note += "; the recorded choices did not reproduce it, so the file holds the seed only",
            Some(o) => {
                cur = (c, o);
                let n0 = all.len();
                let mut size = all.len().max(1);
                'outer: loop {
                    let mut at = 0;
                    while at < all.len() {
                        if m.over() { break 'outer }
                        let n = size.min(all.len() - at);
                        let mut l = all.clone();
                        l.drain(at..at + n);
                        let mut c = cur.0.clone();
                        c.tapes = Some(build(&l));
                        if let Some(o) = m.test(&c) { all = l; cur = (c, o); } else { at += n }
                    }
                    if size == 1 { break }
                    size = (size + 1) / 2;
                }
                note += &format!("; choices: {} of {} differ from the benign default after {} candidate runs", all.len(), n0, m.tried - structural);
            }
        }
    }
    Some((cur.0, cur.1, note))
}
