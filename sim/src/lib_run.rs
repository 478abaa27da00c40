//! Library-level runs: the interpreter and storage driven directly, under simulated time and randomness, with cleaning
//! passes and clock steps anywhere between commands.
use crate::http::{self, Obs, R};
use crate::kernel::*;
use crate::model::{self, Entry, Res, State, Want, Win};
use crate::scenario::User;
use crate::stmt::{Stmt, Ty, Val};
use serde::{Deserialize, Serialize};
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
use server::auth::AuthorizationLevel;
use server::error::{get_error_code, ServerError};
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{CollectionType, KeyType, Storage, StorageMap, StorageValue, StorageVector};

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum LibOp {
    /// A batch: through tokenizer and parser (text style given), or built directly.
    Batch(User, Vec<Stmt>, Option<u64>),
    GetLifetime(String),
    SetLifetime(String, Option<u64>),
    /// The expiration policy, n times, through the interpreter (true) or the storage.
    Expire(u32, bool),
    CheckExpire(String),
    Sleep(u64),
    Jump(i64),
    /// len and expiring_keys_count against the model
    Counts,
    /// continued cleaning removes everything expired
    Drain,
    /// every tracked key is read
    ReadAll,
}

/// Runs code of the system under test.
fn sys<R>(f: impl FnOnce() -> R) -> R {
    unsafe { IN_SIM = false }
    k().first_slice();
    let r = f();
    unsafe { IN_SIM = true }
    r
}
fn sval(v: &Val) -> StorageValue {
    let ct = |t: &Ty| match t { Ty::Bool => CollectionType::Bool, Ty::Str => CollectionType::String, Ty::Int => CollectionType::Int, Ty::Float => CollectionType::Float };
    match v {
        Val::Null => StorageValue::Null,
        Val::Bool(b) => StorageValue::Bool(*b),
        Val::Int(i) => StorageValue::Int(*i),
        Val::F(f) => StorageValue::Float(f32::from_bits(*f)),
        Val::Str(s) => StorageValue::String(s.clone()),
        Val::Vec(t, e) => { let mut x = StorageVector::new(ct(t)); for y in e { let _ = x.push(sval(y)); } StorageValue::Vector(x) }
        Val::Map(kt, t, e) => {
            let mut x = StorageMap::new(if *kt == Ty::Int { KeyType::Int } else { KeyType::String }, ct(t));
            for (a, b) in e { let _ = x.set(sval(a), sval(b)); }
            StorageValue::Map(x)
        }
    }
}
fn direct(s: &Stmt) -> Statement {
    use Stmt::*;
    match s {
        Get(k) => Statement::Get(k.clone()), TryGet(k) => Statement::GetIfExists(k.clone()), Ex(k) => Statement::Exists(k.clone()), Type(k) => Statement::ValueType(k.clone()),
        Del(k) => Statement::Delete(k.clone()),
        Set(k, v, l) => Statement::Set(k.clone(), sval(v), *l), TrySet(k, v, l) => Statement::SetIfNotExists(k.clone(), sval(v), *l), Upd(k, v, l) => Statement::Update(k.clone(), sval(v), *l),
        VGet(k, i) => Statement::VectorGet(k.clone(), *i as usize), VLen(k) => Statement::VectorLength(k.clone()), VPop(k) => Statement::VectorPop(k.clone()),
        VPush(k, v) => Statement::VectorAppend(k.clone(), sval(v)), VSet(k, i, v) => Statement::VectorSet(k.clone(), *i as usize, sval(v)),
        MGet(k, m) => Statement::MapGet(k.clone(), sval(m)), MEx(k, m) => Statement::MapExists(k.clone(), sval(m)), MLen(k) => Statement::MapLength(k.clone()),
        MDel(k, m) => Statement::MapDelete(k.clone(), sval(m)), MSet(k, m, v) => Statement::MapSet(k.clone(), sval(m), sval(v)),
        Shutdown => Statement::Shutdown, Bad(_) => Statement::Null,
    }
}
fn observe(r: &Result<InterpreterResponse, ServerError>) -> Result<Obs, String> {
    match r {
        Ok(x) => match serde_json::to_string(x) { Ok(t) => http::decode(200, t.as_bytes()), Err(e) => Err(format!("outcome {:?} cannot be turned into JSON: {}", x, e)) },
        Err(e) => {
            let st: u16 = get_error_code(e).get(..3).and_then(|s| s.parse().ok()).unwrap_or(0);
            http::decode(st, e.to_string().as_bytes())
        }
    }
}

type Outs = Vec<(Want, State)>;
fn lifetime_outcomes(st: &State, key: &str, w: &Win, set: Option<Option<u64>>, obs: &Obs) -> Outs {
    const GONE: &[&str] = &["KeyError", "IndexError"];
    let mut out = vec![];
    let (p, a) = model::presence(st.m.get(key), w);
    if p {
        let e = st.m[key].clone();
        match set {
            None => {
                let (wlo, whi) = w.wall();
                match e.dl {
                    None => out.push((Want::Res(Res::Ok(R::Exp(None))), st.clone())),
                    Some((lo, hi)) => {
                        let a = ((lo - whi as i128).max(0) / SEC as i128) as u64;
                        let b = ((hi - wlo as i128).max(0) / SEC as i128) as u64;
                        // (the window can be years wide when the clock is set within it)
                        let seen = match obs { Obs::Ok(R::Exp(Some(x))) => *x, _ => a };
                        out.push((Want::Res(Res::Ok(R::Exp(Some(seen.clamp(a, b))))), st.clone()))
                    }
                }
            }
            Some(l) => {
                // as a write of the same value with this lifetime
                for (r, s) in model::step(st, &Stmt::Upd(key.to_string(), e.v.clone(), l), &Win { a: w.a, b: w.b, clock: w.clock, monotone: w.monotone }) {
                    out.push((Want::Res(r), s));
                }
            }
        }
    }
    if a {
        let mut n = st.clone();
        if w.monotone { n.m.remove(key); }
        out.push((Want::Res(Res::Err(GONE)), n));
    }
    out
}
/// Upper bound of keys that may be expired now, and lower bound of those certainly alive.
fn alive(st: &State, w: &Win) -> (usize, usize) {
    let mut sure = 0;
    let mut maybe = 0;
    for e in st.m.values() {
        let (p, a) = model::presence(Some(e), w);
        if p && !a { sure += 1 } else if p { maybe += 1 }
    }
    (sure, sure + maybe)
}

pub struct Report { pub ops: u64, pub checks: u64, pub bad: Option<(String, String)> }

pub fn run(ops: &[LibOp]) -> Report {
    let mut rep = Report { ops: 0, checks: 0, bad: None };
    let mut it = sys(|| Interpreter::new(HashMapStorage::new()));
    let mut states: Vec<State> = vec![State::default()];
    let monotone = k().sc.cfg.p_step == 0.0 && !ops.iter().any(|o| matches!(o, LibOp::Jump(d) if *d < 0));
    for (n, op) in ops.iter().enumerate() {
        rep.ops += 1;
        if let Err((class, text)) = one(&mut it, &mut states, &monotone, op, &mut rep.checks) {
            rep.bad = Some((class, format!("step {} ({}): {}", n, crate::lin::short(&format!("{:?}", op), 300), text)));
            break;
        }
    }
    std::mem::forget(it);
    rep
}

fn advance_states(states: &mut Vec<State>, f: impl Fn(&State) -> Outs, obs: &Obs) -> Result<(), String> {
    let mut next: Vec<State> = vec![];
    let mut wants: Vec<String> = vec![];
    for s in states.iter() {
        for (w, x) in f(s) {
            if model::matches(&w, obs) { if !next.contains(&x) { next.push(x) } } else { let t = model::show(&w); if !wants.contains(&t) { wants.push(t) } }
        }
    }
    if next.is_empty() { return Err(format!("expected {}, got {}", crate::lin::short(&wants.join(" or "), 600), crate::lin::short(&model::show_obs(obs), 400))) }
    *states = next;
    Ok(())
}

fn one(it: &mut Interpreter<HashMapStorage>, states: &mut Vec<State>, monotone: &bool, op: &LibOp, checks: &mut u64) -> Result<(), (String, String)> {
    let a = k().now;
    let clock = |kk: &K| kk.clock.clone();
    let lin = |t: String| ("model".to_string(), t);
    match op {
        LibOp::Sleep(d) => { k().now += d; }
        LibOp::Jump(d) => {
            let kk = k();
            let o = kk.wall_offset() + d;
            let now = kk.now + 1;
            kk.clock.push((now, o));
            kk.now = now + 1;
            kk.c.inc(if *d > 0 { "clock_jump_forward" } else { "clock_jump_backward" });
        }
        LibOp::Batch(user, stmts, style) => {
            let auth = match user { User::Admin => AuthorizationLevel::Admin, User::Write => AuthorizationLevel::Write, _ => AuthorizationLevel::Read };
            let res = match style {
                Some(st) => {
                    let q = crate::stmt::query_text(stmts, *st);
                    sys(|| {
                        let tokens = Tokenizer::new(&q).tokenize()?;
                        let statements = Parser::new(tokens).parse()?;
                        it.interpret(InterpreterRequest { statements, authorization: auth })
                    })
                }
                None => { let statements = stmts.iter().map(direct).collect(); sys(|| it.interpret(InterpreterRequest { statements, authorization: auth })) }
            };
            let b = k().now;
            let obs = observe(&res).map_err(lin)?;
            let c = clock(k());
            let w = Win { clock: &c, a, b, monotone: *monotone };
            *checks += 1;
            advance_states(states, |s| model::request(s, user, stmts, &w), &obs).map_err(lin)?;
        }
        LibOp::GetLifetime(key) | LibOp::SetLifetime(key, _) => {
            let (st, set) = match op { LibOp::SetLifetime(_, l) => (Statement::UpdateLifetime(key.clone(), *l), Some(*l)), _ => (Statement::GetLifetime(key.clone()), None) };
            let res = sys(|| it.interpret(InterpreterRequest { statements: vec![st], authorization: AuthorizationLevel::Write }));
            let b = k().now;
            let obs = observe(&res).map_err(lin)?;
            let c = clock(k());
            let w = Win { clock: &c, a, b, monotone: *monotone };
            *checks += 1;
            advance_states(states, |s| lifetime_outcomes(s, key, &w, set, &obs), &obs).map_err(lin)?;
        }
        LibOp::Expire(n, through) => {
            for _ in 0..*n {
                let before = sys(|| it.storage.len()).map_err(|e| lin(format!("len: {}", e)))?;
                let removed = if *through {
                    match sys(|| it.interpret(InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin })) {
                        Ok(InterpreterResponse::Size(n)) => n,
                        o => return Err(lin(format!("cleaning answered {:?}", o))),
                    }
                } else {
                    sys(|| it.storage.invalidate_expired_keys()).map_err(|e| lin(format!("cleaning failed: {}", e)))?
                };
                let after = sys(|| it.storage.len()).map_err(|e| lin(format!("len: {}", e)))?;
                *checks += 1;
                if before != after + removed { return Err(lin(format!("cleaning reported {} removed entries, but {} entries became {}", removed, before, after))) }
                k().c.add("expired_entries_removed", removed as u64);
                counts(it, states, *monotone, checks)?;
            }
        }
        LibOp::CheckExpire(key) => {
            let before = sys(|| it.storage.len()).map_err(|e| lin(format!("len: {}", e)))?;
            let r = sys(|| it.storage.check_and_expire(key));
            let after = sys(|| it.storage.len()).map_err(|e| lin(format!("len: {}", e)))?;
            let b = k().now;
            let c = clock(k());
            let w = Win { clock: &c, a, b, monotone: *monotone };
            *checks += 1;
            let removed = matches!(r, Ok(true)) as usize;
            if before != after + removed { return Err(lin(format!("check_and_expire answered {:?}, but {} entries became {}", r, before, after))) }
            let sure = states.iter().all(|s| { let (p, a) = model::presence(s.m.get(key), &w); p && !a });
            if sure && !matches!(r, Ok(false)) { return Err(lin(format!("check_and_expire of a live key answered {:?}", r))) }
            counts(it, states, *monotone, checks)?;
        }
        LibOp::Counts => counts(it, states, *monotone, checks)?,
        LibOp::Drain => {
            let n = sys(|| it.storage.expiring_keys_count()).map_err(|e| lin(e.to_string()))?;
            // every pass picks one of n keys at random: after 40 n + 40 passes none is missed (chance e^-40)
            for _ in 0..(40 * n + 40) {
                let r = sys(|| it.interpret(InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin }));
                match r { Ok(InterpreterResponse::Size(x)) => k().c.add("expired_entries_removed", x as u64), o => return Err(lin(format!("cleaning answered {:?}", o))) }
            }
            let len = sys(|| it.storage.len()).map_err(|e| lin(e.to_string()))?;
            let b = k().now;
            let c = clock(k());
            let w0 = Win { clock: &c, a, b: if k().sc.cfg.p_step > 0.0 { b } else { a }, monotone: *monotone };
            *checks += 1;
            // alive at the start of the draining at most
            let hi = states.iter().map(|s| alive(s, &w0).1).max().unwrap();
            let w = Win { clock: &c, a: b, b, monotone: *monotone };
            let lo = states.iter().map(|s| alive(s, &w).0).min().unwrap();
            if len > hi || len < lo { return Err(("reclaim".into(), format!("after {} cleaning passes {} entries are stored, but {}..={} are alive", 40 * n + 40, len, lo, hi))) }
            counts(it, states, *monotone, checks)?;
        }
        LibOp::ReadAll => {
            let mut keys: Vec<String> = states.iter().flat_map(|s| s.m.keys().cloned()).collect();
            keys.sort();
            keys.dedup();
            for key in keys {
                one(it, states, monotone, &LibOp::Batch(User::Read, vec![Stmt::TryGet(key)], None), checks)?;
            }
        }
    }
    Ok(())
}

/// Number of stored entries lies between those alive and all ever written and not removed; entries counted as expiring
/// are exactly those stored ones that have a lifetime.
fn counts(it: &mut Interpreter<HashMapStorage>, states: &mut Vec<State>, monotone: bool, checks: &mut u64) -> Result<(), (String, String)> {
    let a = k().now;
    let (len, exp) = sys(|| (it.storage.len(), it.storage.expiring_keys_count()));
    let (len, exp) = match (len, exp) { (Ok(a), Ok(b)) => (a, b), o => return Err(("counts".into(), format!("counting failed: {:?}", o))) };
    let b = k().now;
    let c = k().clock.clone();
    let w = Win { clock: &c, a, b, monotone };
    *checks += 1;
    let mut why = String::new();
    for s in states.iter() {
        let perm = s.m.values().filter(|e: &&Entry| e.dl.is_none()).count();
        let (sure, _) = alive(s, &w);
        if len < sure { why = format!("{} entries are stored but {} keys are alive", len, sure); continue }
        if exp + perm != len { why = format!("{} entries are stored, {} of them permanent, but {} are counted as expiring", len, perm, exp); continue }
        return Ok(());
    }
    Err(("counts".into(), why))
}
