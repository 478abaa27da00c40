//! The executable reference model: a typed key-value store with lifetimes, evaluated in a window of time (the exact
//! instant of execution is unknown), so that one step may have several possible outcomes.
use crate::http::{Obs, R};
use crate::kernel::{wall_range, SEC};
use crate::scenario::User;
use crate::stmt::{Stmt, Ty, Val};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub v: Val,
    /// wall-clock deadline, as a window
    pub dl: Option<(i128, i128)>,
    /// monotonic time of the write (earliest)
    pub since: u64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct State {
    pub m: BTreeMap<String, Entry>,
    pub down: bool,
}
impl State {
    pub fn canon(&self) -> String {
        let mut s = String::new();
        for (k, e) in &self.m { s.push_str(&format!("{}={}@{:?};", k, e.v.canon(), e.dl)); }
        if self.down { s.push('!'); }
        s
    }
}

/// Clock of the run, and the window of monotonic time in which something is executed.
#[derive(Clone, Copy)]
pub struct Win<'a> { pub clock: &'a [(u64, i64)], pub a: u64, pub b: u64, pub monotone: bool }
impl<'a> Win<'a> {
    pub fn wall(&self) -> (i64, i64) { wall_range(self.clock, self.a, self.b) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Ok(R), Err(&'static [&'static str]) }

const KEY: &[&str] = &["KeyError"];
const TYPE: &[&str] = &["TypeError"];
const INDEX: &[&str] = &["IndexError"];
const TI: &[&str] = &["TypeError", "IndexError"];
/// Whatever error says that a lifetime cannot be honoured.
const ANY: &[&str] = &["KeyError", "TypeError", "IndexError", "ParseError", "TokenizationError", "RequestError", "InternalError"];
pub const PARSE: &[&str] = &["ParseError", "TokenizationError", "TypeError", "IndexError"];

/// Lifetimes (seconds) above this may be refused: the deadline is not representable, or nearly so.
pub const HUGE: u64 = 1 << 61;

fn ok(r: R) -> Res { Res::Ok(r) }
fn msg() -> Res { ok(R::Message("Ok".into())) }
fn tname(t: Ty) -> &'static str { match t { Ty::Bool => "Bool", Ty::Str => "String", Ty::Int => "Int", Ty::Float => "Float" } }
pub fn type_json(v: &Val) -> String {
    match v {
        Val::Null => "\"Null\"".into(), Val::Bool(_) => "\"Bool\"".into(), Val::Int(_) => "\"Int\"".into(), Val::F(_) => "\"Float\"".into(), Val::Str(_) => "\"String\"".into(),
        Val::Vec(t, _) => format!("{{\"Vector\":\"{}\"}}", tname(*t)),
        Val::Map(k, t, _) => format!("{{\"Map\":[\"{}\",\"{}\"]}}", tname(*k), tname(*t)),
    }
}
fn norm(v: &Val) -> Val {
    // a map literal with repeated keys keeps the last
    if let Val::Map(k, t, e) = v {
        let mut out: Vec<(Val, Val)> = vec![];
        for (a, b) in e {
            if let Some(p) = out.iter_mut().find(|p| p.0 == *a) { p.1 = b.clone() } else { out.push((a.clone(), b.clone())) }
        }
        Val::Map(*k, *t, out)
    } else { v.clone() }
}

/// (possibly present, possibly absent)
pub fn presence(e: Option<&Entry>, w: &Win) -> (bool, bool) {
    match e {
        None => (false, true),
        Some(Entry { dl: None, .. }) => (true, false),
        Some(Entry { dl: Some((lo, hi)), since, .. }) => {
            let (wlo, whi) = w.wall();
            let present = wlo as i128 <= *hi;
            let mut absent = whi as i128 > *lo;
            if !absent && !w.monotone {
                // it may have expired, and been removed, before the clock was set back
                absent = wall_range(w.clock, *since, w.b).1 as i128 > *lo;
            }
            (present, absent)
        }
    }
}

/// All possible outcomes of one statement.
pub fn step(st: &State, s: &Stmt, w: &Win) -> Vec<(Res, State)> {
    let mut out = vec![];
    let key = match s.key() {
        Some(k) => k.to_string(),
        None => {
            match s {
                Stmt::Shutdown => { let mut n = st.clone(); n.down = true; return vec![(ok(R::ShuttingDown), n)] }
                _ => unreachable!("Bad statements are handled for the whole query"),
            }
        }
    };
    let (p, a) = presence(st.m.get(&key), w);
    if p {
        let mut n = st.clone();
        if w.monotone {
            let wlo = w.wall().0;
            if let Some(Entry { dl: Some((lo, _)), .. }) = n.m.get_mut(&key) { *lo = (*lo).max(wlo as i128); }
        }
        let e = n.m.get(&key).cloned().unwrap();
        apply(n, &key, Some(e), s, w, &mut out);
    }
    if a {
        let mut n = st.clone();
        if w.monotone { n.m.remove(&key); }
        apply(n, &key, None, s, w, &mut out);
    }
    out
}

fn write(n: State, key: &str, v: &Val, l: Option<u64>, w: &Win, r: Res, out: &mut Vec<(Res, State)>) {
    let (wlo, whi) = w.wall();
    let mut x = n.clone();
    let dl = l.map(|l| { let d = l as i128 * SEC as i128; (wlo as i128 + d, whi as i128 + d) });
    x.m.insert(key.to_string(), Entry { v: norm(v), dl, since: w.a });
    out.push((r, x));
    if l.map_or(false, |l| l >= HUGE) { out.push((Res::Err(ANY), n)); }
}

fn apply(n: State, key: &str, e: Option<Entry>, s: &Stmt, w: &Win, out: &mut Vec<(Res, State)>) {
    use Stmt::*;
    let mut put = |r: Res, n: State| out.push((r, n));
    match s {
        Get(_) => match e { Some(e) => put(ok(R::Value(e.v)), n), None => put(Res::Err(KEY), n) },
        TryGet(_) => match e { Some(e) => put(ok(R::Value(e.v)), n), None => put(ok(R::Value(Val::Null)), n) },
        Ex(_) => put(ok(R::Bool(e.is_some())), n),
        Type(_) => match e { Some(e) => put(ok(R::Type(type_json(&e.v))), n), None => put(Res::Err(KEY), n) },
        Del(_) => { let mut x = n; x.m.remove(key); put(ok(R::Bool(e.is_some())), x) }
        Set(_, v, l) => write(n, key, v, *l, w, msg(), out),
        TrySet(_, v, l) => match e {
            Some(_) => {
                // (a lifetime that cannot be represented may be refused first)
                if l.map_or(false, |l| l >= HUGE) { put(Res::Err(ANY), n.clone()) }
                put(ok(R::Bool(false)), n)
            }
            None => write(n, key, v, *l, w, ok(R::Bool(true)), out),
        },
        Upd(_, v, l) => match e {
            None => put(Res::Err(if l.map_or(false, |l| l >= HUGE) { ANY } else { KEY }), n),
            Some(_) => write(n, key, v, *l, w, msg(), out),
        },
        VGet(..) | VLen(_) | VPop(_) | VPush(..) | VSet(..) => {
            let mut e = match e { Some(e) => e, None => return put(Res::Err(KEY), n) };
            let (t, v) = match &mut e.v { Val::Vec(t, v) => (*t, v), _ => return put(Res::Err(TYPE), n) };
            let r = match s {
                VGet(_, i) => match v.get(*i as usize) { Some(x) => ok(R::Value(x.clone())), None => Res::Err(INDEX) },
                VLen(_) => ok(R::Size(v.len() as u64)),
                VPop(_) => ok(R::Value(v.pop().unwrap_or(Val::Null))),
                VPush(_, x) => if x.scalar_ty() == Some(t) { v.push(x.clone()); msg() } else { Res::Err(TYPE) },
                VSet(_, i, x) => match (x.scalar_ty() == Some(t), (*i as usize) < v.len()) {
                    (true, true) => { v[*i as usize] = x.clone(); msg() }
                    (false, true) => Res::Err(TYPE),
                    (true, false) => Res::Err(INDEX),
                    _ => Res::Err(TI),
                },
                _ => unreachable!(),
            };
            let mut x = n;
            if x.m.contains_key(key) { x.m.insert(key.to_string(), e); }
            put(r, x)
        }
        MGet(..) | MEx(..) | MLen(_) | MDel(..) | MSet(..) => {
            let mut e = match e { Some(e) => e, None => return put(Res::Err(KEY), n) };
            let (k, t, v) = match &mut e.v { Val::Map(k, t, v) => (*k, *t, v), _ => return put(Res::Err(TYPE), n) };
            let mk = match s { MGet(_, m) | MEx(_, m) | MDel(_, m) | MSet(_, m, _) => Some(m), _ => None };
            if let Some(m) = mk { if m.scalar_ty() != Some(k) { return put(Res::Err(TYPE), n) } }
            let r = match s {
                MGet(_, m) => match v.iter().find(|p| p.0 == *m) { Some(p) => ok(R::Value(p.1.clone())), None => Res::Err(INDEX) },
                MEx(_, m) => ok(R::Bool(v.iter().any(|p| p.0 == *m))),
                MLen(_) => ok(R::Size(v.len() as u64)),
                MDel(_, m) => { let n0 = v.len(); v.retain(|p| p.0 != *m); ok(R::Bool(v.len() < n0)) }
                MSet(_, m, x) => if x.scalar_ty() == Some(t) {
                    if let Some(p) = v.iter_mut().find(|p| p.0 == *m) { p.1 = x.clone() } else { v.push((m.clone(), x.clone())) }
                    msg()
                } else { Res::Err(TYPE) },
                _ => unreachable!(),
            };
            let mut x = n;
            if x.m.contains_key(key) { x.m.insert(key.to_string(), e); }
            put(r, x)
        }
        Shutdown | Bad(_) => unreachable!(),
    }
}

#[derive(Clone, Debug)]
pub enum Want { Res(Res), Status(u16, &'static [&'static str]) }

/// All possible outcomes of a whole request.
pub fn request(st: &State, user: &User, stmts: &[Stmt], w: &Win) -> Vec<(Want, State)> {
    match user {
        User::Missing => return vec![(Want::Status(500, &["InternalError"]), st.clone())],
        User::Rejected => return vec![(Want::Status(403, &["AuthenticationError"]), st.clone())],
        User::Unknown(_) => return vec![(Want::Status(401, &["AuthorizationError"]), st.clone())],
        _ => {}
    }
    let bad = stmts.iter().any(|s| matches!(s, Stmt::Bad(_)));
    let denied = stmts.iter().any(|s| match s {
        Stmt::Shutdown => *user != User::Admin,
        s => s.is_write() && *user == User::Read,
    });
    if bad && denied { return vec![(Want::Status(422, PARSE), st.clone()), (Want::Status(401, &["AuthorizationError"]), st.clone())] }
    if bad { return vec![(Want::Status(422, PARSE), st.clone())] }
    if denied { return vec![(Want::Status(401, &["AuthorizationError"]), st.clone())] }
    let mut cur: Vec<(Res, State)> = vec![(ok(R::Null), st.clone())];
    for s in stmts {
        let mut next: Vec<(Res, State)> = vec![];
        for (r, x) in cur {
            let stop = matches!(r, Res::Err(_)) || r == Res::Ok(R::ShuttingDown);
            if stop { next.push((r, x)); continue }
            next.extend(step(&x, s, w));
        }
        next.dedup_by(|a, b| a == b);
        cur = next;
    }
    cur.into_iter().map(|(r, s)| (Want::Res(r), s)).collect()
}

pub fn matches(w: &Want, o: &Obs) -> bool {
    match (w, o) {
        (Want::Res(Res::Ok(r)), Obs::Ok(x)) => same(r, x),
        (Want::Res(Res::Err(k)), Obs::Err(st, kind, _)) => (*st == 422 || (k.len() > 4 && *st != 200)) && k.contains(&kind.as_str()),
        (Want::Status(s, k), Obs::Err(st, kind, _)) => s == st && k.contains(&kind.as_str()),
        _ => false,
    }
}
fn same(a: &R, b: &R) -> bool {
    match (a, b) {
        (R::Value(x), R::Value(y)) => x.same(y),
        (R::Message(_), R::Message(_)) => true,
        (a, b) => a == b,
    }
}
pub fn show(w: &Want) -> String {
    match w {
        Want::Res(Res::Ok(R::Value(v))) => format!("value {}", v.canon()),
        Want::Res(Res::Ok(r)) => format!("{:?}", r),
        Want::Res(Res::Err(k)) => format!("422 {}", k.join("|")),
        Want::Status(s, k) => format!("{} {}", s, k.join("|")),
    }
}
pub fn show_obs(o: &Obs) -> String {
    match o { Obs::Ok(R::Value(v)) => format!("value {}", v.canon()), Obs::Ok(r) => format!("{:?}", r), Obs::Err(s, _, t) => format!("{} {:?}", s, t.chars().take(160).collect::<String>()) }
}
