//! Statements and values, independent of the crate's own types, and their rendering as query text.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Ty { Bool, Str, Int, Float }

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    /// bits of an f32
    F(u32),
    Str(String),
    Vec(Ty, Vec<Val>),
    /// key type, value type, entries (order irrelevant, sorted when compared)
    Map(Ty, Ty, Vec<(Val, Val)>),
}
impl Val {
    pub fn f(x: f32) -> Val { Val::F(x.to_bits()) }
    pub fn scalar_ty(&self) -> Option<Ty> {
        match self { Val::Bool(_) => Some(Ty::Bool), Val::Int(_) => Some(Ty::Int), Val::F(_) => Some(Ty::Float), Val::Str(_) => Some(Ty::Str), _ => None }
    }
    /// Canonical text, equal for equal values.
    pub fn canon(&self) -> String {
        match self {
            Val::Map(k, t, e) => {
                let mut v: Vec<String> = e.iter().map(|(a, b)| format!("{}=>{}", a.canon(), b.canon())).collect();
                v.sort();
                format!("Map({:?},{:?},[{}])", k, t, v.join(","))
            }
            Val::Vec(t, e) => format!("Vec({:?},[{}])", t, e.iter().map(|x| x.canon()).collect::<Vec<_>>().join(",")),
            Val::F(b) => format!("F({:?}/{:x})", f32::from_bits(*b), b),
            o => format!("{:?}", o),
        }
    }
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Vec(a, x), Val::Vec(b, y)) => a == b && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.same(q)),
            (Val::Map(..), Val::Map(..)) => self.canon() == o.canon(),
            (a, b) => a == b,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Stmt {
    Get(String), TryGet(String), Ex(String), Type(String), Del(String),
    Set(String, Val, Option<u64>), TrySet(String, Val, Option<u64>), Upd(String, Val, Option<u64>),
    VGet(String, u64), VLen(String), VPop(String), VPush(String, Val), VSet(String, u64, Val),
    MGet(String, Val), MEx(String, Val), MLen(String), MDel(String, Val), MSet(String, Val, Val),
    Shutdown,
    /// Text that cannot be parsed as a statement (and does not swallow what follows in a way that makes it valid).
    Bad(String),
}
impl Stmt {
    pub fn is_write(&self) -> bool {
        use Stmt::*;
        matches!(self, Del(_) | Set(..) | TrySet(..) | Upd(..) | VPop(_) | VPush(..) | VSet(..) | MDel(..) | MSet(..))
    }
    pub fn key(&self) -> Option<&str> {
        use Stmt::*;
        match self {
            Get(k) | TryGet(k) | Ex(k) | Type(k) | Del(k) | Set(k, ..) | TrySet(k, ..) | Upd(k, ..) | VGet(k, _) | VLen(k) | VPop(k)
            | VPush(k, _) | VSet(k, ..) | MGet(k, _) | MEx(k, _) | MLen(k) | MDel(k, _) | MSet(k, ..) => Some(k),
            _ => None,
        }
    }
}

fn ty(t: Ty) -> &'static str { match t { Ty::Bool => "bool", Ty::Str => "str", Ty::Int => "int", Ty::Float => "float" } }

/// A long text of f: just above the middle between f and the next number towards zero, so that it has to be rounded once only.
fn near_tie(f: f32) -> Option<String> {
    let a = f.abs();
    if !(1e-5..1e9).contains(&a) { return None }
    let mid = (a as f64 + f32::from_bits(a.to_bits() - 1) as f64) / 2.0;
    let t = format!("{}{:.50}1", if f < 0.0 { "-" } else { "" }, mid);
    if t.parse() == Ok(f) { Some(t) } else { None }
}

/// A decimal number with zeros in front: the same number.
fn padded(t: String, r: &mut Rng) -> String {
    if !r.chance(0.03) { return t }
    let zeros = "0".repeat(if r.chance(0.9) { r.range(1, 4) } else { r.range(5, 60) } as usize);
    match t.strip_prefix('-') { Some(x) => format!("-{}{}", zeros, x), None => format!("{}{}", zeros, t) }
}
pub fn scalar_text(v: &Val, r: &mut Rng) -> String {
    match v {
        Val::Null => String::new(),
        Val::Bool(b) => b.to_string(),
        Val::Int(i) => padded(i.to_string(), r),
        Val::F(b) => {
            let f = f32::from_bits(*b);
            if r.chance(0.12) { if let Some(t) = near_tie(f) { return t } }
            if r.chance(0.15) {
                let s = format!("{:e}", f);
                if s.contains('.') {
                    return match r.below(4) { 0 => s.replace('e', "E"), 1 if !s.contains("e-") => s.replace('e', "e+"), 2 => s.replace('e', "00e"), _ => s }
                }
            }
            let mut s = format!("{}", f);
            if !s.contains('.') { s.push_str(if r.chance(0.05) { "." } else { ".0" }) }
            if r.chance(0.03) { s.push_str(&"0".repeat(r.range(1, 40) as usize)) }
            padded(s, r)
        }
        Val::Str(s) => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' if r.chance(0.7) => o.push_str("\\n"),
                    '\t' if r.chance(0.7) => o.push_str("\\t"),
                    '\r' if r.chance(0.7) => o.push_str("\\r"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        _ => unreachable!(),
    }
}
fn gap(r: &mut Rng, tidy: bool) -> &'static str {
    if tidy { return "" }
    ["", "", "", " ", "  ", "\n", "\t"][r.below(7) as usize]
}
pub fn val_text(v: &Val, r: &mut Rng, tidy: bool) -> String {
    match v {
        Val::Vec(t, e) => {
            if e.is_empty() && r.chance(0.5) { return ty(*t).to_string() }
            let mut s = format!("{} [", ty(*t));
            for (i, x) in e.iter().enumerate() {
                if i > 0 { s.push(','); }
                s.push_str(gap(r, tidy));
                s.push_str(&scalar_text(x, r));
                s.push_str(gap(r, tidy));
            }
            s.push(']');
            s
        }
        Val::Map(k, t, e) => {
            if e.is_empty() && r.chance(0.5) { return format!("{} {}", ty(*k), ty(*t)) }
            let mut s = format!("{} {} {{", ty(*k), ty(*t));
            for (i, (a, b)) in e.iter().enumerate() {
                if i > 0 { s.push(','); }
                s.push_str(gap(r, tidy));
                s.push_str(&scalar_text(a, r));
                s.push_str(gap(r, tidy));
                s.push(':');
                s.push_str(gap(r, tidy));
                s.push_str(&scalar_text(b, r));
                s.push_str(gap(r, tidy));
            }
            s.push('}');
            s
        }
        v => scalar_text(v, r),
    }
}
fn sep(r: &mut Rng, tidy: bool) -> &'static str {
    if tidy { return " " }
    [" ", " ", " ", "  ", "\t", "\n", " \r\n "][r.below(7) as usize]
}
pub fn stmt_text(s: &Stmt, r: &mut Rng, tidy: bool) -> String {
    use Stmt::*;
    let mut w: Vec<String> = vec![];
    let lt = |w: &mut Vec<String>, k: &str, name: &String, v: &Val, l: &Option<u64>, r: &mut Rng| {
        w.push(k.into());
        w.push(name.clone());
        if *v != Val::Null {
            // an empty collection without brackets must not be followed by a lifetime
            let mut t = val_text(v, r, tidy);
            if l.is_some() && matches!(v, Val::Vec(_, e) if e.is_empty()) && !t.ends_with(']') { t.push_str(" []"); }
            if l.is_some() && matches!(v, Val::Map(_, _, e) if e.is_empty()) && !t.ends_with('}') && r.chance(0.5) { t.push_str(" {}"); }
            w.push(t);
        }
        if let Some(l) = l { w.push(padded(l.to_string(), r)); }
    };
    match s {
        Get(k) => w.extend(["get".into(), k.clone()]),
        TryGet(k) => w.extend(["try_get".into(), k.clone()]),
        Ex(k) => w.extend(["ex".into(), k.clone()]),
        Type(k) => w.extend(["type".into(), k.clone()]),
        Del(k) => w.extend(["del".into(), k.clone()]),
        Set(k, v, l) => lt(&mut w, "set", k, v, l, r),
        TrySet(k, v, l) => lt(&mut w, "try_set", k, v, l, r),
        Upd(k, v, l) => lt(&mut w, "upd", k, v, l, r),
        VGet(k, i) => w.extend(["vget".into(), k.clone(), padded(i.to_string(), r)]),
        VLen(k) => w.extend(["vlen".into(), k.clone()]),
        VPop(k) => w.extend(["vpop".into(), k.clone()]),
        VPush(k, v) => w.extend(["vpush".into(), k.clone(), scalar_text(v, r)]),
        VSet(k, i, v) => w.extend(["vset".into(), k.clone(), padded(i.to_string(), r), scalar_text(v, r)]),
        MGet(k, m) => w.extend(["mget".into(), k.clone(), scalar_text(m, r)]),
        MEx(k, m) => w.extend(["mex".into(), k.clone(), scalar_text(m, r)]),
        MLen(k) => w.extend(["mlen".into(), k.clone()]),
        MDel(k, m) => w.extend(["mdel".into(), k.clone(), scalar_text(m, r)]),
        MSet(k, m, v) => w.extend(["mset".into(), k.clone(), scalar_text(m, r), scalar_text(v, r)]),
        Shutdown => w.push("shutdown".into()),
        Bad(t) => return t.clone(),
    }
    let mut o = String::new();
    for (i, x) in w.iter().enumerate() {
        if i > 0 { o.push_str(sep(r, tidy)); }
        o.push_str(x);
    }
    o
}
/// Keywords and keys are not case sensitive; string literals are.
fn mixed_case(t: &str, r: &mut Rng) -> String {
    let (mut quoted, mut esc, mut number) = (false, false, false);
    let mut o = String::new();
    let mut last = ' ';
    for c in t.chars() {
        let letter = c.is_ascii_lowercase();
        if !quoted && !(last.is_alphanumeric() || matches!(last, '.' | '-' | '_')) { number = c.is_numeric() || c == '-' }
        if letter && !quoted && !number && r.chance(0.5) { o.push(c.to_ascii_uppercase()) } else { o.push(c) }
        if esc { esc = false } else if c == '\\' && quoted { esc = true } else if c == '"' { quoted = !quoted }
        last = c;
    }
    o
}
pub fn query_text(v: &[Stmt], style: u64) -> String {
    let mut r = Rng::new(style, 71);
    let tidy = r.chance(0.4);
    let shout = r.chance(0.2);
    let mut o = String::new();
    if !tidy { o.push_str(["", "", " ", ";", "\n"][r.below(5) as usize]); }
    for (i, s) in v.iter().enumerate() {
        if i > 0 { o.push_str(if tidy { "; " } else { [";", "; ", " ;\n", ";; "][r.below(4) as usize] }); }
        let t = stmt_text(s, &mut r, tidy);
        o.push_str(&if shout && !matches!(s, Stmt::Bad(_)) { mixed_case(&t, &mut r) } else { t });
    }
    o.push_str(if tidy { ["", ";"][r.below(2) as usize] } else { ["", ";", "; ", " ", "\n", ";;"][r.below(6) as usize] });
    o
}
