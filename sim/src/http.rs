//! What simulated clients put on the wire, and how they read what comes back.
use crate::rng::Rng;
use crate::scenario::{Body, Req, User};
use crate::stmt::{Ty, Val};
use serde_json::Value;

pub fn query_of(r: &Req) -> Option<String> {
    match &r.body { Body::Query(s) => Some(crate::stmt::query_text(s, r.style)), Body::Text(t) => Some(t.clone()), Body::Raw(_) => None }
}
fn json_str(s: &str, r: &mut Rng, plain: bool) -> String {
    if plain { return serde_json::to_string(s).unwrap() }
    let esc = r.chance(0.4);
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if esc && !c.is_ascii() => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } }
            '/' if esc => o.push_str("\\/"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn vary(name: &str, r: &mut Rng) -> String {
    match r.below(4) {
        0 => name.to_lowercase(),
        1 => name.to_uppercase(),
        2 => name.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => name.to_string(),
    }
}
/// The bytes of a request; `style` decides header order, letter case, extra headers, JSON layout.
pub fn render(req: &Req) -> Vec<u8> {
    if let Body::Raw(b) = &req.body { return b.clone() }
    let q = query_of(req).unwrap();
    let mut r = Rng::new(req.style, 72);
    let fancy = r.chance(0.6);
    let body = {
        let q = json_str(&q, &mut r, !fancy);
        match if fancy { r.below(4) } else { 0 } {
            1 => format!("{{ \"query\" : {} }}", q),
            2 => format!("{{\"id\": 17, \"query\": {}, \"tags\": [\"a\", null, {{\"x\": 1.5}}]}}", q),
            3 => format!("{{\n  \"query\": {}\n}}\n", q),
            _ => format!("{{\"query\": {}}}", q),
        }
    };
    let mut h: Vec<String> = vec![];
    let name = |n: &str, r: &mut Rng| if fancy { vary(n, r) } else { n.to_string() };
    h.push(format!("{}: {}", name("Content-Length", &mut r), body.len()));
    let u = match &req.user { User::Admin => Some("admin".into()), User::Write => Some("write".into()), User::Read => Some("read".into()),
        User::Rejected => Some("unauthenticated".into()), User::Unknown(s) => Some(s.clone()), User::Missing => None };
    if let Some(u) = u { let n = name("Username", &mut r); h.push(format!("{}: {}", n, u)); }
    let n = name("Host", &mut r);
    h.push(format!("{}: 127.0.0.1:7878", n));
    if fancy {
        for i in 0..r.below(8) {
            let n = name(["Accept", "User-Agent", "Content-Type", "X-Request-Id", "Cookie", "X-Forwarded-For", "Accept-Encoding", "Cache-Control"][i as usize], &mut r);
            let len = if r.chance(0.15) { r.range(200, 1800) } else { r.range(1, 40) };
            let v: String = (0..len).map(|_| *r.pick(&['a', 'Z', '0', '/', ';', '=', '.', ' ', 'q'])).collect();
            h.push(format!("{}: {}", n, v.trim()));
        }
        for i in (1..h.len()).rev() { let j = r.below(i as u64 + 1) as usize; h.swap(i, j); }
    }
    let mut h: Vec<Vec<u8>> = h.into_iter().map(|x| x.into_bytes()).collect();
    if fancy {
        // values that are not ASCII, or not even UTF-8, and names that only look like the one that counts
        if r.chance(0.08) { let i = r.below(h.len() as u64 + 1) as usize; h.insert(i, b"X-Name: caf\xe9 \xff\xfe".to_vec()); }
        if r.chance(0.05) { let i = r.below(h.len() as u64 + 1) as usize; h.insert(i, "X-City: Zürich 日本".into()); }
        if r.chance(0.08) { let i = r.below(h.len() as u64 + 1) as usize; h.insert(i, format!("{}: admin", *r.pick(&["X-Username", "Username2", "User-Name", "User", "Usernam"])).into_bytes()); }
        if r.chance(0.05) { let i = r.below(h.len() as u64 + 1) as usize; h.insert(i, b"X-Empty:".to_vec()); }
        if r.chance(0.06) { let i = r.below(h.len() as u64 + 1) as usize; let n = r.below(60); h.insert(i, format!("{}: {}", *r.pick(&["X-Content-Length", "Content-Length-Old", "Content-Len", "Length", "X-Note: Content-Length", "Original-Content-Length"]), n).into_bytes()); }
        if r.chance(0.012) { let i = r.below(h.len() as u64 + 1) as usize; let n = r.range(4000, 20_000) as usize; h.insert(i, format!("X-Token: {}", "tOk3n.".repeat(n / 6)).into_bytes()); }
        // as many headers as the servers take (32)
        if r.chance(0.04) { let to = r.range(h.len() as u64, 32); while (h.len() as u64) < to { let i = r.below(h.len() as u64 + 1) as usize; h.insert(i, format!("X-H{}: {}", h.len(), i).into_bytes()); } }
    }
    let path = if fancy { *r.pick(&["/", "/query", "/a/b?c=d", "*"]) } else { "/" };
    let mut b = format!("POST {} HTTP/1.1\r\n", path).into_bytes();
    for x in h { b.extend(&x); b.extend(b"\r\n"); }
    b.extend(b"\r\n");
    b.extend(body.as_bytes());
    b.extend(&req.trail);
    b
}

#[derive(Clone, PartialEq, Debug)]
pub enum R {
    Message(String),
    Value(Val),
    Bool(bool),
    Size(u64),
    Type(String),
    Exp(Option<u64>),
    Null,
    ShuttingDown,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Obs {
    /// 200 with this outcome
    Ok(R),
    /// status, kind of error (text before the colon), payload
    Err(u16, String, String),
}

/// A complete HTTP response: status, payload, or why it is not one. Strict about what the property promises: status
/// line, headers, Content-Length equal to the payload (a single trailing newline after the payload is tolerated).
pub fn parse_response(b: &[u8]) -> Result<(u16, Vec<u8>), String> {
    let find = |pat: &[u8]| b.windows(pat.len()).position(|w| w == pat);
    // end of head: an empty line; lines end in \n or \r\n; a line of blanks is what the server's format string may yield
    let (head_end, body_start) = {
        let c = [find(b"\r\n\r\n").map(|p| (p, p + 4)), find(b"\n\n").map(|p| (p, p + 2))];
        match c.iter().flatten().min_by_key(|x| x.0) { Some(x) => *x, None => return Err("no end of header".into()) }
    };
    let head = std::str::from_utf8(&b[..head_end]).map_err(|_| "header is not UTF-8".to_string())?;
    let mut lines = head.split('\n').map(|l| l.trim_end_matches('\r'));
    let st = lines.next().unwrap_or("");
    let mut w = st.splitn(3, ' ');
    let ver = w.next().unwrap_or("");
    if ver != "HTTP/1.1" && ver != "HTTP/1.0" { return Err(format!("status line {:?}", st)) }
    let code = w.next().unwrap_or("");
    if code.len() != 3 || !code.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("status line {:?}", st)) }
    let code: u16 = code.parse().unwrap();
    let mut cl = None;
    for l in lines {
        let (n, v) = match l.split_once(':') { Some(x) => x, None => return Err(format!("header line {:?}", l)) };
        if n.is_empty() || n.bytes().any(|c| c <= 32 || c >= 127) { return Err(format!("header line {:?}", l)) }
        if n.eq_ignore_ascii_case("content-length") {
            if cl.is_some() { return Err("two Content-Length headers".into()) }
            cl = Some(v.trim().parse::<usize>().map_err(|_| format!("Content-Length {:?}", v))?);
        }
    }
    let cl = match cl { Some(c) => c, None => return Err("no Content-Length".into()) };
    let body = &b[body_start..];
    if body.len() < cl { return Err(format!("truncated: Content-Length {} but {} bytes of payload", cl, body.len())) }
    if body.len() > cl && &body[cl..] != b"\n" && &body[cl..] != b"\r\n" {
        return Err(format!("{} bytes after a payload of {} bytes: {:?}", body.len() - cl, cl, String::from_utf8_lossy(&body[cl..body.len().min(cl + 60)])))
    }
    Ok((code, body[..cl].to_vec()))
}

fn ty(s: &str) -> Option<Ty> { Some(match s { "Bool" => Ty::Bool, "String" => Ty::Str, "Int" => Ty::Int, "Float" => Ty::Float, _ => return None }) }
fn decode_val(v: &Value) -> Result<Val, String> {
    let bad = || format!("value {}", v);
    if v == "Null" { return Ok(Val::Null) }
    let o = v.as_object().ok_or_else(bad)?;
    if o.len() != 1 { return Err(bad()) }
    let (t, x) = o.iter().next().unwrap();
    Ok(match t.as_str() {
        "Bool" => Val::Bool(x.as_bool().ok_or_else(bad)?),
        "Int" => Val::Int(x.as_i64().ok_or_else(bad)?),
        "Float" => Val::f(x.as_f64().ok_or_else(bad)? as f32),
        "String" => Val::Str(x.as_str().ok_or_else(bad)?.to_string()),
        "Vector" => {
            let t = x.get("collection_type").and_then(|t| t.as_str()).and_then(ty).ok_or_else(bad)?;
            let e = x.get("vector").and_then(|e| e.as_array()).ok_or_else(bad)?;
            Val::Vec(t, e.iter().map(decode_val).collect::<Result<_, _>>()?)
        }
        "Map" => {
            let k = x.get("key_type").and_then(|t| t.as_str()).and_then(ty).ok_or_else(bad)?;
            let t = x.get("collection_type").and_then(|t| t.as_str()).and_then(ty).ok_or_else(bad)?;
            let mut out = vec![];
            match x.get("map").ok_or_else(bad)? {
                Value::Array(e) => for p in e {
                    let p = p.as_array().ok_or_else(bad)?;
                    if p.len() != 2 { return Err(bad()) }
                    out.push((decode_val(&p[0])?, decode_val(&p[1])?));
                },
                Value::Object(e) => for (key, p) in e {
                    let kv = if k == Ty::Int { Val::Int(key.parse().map_err(|_| bad())?) } else { Val::Str(key.clone()) };
                    out.push((kv, decode_val(p)?));
                },
                _ => return Err(bad()),
            }
            Val::Map(k, t, out)
        }
        _ => return Err(bad()),
    })
}
pub fn decode(status: u16, payload: &[u8]) -> Result<Obs, String> {
    let text = std::str::from_utf8(payload).map_err(|_| "payload is not UTF-8".to_string())?;
    if status != 200 {
        let kind = text.split(':').next().unwrap_or("").to_string();
        return Ok(Obs::Err(status, kind, text.to_string()));
    }
    let v: Value = serde_json::from_str(text).map_err(|e| format!("payload {:?} is not JSON: {}", &text.chars().take(200).collect::<String>(), e))?;
    let bad = || format!("outcome {}", text.chars().take(200).collect::<String>());
    if v == "Null" { return Ok(Obs::Ok(R::Null)) }
    if v == "ShuttingDown" { return Ok(Obs::Ok(R::ShuttingDown)) }
    let o = v.as_object().ok_or_else(bad)?;
    if o.len() != 1 { return Err(bad()) }
    let (t, x) = o.iter().next().unwrap();
    Ok(Obs::Ok(match t.as_str() {
        "Message" => R::Message(x.as_str().ok_or_else(bad)?.to_string()),
        "Value" => R::Value(decode_val(x)?),
        "Bool" => R::Bool(x.as_bool().ok_or_else(bad)?),
        "Size" => R::Size(x.as_u64().ok_or_else(bad)?),
        "ValueType" => R::Type(x.to_string()),
        "Expiration" => R::Exp(if x.is_null() { None } else { Some(x.as_u64().ok_or_else(bad)?) }),
        _ => return Err(bad()),
    }))
}
