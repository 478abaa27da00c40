//! Verdict over a finished run: everything the clients recorded and the simulated kernel's tables.
use crate::client::{How, Op};
use crate::http::{self, Obs, R};
use crate::kernel::*;
use crate::lin::{self, short, LOp, Verdict};
use crate::net;
use crate::run::Viol;
use crate::scenario::{Arch, Body, End, User};
use crate::stmt::Stmt;

/// Time within which the server must be gone after it acknowledged a shutdown (its slowest worker polls every 5 s).
pub const EXIT_BOUND: u64 = 20 * SEC;
/// Overlap of injected stalls with a request from which on an internal timeout is a legitimate answer.
const STALL_EXCUSE: u64 = 300 * MS;

/// Memory that may come and go besides the data (queues, caches, threads under way).
const CHURN_SLACK: i64 = 12_000;

fn secs(t: u64) -> String { format!("{:.6}s", t as f64 / 1e9) }

fn stalled(k: &K, a: u64, b: u64) -> u64 {
    k.stalls.iter().map(|(x, y)| { let (s, e) = ((*x).max(a), (*y).min(b)); e.saturating_sub(s) }).sum()
}
fn stmts(o: &Op) -> Option<&Vec<Stmt>> { match &o.req.body { Body::Query(s) => Some(s), _ => None } }
/// Could have made the server stop: complete, by an administrator, parsable, with a shutdown in it.
fn shutdown_capable(o: &Op) -> bool {
    o.t_sent.is_some() && o.req.user == User::Admin && stmts(o).map_or(false, |s| s.contains(&Stmt::Shutdown) && !s.iter().any(|x| matches!(x, Stmt::Bad(_))))
}
fn label(o: &Op) -> String { format!("client {} request {} at {}", o.client, o.step, secs(o.t_start)) }
fn what(o: &Op) -> String {
    match &o.req.body {
        Body::Query(_) | Body::Text(_) => format!("{:?} {}", o.req.user, short(&http::query_of(&o.req).unwrap().replace('\n', "\\n"), 200)),
        Body::Raw(b) => format!("raw bytes {:?}", short(&String::from_utf8_lossy(b), 120)),
    }
}

pub fn judge(k: &mut K, want_log: bool) -> (Vec<Viol>, Option<String>, Vec<String>) {
    let mut v: Vec<Viol> = vec![];
    let mut inc: Option<String> = None;
    let hist = std::mem::take(&mut k.hist);
    let end = k.now;
    if k.stop_reason == "step cap" || k.stop_reason == "quiescent" { inc = Some(k.stop_reason.to_string()); }

    let mut lops: Vec<LOp> = vec![];
    let mut acked_down: Option<u64> = None;
    let mut maybe_down = false;
    let mut obs_of: Vec<Option<Obs>> = vec![];
    // what was received, request by request
    for o in &hist {
        let complete = o.t_sent.is_some() && !matches!(o.req.body, Body::Raw(_));
        let mut obs = None;
        let t_end = o.t_end.unwrap_or(end);
        if !o.resp.is_empty() {
            k.c.inc("responses");
            match http::parse_response(&o.resp) {
                Err(e) => {
                    // whoever breaks the connection itself, or loses it to an injected fault, may miss the rest
                    let excused = o.faulted || o.how == How::Self_ || (o.how == How::Timeout && complete) || (k.exit != Exit::Running && t_end >= k.exit_at);
                    if !excused { v.push(Viol { class: "malformed".into(), text: format!("{} ({}): malformed response ({}): {:?}", label(o), what(o), e, short(&String::from_utf8_lossy(&o.resp), 300)) }) }
                }
                Ok((st, body)) => {
                    k.c.inc(&format!("status_{}", st));
                    if !complete {
                        if st < 400 { v.push(Viol { class: "accepted".into(), text: format!("{} ({}): an incomplete or malformed request was answered with {}", label(o), what(o), st) }) }
                    } else {
                        match http::decode(st, &body) {
                            Err(e) => v.push(Viol { class: "malformed".into(), text: format!("{} ({}): response with a bad payload: {}", label(o), what(o), e) }),
                            Ok(x) => {
                                if ![200, 400, 401, 403, 422, 500].contains(&st) { v.push(Viol { class: "malformed".into(), text: format!("{} ({}): status {}", label(o), what(o), st) }) }
                                obs = Some(x)
                            }
                        }
                    }
                }
            }
        }
        obs_of.push(obs);
    }
    for (o, obs) in hist.iter().zip(&obs_of) {
        if let Some(Obs::Ok(R::ShuttingDown)) = obs { acked_down = Some(acked_down.map_or(o.t_data, |t: u64| t.min(o.t_data))); }
        if shutdown_capable(o) && match obs { None => true, Some(Obs::Ok(R::ShuttingDown)) => true, Some(Obs::Err(500, ..)) => true, _ => false } { maybe_down = true; }
    }
    // an error speaks of the request it answers, not of somebody else's
    if k.sc.prop == "C07" {
        let words = |t: &str| -> Vec<String> { t.to_lowercase().split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| w.len() >= 4 && w.as_bytes()[0].is_ascii_alphabetic() && w.bytes().any(|c| c.is_ascii_digit())).map(|w| w.to_string()).collect() };
        for (o, obs) in hist.iter().zip(&obs_of) {
            if let Some(Obs::Err(_, _, text)) = obs {
                k.c.inc("error_texts");
                let own = String::from_utf8_lossy(&o.bytes).to_lowercase();
                for w in words(text) {
                    if own.contains(&w) { continue }
                    if hist.iter().any(|p| p.client != o.client && match &p.req.body { Body::Query(b) => b.iter().any(|x| x.key() == Some(&w[..])) || p.req.user == User::Unknown(w.clone()), _ => false }) {
                        v.push(Viol { class: "crosstalk".into(), text: format!("{} ({}): answered with an error about another client's request: {:?}", label(o), what(o), short(text, 200)) });
                        break
                    }
                }
            }
        }
    }
    // from here on the server may legitimately be on its way out
    let down_from = hist.iter().zip(&obs_of).filter(|(o, obs)| shutdown_capable(o) && !matches!(obs, Some(Obs::Err(s, ..)) if *s != 500) && !matches!(obs, Some(Obs::Ok(r)) if *r != R::ShuttingDown))
        .map(|(o, _)| o.t_sent.unwrap()).min().unwrap_or(u64::MAX);
    let capable = hist.iter().filter(|o| shutdown_capable(o)).count();

    for (o, obs) in hist.iter().zip(&obs_of) {
        let t_end = o.t_end.unwrap_or(end);
        let complete = o.t_sent.is_some() && !matches!(o.req.body, Body::Raw(_));
        let reads = o.req.end.reads() || matches!(o.req.end, End::FinAt(_));
        // a lone shutdown must be acknowledged; every other request may be cut off by the server's end
        let overtaken = t_end >= down_from && !(shutdown_capable(o) && capable == 1);
        let finished = o.t_end.is_some();
        if reads && finished && !overtaken {
            let bad = |v: &mut Vec<Viol>, class: &str, t: String| v.push(Viol { class: class.into(), text: format!("{} ({}): {}", label(o), what(o), t) });
            match o.how {
                How::Timeout => bad(&mut v, "unanswered", format!("no complete response within {} s ({} bytes came)", o.req.patience / SEC, o.resp.len())),
                How::Refused => bad(&mut v, "refused", format!("connection refused although the server should be running (exit: {:?} at {})", k.exit, secs(k.exit_at))),
                How::Rst if !o.faulted && o.resp.is_empty() && o.sent > 0 => bad(&mut v, "reset", "connection reset by the server without a response".into()),
                How::Fin if !o.faulted && o.resp.is_empty() && o.sent > 0 => bad(&mut v, "closed", "connection closed by the server without a response".into()),
                // (a server may answer bytes it never read with a reset, once the response is out)
                How::Rst if !o.faulted && complete && (o.req.trail.is_empty() || obs.is_none()) => bad(&mut v, "reset", format!("connection reset by the server after {} bytes of response", o.resp.len())),
                _ => {}
            }
        }
        // the connection ends as soon as the response is out
        if let (Some(c), Some(_), true) = (o.conn, obs.as_ref(), complete) {
            let c = &k.net.conns[c];
            if !c.faulted && k.exit == Exit::Running && c.last_write_at > 0 {
                let closed = c.server_closed_at.unwrap_or(end);
                let d = closed.saturating_sub(c.last_write_at);
                if d > 1500 * MS + stalled(k, c.last_write_at, closed) {
                    v.push(Viol { class: "lingering".into(), text: format!("{} ({}): connection {} {} s after the response was written", label(o), what(o), if c.server_closed_at.is_some() { "closed only" } else { "still open" }, d as f64 / 1e9) });
                }
            }
        }
        // linearizability input
        if let (Some(s), true) = (stmts(o), complete) {
            let mut ob = obs.clone();
            let mut ret = if obs.is_some() { Some(o.t_data) } else { None };
            if let Some(Obs::Err(500, _, _)) = obs {
                // (a server that is shutting down may refuse)
                if o.faulted || t_end >= down_from || (o.req.user != User::Missing && stalled(k, o.t_start.saturating_sub(SEC), t_end) >= STALL_EXCUSE) {
                    k.c.inc("indeterminate_500");
                    ob = None;
                    ret = None;
                }
            }
            lops.push(LOp { label: label(o), inv: o.t_sent.unwrap(), ret, late: end, user: o.req.user.clone(), stmts: s.clone(), obs: ob });
        }
    }

    // the server's own end
    match k.exit {
        Exit::Running => {
            if let Some(t) = acked_down {
                let lim = EXIT_BOUND + stalled(k, 0, end);
                if end > t + lim { v.push(Viol { class: "noexit".into(), text: format!("shutdown acknowledged at {}, but the server still runs at {}", secs(t), secs(end)) }) }
            }
        }
        Exit::Returned => {
            k.c.inc("server_exits");
            if !maybe_down { v.push(Viol { class: "exit".into(), text: format!("the server stopped at {} although no authorised shutdown was executed", secs(k.exit_at)) }) }
            if let Some(t) = acked_down { if k.exit_at > t + EXIT_BOUND + stalled(k, 0, end) { v.push(Viol { class: "noexit".into(), text: format!("shutdown acknowledged at {}, the server stopped only at {}", secs(t), secs(k.exit_at)) }) } }
        }
        e => v.push(Viol { class: "exit".into(), text: format!("the server process ended at {} by {:?}: {}", secs(k.exit_at), e, short(&k.panics.join("; "), 500)) }),
    }

    // resources at rest
    if k.sc.oracle.leaks && k.exit == Exit::Running && k.stop_reason == "done" {
        k.c.inc("leak_checks");
        let n = net::client_conns_open(k);
        if n > 0 { v.push(Viol { class: "leak".into(), text: format!("{} client connections are still held open by the server {} s after the last client was gone", n, k.sc.settle / SEC) }) }
        let t = k.live.len();
        let need = match k.sc.arch { Arch::Single => 1, Arch::MultiMain => 1 + 6 + 3 + 2, Arch::Multi(l, a) => 1 + 2 * l + a + 2, Arch::Async(w) => 1 + w, Arch::Lib => 0 };
        if t > need + 4 { v.push(Viol { class: "leak".into(), text: format!("{} threads run {} s after the last client was gone; the pools need {}", t, k.sc.settle / SEC, need) }) }
    }
    if k.sc.oracle.heap && k.exit == Exit::Running && k.stop_reason == "done" && k.heap_marks.len() >= 3 {
        let h0 = k.heap_marks[0].1;
        let h1 = k.heap_marks[1].1;
        let h2 = k.heap_marks.last().unwrap().1;
        let data = h1 - h0;
        if data >= 60_000 {
            k.c.inc("heap_checks");
            if h2 - h0 > data / 4 + 20_000 {
                v.push(Viol { class: "memory".into(), text: format!("expired data is not released: {} bytes of heap before the writes, {} after them, {} at the end ({} s later)", h0, h1, h2, (k.heap_marks.last().unwrap().0 - k.heap_marks[1].0) / SEC) })
            }
        } else { k.c.inc("heap_checks_void"); }
    }

    if k.sc.oracle.churn && k.exit == Exit::Running && k.stop_reason == "done" && k.heap_marks.len() >= 3 {
        let h0 = k.heap_marks[0].1;
        let h1 = k.heap_marks.last().unwrap().1;
        k.c.inc("churn_checks");
        k.c.add("churn_requests", hist.iter().filter(|o| o.t_start > k.heap_marks[0].0).count() as u64);
        if h1 - h0 > CHURN_SLACK {
            v.push(Viol { class: "memory".into(), text: format!("memory grows with the number of requests: {} bytes of heap at {}, {} bytes at the end ({} requests later) although the same data is stored", h0, secs(k.heap_marks[0].0), h1, hist.iter().filter(|o| o.t_start > k.heap_marks[0].0).count()) })
        }
    }

    // one order explains all responses
    if !lops.is_empty() {
        match lin::check(&lops, &k.clock) {
            Verdict::Ok(n) => { k.c.add("lin_nodes", n); k.c.inc("lin_ok"); }
            Verdict::Unknown => { k.c.inc("lin_unknown"); if v.is_empty() && inc.is_none() { inc = Some("linearizability search gave up".into()) } }
            Verdict::Bad(t) => v.push(Viol { class: "model".into(), text: t }),
        }
    }
    // a shutdown nobody was told about, but whose batch demonstrably took effect, counts all the same
    if v.is_empty() && inc.is_none() && k.exit == Exit::Running {
        let unheard: Vec<usize> = (0..lops.len()).filter(|i| {
            let o = &lops[*i];
            o.obs.is_none() && o.user == User::Admin && o.stmts.contains(&Stmt::Shutdown) && o.stmts.iter().all(|x| matches!(x, Stmt::Set(..) | Stmt::Shutdown))
                && end > o.inv + 2 * EXIT_BOUND + stalled(k, 0, end)
        }).collect();
        for i in unheard {
            let o = lops.remove(i);
            k.c.inc("unheard_shutdowns");
            if let Verdict::Bad(_) = lin::check(&lops, &k.clock) {
                v.push(Viol { class: "noexit".into(), text: format!("{}: the batch with the shutdown was executed (later responses show its effect), but the server still runs at {}", o.label, secs(end)) });
                break
            }
            lops.insert(i, o);
        }
    }
    k.c.add("requests", hist.len() as u64);
    k.c.add("requests_answered", obs_of.iter().filter(|o| o.is_some()).count() as u64);
    if !v.is_empty() && !k.panics.is_empty() {
        let p = short(&k.panics.join("; "), 600);
        for x in v.iter_mut().take(1) { x.text.push_str(&format!(" [panics: {}]", p)); }
    }
    let mut log = vec![];
    if want_log {
        for (o, obs) in hist.iter().zip(&obs_of) {
            log.push(format!("[{} - {}] client {} step {} {} end={:?} -> {:?} {}{}", secs(o.t_start), o.t_end.map_or("open".into(), secs), o.client, o.step, what(o), o.req.end, o.how,
                obs.as_ref().map_or_else(|| format!("{} bytes {:?}", o.resp.len(), short(&String::from_utf8_lossy(&o.resp), 120)), |x| short(&crate::model::show_obs(x), 300)), if o.faulted { " (fault injected)" } else { "" }));
        }
        for (t, o) in &k.clock { log.push(format!("[{}] wall clock offset {} ns", secs(*t), o)); }
        for (a, b) in &k.stalls { log.push(format!("[{} - {}] thread stalled", secs(*a), secs(*b))); }
        for (t, h) in &k.heap_marks { log.push(format!("[{}] live heap {}", secs(*t), h)); }
        for p in &k.panics { log.push(format!("panic {}", p)); }
        log.push(format!("end at {} ({}), server {:?} at {}; {} threads live, {} created, peak {}", secs(end), k.stop_reason, k.exit, secs(k.exit_at), k.live.len(), k.thr.len(), k.max_threads));
    }
    (v, inc, log)
}
