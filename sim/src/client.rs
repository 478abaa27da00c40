//! Simulated clients: state machines driven by the event queue, which record everything they see.
use crate::kernel::*;
use crate::net;
use crate::scenario::{Body, End, Req, Step};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How { None, Fin, Rst, Refused, Timeout, Self_ }

pub struct Op {
    pub client: usize,
    pub step: usize,
    pub req: Req,
    pub bytes: Vec<u8>,
    pub conn: Option<usize>,
    pub t_start: u64,
    pub t_conn: Option<u64>,
    /// the last byte of the whole request was sent
    pub t_sent: Option<u64>,
    pub sent: usize,
    pub resp: Vec<u8>,
    /// last byte of the response was read
    pub t_data: u64,
    pub t_end: Option<u64>,
    pub how: How,
    /// an I/O error was injected on its connection
    pub faulted: bool,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Ph { Next, Wait, Barrier(u32), Connect, Sending, Reading, Stalled }

pub struct Actor {
    pub id: usize,
    pub steps: Vec<Step>,
    pub pc: usize,
    ph: Ph,
    tok: u64,
    cut: usize,
    limit: usize,
    pub done: bool,
    pub cur: Option<usize>,
    retry_since: u64,
}
impl Actor {
    pub fn new(id: usize, steps: Vec<Step>) -> Actor {
        Actor { id, steps, pc: 0, ph: Ph::Next, tok: 0, cut: 0, limit: 0, done: false, cur: None, retry_since: 0 }
    }
}

const PATIENCE: u64 = 1 << 62;

fn timer(k: &mut K, a: usize, d: u64) {
    k.actors[a].tok += 1;
    let tok = k.actors[a].tok;
    let at = k.now.saturating_add(d);
    k.post(at, Ev::Actor(a, tok));
}
fn patience(k: &mut K, a: usize, d: u64) {
    let op = k.actors[a].cur.unwrap() as u64;
    let at = k.now.saturating_add(d);
    k.post(at, Ev::Actor(a, PATIENCE | op));
}

pub fn start(k: &mut K) {
    for a in 0..k.actors.len() { advance(k, a); }
}

fn advance(k: &mut K, a: usize) {
    loop {
        let ac = &mut k.actors[a];
        ac.ph = Ph::Next;
        if ac.pc >= ac.steps.len() { ac.done = true; release(k); return }
        match ac.steps[ac.pc].clone() {
            Step::Wait(d) => { ac.ph = Ph::Wait; return timer(k, a, d) }
            Step::WaitUntil(t) => {
                ac.ph = Ph::Wait;
                let d = t.saturating_sub(k.now);
                return timer(k, a, d)
            }
            Step::HeapMark => { ac.pc += 1; let now = k.now; k.heap_marks.push((now, unsafe { LIVE_HEAP })); }
            Step::Barrier(b) => { ac.ph = Ph::Barrier(b); return release(k) }
            Step::Req(r) => {
                let bytes = crate::http::render(&r);
                let op = Op { client: a, step: ac.pc, bytes, conn: None, t_start: k.now, t_conn: None, t_sent: None, sent: 0, resp: vec![], t_data: 0, t_end: None,
                    how: How::None, faulted: false, req: r };
                k.hist.push(op);
                let id = k.hist.len() - 1;
                let ac = &mut k.actors[a];
                ac.cur = Some(id);
                ac.cut = 0;
                ac.retry_since = k.now;
                return connect(k, a)
            }
        }
    }
}

/// Barriers whose every member arrived are passed.
fn release(k: &mut K) {
    loop {
        let mut go = None;
        for ac in &k.actors {
            if let Ph::Barrier(b) = ac.ph {
                let all = k.actors.iter().all(|o| o.done || o.ph == Ph::Barrier(b) || !o.steps[o.pc..].iter().any(|s| matches!(s, Step::Barrier(x) if *x == b)));
                if all { go = Some(b); break }
            }
        }
        let b = match go { Some(b) => b, None => return };
        let who: Vec<usize> = k.actors.iter().filter(|o| o.ph == Ph::Barrier(b)).map(|o| o.id).collect();
        for a in &who { k.actors[*a].pc += 1; k.actors[*a].ph = Ph::Wait; }
        for a in who { k.actors[a].pc -= 1; timer(k, a, 1); }
    }
}

fn connect(k: &mut K, a: usize) {
    k.actors[a].ph = Ph::Connect;
    let c = net::client_connect(k, a, 7878);
    let op = k.actors[a].cur.unwrap();
    k.hist[op].conn = Some(c);
    k.net.conns[c].faulty = k.hist[op].req.faulty;
}

fn finish(k: &mut K, a: usize, how: How) {
    let op = k.actors[a].cur.take().unwrap();
    let now = k.now;
    let o = &mut k.hist[op];
    o.how = how;
    o.t_end = Some(now);
    if let Some(c) = o.conn { o.faulted = k.net.conns[c].faulted; }
    k.c.inc(match how { How::Fin => "conn_end_fin", How::Rst => "conn_end_rst", How::Refused => "conn_refused", How::Timeout => "client_gave_up", How::Self_ => "client_closed", How::None => "conn_end_none" });
    k.actors[a].tok += 1;
    k.actors[a].pc += 1;
    advance(k, a);
}

pub fn on_refused(k: &mut K, a: usize, conn: usize) {
    let op = match k.actors[a].cur { Some(o) if k.hist[o].conn == Some(conn) => o, _ => return };
    let _ = op;
    // before the server listens for the first time, clients simply try again
    if !k.net.ever_listened && k.exit == Exit::Running && k.now < k.actors[a].retry_since + 60 * SEC {
        k.actors[a].ph = Ph::Connect;
        return timer(k, a, 500 * US);
    }
    finish(k, a, How::Refused);
}

pub fn on_connected(k: &mut K, a: usize, conn: usize) {
    let op = match k.actors[a].cur { Some(o) if k.hist[o].conn == Some(conn) => o, _ => return };
    let now = k.now;
    k.hist[op].t_conn = Some(now);
    let o = &k.hist[op];
    let n = o.bytes.len();
    let limit = match &o.req.end { End::FinAt(x) | End::CloseAt(x) | End::ResetAt(x) | End::StallAt(x, _) => (*x).min(n), _ => n };
    k.actors[a].limit = limit;
    k.actors[a].cut = 0;
    k.actors[a].ph = Ph::Sending;
    send_more(k, a);
}

/// Sends the next segment; after the last one does what the request's end says.
fn send_more(k: &mut K, a: usize) {
    let op = k.actors[a].cur.unwrap();
    let conn = k.hist[op].conn.unwrap();
    loop {
        let (from, limit, cut) = (k.hist[op].sent, k.actors[a].limit, k.actors[a].cut);
        if from >= limit { break }
        let next = k.hist[op].req.cuts.get(cut).copied();
        let (to, pause) = match next { Some((c, p)) => (c.max(from).min(limit), Some(p)), None => (limit, None) };
        if to > from {
            let b: Vec<u8> = k.hist[op].bytes[from..to].to_vec();
            net::send_bytes(k, conn, 0, &b);
            k.hist[op].sent = to;
            k.c.inc("segments_sent");
            let o = &mut k.hist[op];
            if o.t_sent.is_none() && to + o.req.trail.len() >= o.bytes.len() { o.t_sent = Some(k.now); }
            if !o.req.trail.is_empty() && to == o.bytes.len() { k.c.inc("bytes_after_request"); }
        }
        k.actors[a].cut += 1;
        if let Some(p) = pause { if to < limit { k.c.inc("segment_pauses"); return timer(k, a, p) } }
    }
    let end = k.hist[op].req.end.clone();
    let pat = k.hist[op].req.patience;
    match end {
        End::Normal | End::SlowRead(..) | End::Sip(..) | End::Linger(_) => {
            k.actors[a].ph = Ph::Reading;
            patience(k, a, pat);
            if let End::SlowRead(_, d) | End::Sip(_, d) = end { timer(k, a, d) } else { on_data(k, a, conn) }
        }
        End::HalfClose | End::FinAt(_) => {
            if let End::FinAt(n) = end { if n < k.hist[op].bytes.len() { k.c.inc("client_fin_midway") } }
            net::send_fin(k, conn, 0);
            k.actors[a].ph = Ph::Reading;
            patience(k, a, pat);
            on_data(k, a, conn)
        }
        End::CloseAt(_) => { k.c.inc("client_close_midway"); net::close_side(k, conn, 0, false); finish(k, a, How::Self_) }
        End::ResetAt(_) => { k.c.inc("client_reset_midway"); net::close_side(k, conn, 0, true); finish(k, a, How::Self_) }
        End::StallAt(_, d) => { k.c.inc("client_stall"); k.actors[a].ph = Ph::Stalled; timer(k, a, d); watch_close(k, a) }
        End::NeverRead(d) => { k.c.inc("client_never_reads"); k.actors[a].ph = Ph::Stalled; timer(k, a, d) }
        End::CloseAfter(d) | End::ResetAfter(d) => { k.actors[a].ph = Ph::Stalled; timer(k, a, d) }
    }
}

fn watch_close(k: &mut K, a: usize) {
    // a stalled sender still notices that the server ended the connection
    let op = k.actors[a].cur.unwrap();
    let conn = k.hist[op].conn.unwrap();
    let d = &k.net.conns[conn].dir[1];
    if d.fin || d.rst { let rst = d.rst; take(k, op, conn, usize::MAX); net::close_side(k, conn, 0, false); finish(k, a, if rst { How::Rst } else { How::Fin }) }
}

fn take(k: &mut K, op: usize, conn: usize, n: usize) -> usize {
    let rx = &mut k.net.conns[conn].dir[1].rx;
    let n = n.min(rx.len());
    if n == 0 { return 0 }
    let b: Vec<u8> = rx.drain(..n).collect();
    k.hist[op].resp.extend(b);
    let now = k.now;
    k.hist[op].t_data = now;
    net::after_read(k, conn, 1);
    n
}

pub fn on_data(k: &mut K, a: usize, conn: usize) {
    let op = match k.actors[a].cur { Some(o) if k.hist[o].conn == Some(conn) => o, _ => return };
    let end = k.hist[op].req.end.clone();
    match k.actors[a].ph {
        Ph::Stalled => {
            if let End::StallAt(..) = end { watch_close(k, a) }
            return
        }
        Ph::Sending | Ph::Reading => {}
        _ => return,
    }
    if let End::SlowRead(..) | End::Sip(..) = end { if k.actors[a].ph == Ph::Reading && !k.net.conns[conn].dir[1].rst { return } }
    if matches!(end, End::NeverRead(_) | End::CloseAfter(_) | End::ResetAfter(_)) { return }
    take(k, op, conn, usize::MAX);
    let d = &k.net.conns[conn].dir[1];
    let (fin, rst) = (d.fin, d.rst);
    if fin || rst {
        if let (End::Linger(d), false) = (&end, rst) {
            k.c.inc("client_lingers");
            let at = k.now + *d;
            k.post(at, Ev::Hangup(conn));
        } else { net::close_side(k, conn, 0, false) }
        finish(k, a, if matches!(end, End::Sip(..)) { How::Self_ } else if rst { How::Rst } else { How::Fin });
    }
}

pub fn on_timer(k: &mut K, a: usize, tok: u64) {
    if tok & PATIENCE != 0 {
        let op = (tok & !PATIENCE) as usize;
        if k.actors[a].cur != Some(op) { return }
        let conn = k.hist[op].conn.unwrap();
        take(k, op, conn, usize::MAX);
        net::close_side(k, conn, 0, true);
        finish(k, a, How::Timeout);
        return
    }
    if tok != k.actors[a].tok { return }
    match k.actors[a].ph {
        Ph::Wait => { k.actors[a].pc += 1; advance(k, a) }
        Ph::Connect => connect(k, a),
        Ph::Sending => {
            // the server may have ended the connection meanwhile
            let op = k.actors[a].cur.unwrap();
            let conn = k.hist[op].conn.unwrap();
            if k.net.conns[conn].dir[1].rst {
                take(k, op, conn, usize::MAX);
                net::close_side(k, conn, 0, false);
                return finish(k, a, How::Rst)
            }
            send_more(k, a)
        }
        Ph::Reading => {
            let op = k.actors[a].cur.unwrap();
            let conn = k.hist[op].conn.unwrap();
            let sips = matches!(k.hist[op].req.end, End::Sip(..));
            if let End::SlowRead(n, d) | End::Sip(n, d) = k.hist[op].req.end {
                take(k, op, conn, n);
                let dd = &k.net.conns[conn].dir[1];
                let (fin, rst, empty) = (dd.fin, dd.rst, dd.rx.is_empty());
                if empty && (fin || rst) { net::close_side(k, conn, 0, false); finish(k, a, if sips { How::Self_ } else if rst { How::Rst } else { How::Fin }) } else { if sips { k.c.inc("client_sips"); } timer(k, a, d) }
            }
        }
        Ph::Stalled => {
            let op = k.actors[a].cur.unwrap();
            let conn = k.hist[op].conn.unwrap();
            let hard = matches!(k.hist[op].req.end, End::ResetAfter(_) | End::NeverRead(_));
            net::close_side(k, conn, 0, hard);
            finish(k, a, How::Self_)
        }
        _ => {}
    }
}

pub fn show_step(s: &Step) -> String {
    match s {
        Step::Req(q) => {
            let b = match &q.body { Body::Raw(b) => format!("raw bytes {:?}", String::from_utf8_lossy(b)), _ => crate::http::query_of(q).unwrap_or_default() };
            let cuts = if q.cuts.is_empty() { String::new() } else { format!(" cuts={:?}", q.cuts) };
            format!("{:?} {} end={:?}{}", q.user, b, q.end, cuts)
        }
        s => format!("{:?}", s),
    }
}
