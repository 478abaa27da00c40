//! The simulated kernel's descriptors: TCP connections between simulated clients and the server, listeners, eventfd,
//! socketpairs, epoll. All in memory, all timing from the event queue.
use crate::kernel::*;
use crate::raw;
use std::collections::{BTreeMap, VecDeque};

pub const FD_BASE: i32 = 1000;

#[derive(Default)]
pub struct Dir {
    /// accepted from the sender, not yet on the wire
    pub sendq: VecDeque<u8>,
    pub inflight: usize,
    pub rx: VecDeque<u8>,
    pub cap_send: usize,
    pub cap_rx: usize,
    pub last_at: u64,
    pub fin_pending: bool,
    pub fin_sent: bool,
    pub fin: bool,
    pub rst: bool,
    pub total: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ep { Pending, Actor(usize), Obj(usize), Closed }

pub struct Conn {
    pub dir: [Dir; 2],
    pub ep: [Ep; 2],
    pub lat: (u64, u64),
    /// injected I/O errors allowed here
    pub faulty: bool,
    /// an error was injected
    pub faulted: bool,
    pub dead: [bool; 2],
    pub linger0: [bool; 2],
    pub accepted_at: Option<u64>,
    pub server_closed_at: Option<u64>,
    pub last_write_at: u64,
    /// bytes the server handed to the kernel as its response
    pub resp_bytes: u64,
    pub port: u16,
}

pub enum Kind {
    Sock { port: u16 },
    Listener { port: u16, pending: VecDeque<usize> },
    Conn { conn: usize, side: usize, rcvto: u64, sndto: u64, rst_reported: bool, shut_wr: bool, shut_rd: bool },
    EventFd { count: u64, sem: bool },
    Epoll { regs: BTreeMap<i32, Reg> },
}
pub struct Obj { pub kind: Kind, pub refs: u32, pub nonblock: bool }
pub struct Reg { pub events: u32, pub data: u64, pub pend: u32, pub obj: usize }

#[derive(Default)]
pub struct Net {
    pub conns: Vec<Conn>,
    pub objs: Vec<Option<Obj>>,
    pub fds: Vec<Option<usize>>,
    pub accept_err: VecDeque<i32>,
    pub max_open: usize,
    pub fd_peak: usize,
    pub epolls: Vec<usize>,
    pub ever_listened: bool,
}

pub const IN: u32 = libc::EPOLLIN as u32;
pub const OUT: u32 = libc::EPOLLOUT as u32;
pub const ERR: u32 = libc::EPOLLERR as u32;
pub const HUP: u32 = libc::EPOLLHUP as u32;
pub const RDHUP: u32 = libc::EPOLLRDHUP as u32;
pub const ET: u32 = libc::EPOLLET as u32;

impl Net {
    pub fn new_obj(&mut self, kind: Kind, nonblock: bool) -> usize {
        self.objs.push(Some(Obj { kind, refs: 0, nonblock }));
        self.objs.len() - 1
    }
    pub fn new_fd(&mut self, obj: usize) -> i32 {
        self.objs[obj].as_mut().unwrap().refs += 1;
        let i = match self.fds.iter().position(|f| f.is_none()) {
            Some(i) => { self.fds[i] = Some(obj); i }
            None => { self.fds.push(Some(obj)); self.fds.len() - 1 }
        };
        self.fd_peak = self.fd_peak.max(self.fds.iter().filter(|f| f.is_some()).count());
        FD_BASE + i as i32
    }
    pub fn obj_of(&self, fd: i32) -> Option<usize> {
        if fd < FD_BASE { return None }
        *self.fds.get((fd - FD_BASE) as usize)?
    }
    pub fn obj(&mut self, o: usize) -> &mut Obj { self.objs[o].as_mut().unwrap() }
    /// Client connections currently held open by the server process.
    pub fn open_conns(&self) -> usize {
        self.fds.iter().flatten().filter(|o| matches!(self.objs[**o].as_ref().unwrap().kind, Kind::Conn { side: 1, .. })).count()
    }
    pub fn find_listener(&self, port: u16) -> Option<usize> {
        self.objs.iter().position(|o| matches!(o, Some(Obj { kind: Kind::Listener { port: p, .. }, .. }) if *p == port))
    }
}

/// Level-triggered readiness of an object.
pub fn ready(k: &K, o: usize) -> u32 {
    let ob = match &k.net.objs[o] { Some(o) => o, None => return HUP };
    match &ob.kind {
        Kind::Sock { .. } => OUT | HUP,
        Kind::Listener { pending, .. } => if pending.is_empty() && k.net.accept_err.is_empty() { 0 } else if pending.is_empty() { 0 } else { IN },
        Kind::EventFd { count, .. } => OUT | if *count > 0 { IN } else { 0 },
        Kind::Epoll { .. } => 0,
        Kind::Conn { conn, side, shut_wr, .. } => {
            let c = &k.net.conns[*conn];
            let r = &c.dir[1 - *side];
            let w = &c.dir[*side];
            let mut b = 0;
            if !r.rx.is_empty() || r.fin || r.rst { b |= IN }
            if r.fin || r.rst { b |= RDHUP }
            if r.rst { b |= ERR | HUP | OUT }
            if r.fin && *shut_wr { b |= HUP }
            if w.sendq.len() + w.inflight < w.cap_send || c.dead[1 - *side] { b |= OUT }
            b
        }
    }
}

/// Something changed on an object: wakes sleepers, records edges.
pub fn notify(k: &mut K, o: usize, bits: u32) {
    k.wake_key(Key::Obj(o));
    k.wake_key(Key::Net);
    for i in 0..k.net.epolls.len() {
        let e = k.net.epolls[i];
        let mut hit = false;
        if let Some(Obj { kind: Kind::Epoll { regs }, .. }) = &mut k.net.objs[e] {
            for r in regs.values_mut() {
                if r.obj == o {
                    let b = bits & (r.events | ERR | HUP);
                    if b != 0 { r.pend |= b; hit = true; }
                }
            }
        }
        if hit { k.wake_key(Key::Epoll(e)); }
    }
}

pub fn new_conn(k: &mut K, a: Ep, lat: (u64, u64), port: u16) -> usize {
    let (snd, rcv) = (k.sc.cfg.sndbuf, k.sc.cfg.rcvbuf);
    let mut c = Conn { dir: [Dir::default(), Dir::default()], ep: [a, Ep::Pending], lat, faulty: false, faulted: false, dead: [false, false], linger0: [false, false],
        accepted_at: None, server_closed_at: None, last_write_at: 0, resp_bytes: 0, port };
    c.dir[0].cap_send = usize::MAX / 2; // a client's own kernel takes everything
    c.dir[0].cap_rx = rcv;
    c.dir[1].cap_send = snd;
    c.dir[1].cap_rx = k.sc.cfg.crcv;
    k.net.conns.push(c);
    k.net.conns.len() - 1
}

fn latency(k: &mut K, lat: (u64, u64)) -> u64 {
    let span = lat.1.saturating_sub(lat.0);
    lat.0 + if span == 0 { 0 } else { k.nett.draw(|r| match r.below(3) { 0 => 0, 1 => r.below(span / 8 + 1), _ => r.below(span + 1) }) }
}

/// A client asks for a connection: it arrives after the network latency.
pub fn client_connect(k: &mut K, actor: usize, port: u16) -> usize {
    let lat = (k.sc.cfg.lat_min, k.sc.cfg.lat_max);
    let c = new_conn(k, Ep::Actor(actor), lat, port);
    let at = k.now + latency(k, lat);
    k.net.conns[c].dir[0].last_at = at;
    k.post(at, Ev::Arrive { conn: c });
    c
}

pub fn arrive(k: &mut K, conn: usize) {
    let port = k.net.conns[conn].port;
    if k.net.conns[conn].dead[0] { return }
    match k.net.find_listener(port) {
        None => {
            if let Ep::Actor(a) = k.net.conns[conn].ep[0] { crate::client::on_refused(k, a, conn); }
        }
        Some(l) => {
            if let Kind::Listener { pending, .. } = &mut k.net.obj(l).kind { pending.push_back(conn); }
            notify(k, l, IN);
            if let Ep::Actor(a) = k.net.conns[conn].ep[0] { crate::client::on_connected(k, a, conn); }
        }
    }
}

/// Puts queued bytes of one direction on the wire as far as the receiver's window allows.
pub fn pump(k: &mut K, conn: usize, d: usize) {
    loop {
        let c = &mut k.net.conns[conn];
        let lat = c.lat;
        let dd = &mut c.dir[d];
        if dd.sendq.is_empty() { break }
        let win = dd.cap_rx.saturating_sub(dd.rx.len() + dd.inflight);
        let n = dd.sendq.len().min(win);
        if n == 0 { return }
        let bytes: Vec<u8> = dd.sendq.drain(..n).collect();
        dd.inflight += n;
        let at0 = dd.last_at;
        let now = k.now;
        let at = at0.max(now + latency(k, lat));
        k.net.conns[conn].dir[d].last_at = at;
        k.post(at, Ev::Deliver { conn, dir: d, bytes, fin: false, rst: false });
    }
    let c = &mut k.net.conns[conn];
    let lat = c.lat;
    let dd = &mut c.dir[d];
    if dd.fin_pending && !dd.fin_sent {
        dd.fin_sent = true;
        let at0 = dd.last_at;
        let at = at0.max(k.now + latency(k, lat));
        k.net.conns[conn].dir[d].last_at = at;
        k.post(at, Ev::Deliver { conn, dir: d, bytes: vec![], fin: true, rst: false });
    }
}

pub fn send_bytes(k: &mut K, conn: usize, d: usize, b: &[u8]) {
    let dd = &mut k.net.conns[conn].dir[d];
    dd.sendq.extend(b);
    dd.total += b.len() as u64;
    pump(k, conn, d);
}
pub fn send_fin(k: &mut K, conn: usize, d: usize) {
    k.net.conns[conn].dir[d].fin_pending = true;
    pump(k, conn, d);
}
pub fn send_rst(k: &mut K, conn: usize, d: usize) {
    let c = &mut k.net.conns[conn];
    let lat = c.lat;
    c.dir[d].sendq.clear();
    let at0 = c.dir[d].last_at;
    let at = at0.max(k.now + latency(k, lat));
    k.net.conns[conn].dir[d].last_at = at;
    k.post(at, Ev::Deliver { conn, dir: d, bytes: vec![], fin: false, rst: true });
}

pub fn deliver(k: &mut K, conn: usize, d: usize, bytes: Vec<u8>, fin: bool, rst: bool) {
    let rside = 1 - d; // direction 0 is received by side 1
    {
        let c = &mut k.net.conns[conn];
        c.dir[d].inflight -= bytes.len();
        if c.dead[rside] {
            // The receiver closed completely: its kernel answers data with a reset.
            // (only once everything it had to say is on its way)
            if !bytes.is_empty() && !c.dead[d] && c.dir[rside].sendq.is_empty() {
                send_rst(k, conn, rside);
            }
            sender_progress(k, conn, d);
            return;
        }
        c.dir[d].rx.extend(&bytes);
        if fin { c.dir[d].fin = true }
        if rst { c.dir[d].rst = true; c.dir[rside].sendq.clear(); }
    }
    let mut bits = 0;
    if !bytes.is_empty() { bits |= IN }
    if fin { bits |= IN | RDHUP }
    if rst { bits |= IN | OUT | ERR | HUP | RDHUP }
    match k.net.conns[conn].ep[rside] {
        Ep::Obj(o) => notify(k, o, bits),
        Ep::Actor(a) => crate::client::on_data(k, a, conn),
        _ => {}
    }
    sender_progress(k, conn, d);
}

/// Bytes of direction d left the sender's buffer.
fn sender_progress(k: &mut K, conn: usize, d: usize) {
    if let Ep::Obj(o) = k.net.conns[conn].ep[d] { notify(k, o, OUT); }
}

/// The receiver of direction d took bytes out of its buffer.
pub fn after_read(k: &mut K, conn: usize, d: usize) { pump(k, conn, d) }

/// The given side closes the connection completely.
pub fn close_side(k: &mut K, conn: usize, side: usize, hard: bool) {
    let c = &mut k.net.conns[conn];
    if c.dead[side] { return }
    c.dead[side] = true;
    c.ep[side] = Ep::Closed;
    if side == 1 { c.server_closed_at = Some(k.now); }
    let unread = !c.dir[1 - side].rx.is_empty();
    c.dir[1 - side].rx.clear();
    let peer_rst = c.dir[1 - side].rst;
    if peer_rst { return }
    if hard || c.linger0[side] {
        send_rst(k, conn, side);
    } else if unread {
        // TCP: closing with unread data resets the connection (after what was already sent).
        pump(k, conn, side);
        let c = &mut k.net.conns[conn];
        if c.dir[side].sendq.is_empty() { send_rst(k, conn, side) } else { c.dir[side].fin_pending = true; }
    } else {
        send_fin(k, conn, side);
    }
}

fn err(e: i32) -> i64 { unsafe { raw::set_errno(e); } -1 }

pub fn sys_socket(nonblock: bool) -> i64 {
    let k = k();
    let o = k.net.new_obj(Kind::Sock { port: 0 }, nonblock);
    k.net.new_fd(o) as i64
}
pub fn sys_bind(fd: i32, port: u16) -> i64 {
    let k = k();
    let o = match k.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
    if k.net.find_listener(port).is_some() { return err(libc::EADDRINUSE) }
    k.net.obj(o).kind = Kind::Sock { port };
    0
}
pub fn sys_listen(fd: i32) -> i64 {
    let k = k();
    let o = match k.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
    if let Kind::Sock { port } = k.net.obj(o).kind { k.net.obj(o).kind = Kind::Listener { port, pending: VecDeque::new() }; k.net.ever_listened = true; }
    0
}
/// Server-side connect (the server connecting to itself).
pub fn sys_connect(fd: i32, port: u16) -> i64 {
    let kk = k();
    let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
    let l = match kk.net.find_listener(port) { Some(l) => l, None => return err(libc::ECONNREFUSED) };
    let c = new_conn(kk, Ep::Obj(o), (20 * US, 20 * US), port);
    kk.net.conns[c].dir[0].cap_send = 1 << 17;
    kk.net.obj(o).kind = Kind::Conn { conn: c, side: 0, rcvto: 0, sndto: 0, rst_reported: false, shut_wr: false, shut_rd: false };
    if let Kind::Listener { pending, .. } = &mut kk.net.obj(l).kind { pending.push_back(c); }
    notify(kk, l, IN);
    notify(kk, o, OUT);
    0
}
pub fn sys_accept(fd: i32, nonblock: bool) -> i64 {
    loop {
        let kk = k();
        let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
        let lnb = kk.net.obj(o).nonblock;
        let has = match &kk.net.obj(o).kind { Kind::Listener { pending, .. } => !pending.is_empty(), _ => return err(libc::EINVAL) };
        if has {
            let mut e = kk.net.accept_err.pop_front();
            let p = kk.sc.cfg.p_accept_err;
            if e.is_none() && kk.fault(p) {
                let i = kk.fault.below(4) as usize;
                e = Some([libc::EMFILE, libc::ECONNABORTED, libc::ENOBUFS, libc::EINTR][i]);
            }
            if let Some(e) = e {
                kk.c.inc(match e { libc::EMFILE => "accept_EMFILE", libc::ECONNABORTED => "accept_ECONNABORTED", libc::EINTR => "accept_EINTR", _ => "accept_other_errno" });
                if e == libc::ECONNABORTED {
                    // the connection at the head of the queue is gone
                    let c = match &mut kk.net.obj(o).kind { Kind::Listener { pending, .. } => pending.pop_front().unwrap(), _ => 0 };
                    kk.net.conns[c].faulted = true;
                    close_side(kk, c, 1, true);
                }
                return err(e);
            }
            let c = match &mut kk.net.obj(o).kind { Kind::Listener { pending, .. } => pending.pop_front().unwrap(), _ => 0 };
            let so = kk.net.new_obj(Kind::Conn { conn: c, side: 1, rcvto: 0, sndto: 0, rst_reported: false, shut_wr: false, shut_rd: false }, nonblock);
            kk.net.conns[c].ep[1] = Ep::Obj(so);
            let now = kk.now;
            kk.net.conns[c].accepted_at = Some(now);
            let n = kk.net.open_conns() + 1;
            kk.net.max_open = kk.net.max_open.max(n);
            return kk.net.new_fd(so) as i64;
        }
        if lnb { return err(libc::EAGAIN) }
        block(Key::Obj(o), None);
    }
}

pub fn conn_of(k: &mut K, fd: i32) -> Option<(usize, usize, usize)> {
    let o = k.net.obj_of(fd)?;
    match k.net.obj(o).kind { Kind::Conn { conn, side, .. } => Some((o, conn, side)), _ => None }
}

pub fn sys_read(fd: i32, buf: &mut [u8], flags: i32) -> i64 {
    let kk = k();
    let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
    if let Kind::EventFd { count, sem } = &mut kk.net.obj(o).kind {
        if *count == 0 { return err(libc::EAGAIN) }
        let v: u64 = if *sem { *count -= 1; 1 } else { let v = *count; *count = 0; v };
        buf[..8].copy_from_slice(&v.to_ne_bytes());
        return 8;
    }
    let start = kk.now;
    loop {
        let kk = k();
        let (o, conn, side) = match conn_of(kk, fd) { Some(x) => x, None => return err(libc::ENOTCONN) };
        let nb = kk.net.obj(o).nonblock || flags & libc::MSG_DONTWAIT != 0;
        let d = 1 - side;
        if kk.net.conns[conn].faulty {
            let p = kk.sc.cfg.p_read_err;
            if kk.fault(p) {
                let i = kk.fault.below(4) as usize;
                let e = [libc::ECONNRESET, libc::EINTR, libc::EIO, libc::ETIMEDOUT][i];
                if !(nb && e == libc::EINTR) {
                    kk.net.conns[conn].faulted = true;
                    kk.c.inc("read_error");
                    return err(e);
                }
            }
        }
        let c = &mut kk.net.conns[conn];
        let (rcvto, shut) = match &kk.net.objs[o].as_ref().unwrap().kind { Kind::Conn { rcvto, shut_rd, .. } => (*rcvto, *shut_rd), _ => (0, false) };
        let dd = &mut c.dir[d];
        if buf.is_empty() { return 0 }
        if !dd.rx.is_empty() {
            let n = dd.rx.len().min(buf.len());
            if flags & libc::MSG_PEEK != 0 {
                for i in 0..n { buf[i] = dd.rx[i]; }
                return n as i64;
            }
            for (i, b) in dd.rx.drain(..n).enumerate() { buf[i] = b; }
            after_read(kk, conn, d);
            return n as i64;
        }
        if dd.rst {
            let rep = match &mut kk.net.obj(o).kind { Kind::Conn { rst_reported, .. } => { let r = *rst_reported; *rst_reported = true; r } _ => true };
            return if rep { 0 } else { err(libc::ECONNRESET) };
        }
        if dd.fin || shut {
            if side == 1 { kk.c.inc("server_read_eof"); }
            return 0
        }
        if nb { return err(libc::EAGAIN) }
        let dl = if rcvto > 0 { Some(start + rcvto) } else { None };
        if let Some(t) = dl { if kk.now >= t { kk.c.inc("read_timeout"); return err(libc::EAGAIN) } }
        block(Key::Obj(o), dl);
    }
}

pub fn sys_write(fd: i32, buf: &[u8], flags: i32) -> i64 {
    let kk = k();
    let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
    if let Kind::EventFd { count, .. } = &mut kk.net.obj(o).kind {
        let mut b = [0u8; 8];
        b.copy_from_slice(&buf[..8]);
        *count += u64::from_ne_bytes(b);
        notify(kk, o, IN | OUT);
        return 8;
    }
    let start = kk.now;
    let mut done = 0usize;
    loop {
        let kk = k();
        let (o, conn, side) = match conn_of(kk, fd) { Some(x) => x, None => return err(libc::ENOTCONN) };
        let nb = kk.net.obj(o).nonblock || flags & libc::MSG_DONTWAIT != 0;
        let (sndto, shut) = match &kk.net.objs[o].as_ref().unwrap().kind { Kind::Conn { sndto, shut_wr, .. } => (*sndto, *shut_wr), _ => (0, false) };
        if kk.net.conns[conn].faulty && done == 0 {
            let p = kk.sc.cfg.p_write_err;
            if kk.fault(p) {
                let i = kk.fault.below(4) as usize;
                let e = [libc::EPIPE, libc::ECONNRESET, libc::EINTR, libc::EIO][i];
                if !(nb && e == libc::EINTR) {
                    // (an interrupted write is retried by every sane writer: not a loss)
                    if e != libc::EINTR { kk.net.conns[conn].faulted = true; }
                    kk.c.inc("write_error");
                    return err(e);
                }
            }
        }
        let c = &mut kk.net.conns[conn];
        if c.dir[1 - side].rst || shut { if done > 0 { return done as i64 } kk.c.inc("write_EPIPE"); return err(if shut { libc::EPIPE } else { libc::ECONNRESET }) }
        let dd = &mut c.dir[side];
        let space = dd.cap_send.saturating_sub(dd.sendq.len() + dd.inflight);
        let want = buf.len() - done;
        let mut n = want.min(space);
        if n > 1 && !nb {
            let p = kk.sc.cfg.p_short_write;
            if kk.fault(p) {
                // a blocking write cut short (as by a signal)
                n = 1 + kk.fault.below(n as u64 - 1) as usize;
                kk.c.inc("short_write");
                if side == 1 { kk.net.conns[conn].resp_bytes += n as u64; let now = kk.now; kk.net.conns[conn].last_write_at = now; }
                send_bytes(kk, conn, side, &buf[done..done + n]);
                return (done + n) as i64;
            }
        }
        if n > 0 || want == 0 {
            if side == 1 { kk.net.conns[conn].resp_bytes += n as u64; let now = kk.now; kk.net.conns[conn].last_write_at = now; }
            send_bytes(kk, conn, side, &buf[done..done + n]);
            done += n;
            if done == buf.len() { return done as i64 }
        }
        if nb {
            if done > 0 { kk.c.inc("partial_write"); return done as i64 }
            kk.c.inc("write_would_block");
            return err(libc::EAGAIN);
        }
        let dl = if sndto > 0 { Some(start + sndto) } else { None };
        if let Some(t) = dl { if kk.now >= t {
            kk.c.inc("write_timeout");
            return if done > 0 { done as i64 } else { err(libc::EAGAIN) };
        } }
        kk.c.inc("write_blocked");
        block(Key::Obj(o), dl);
    }
}

pub fn sys_close(fd: i32) -> i64 {
    let kk = k();
    let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) };
    kk.net.fds[(fd - FD_BASE) as usize] = None;
    for i in 0..kk.net.epolls.len() {
        let e = kk.net.epolls[i];
        if let Some(Obj { kind: Kind::Epoll { regs }, .. }) = &mut kk.net.objs[e] { regs.remove(&fd); }
    }
    let ob = kk.net.obj(o);
    ob.refs -= 1;
    if ob.refs == 0 { drop_obj(kk, o) }
    0
}

fn drop_obj(k: &mut K, o: usize) {
    let ob = k.net.objs[o].take().unwrap();
    match ob.kind {
        Kind::Conn { conn, side, .. } => close_side(k, conn, side, false),
        Kind::Listener { pending, .. } => for c in pending { close_side(k, c, 1, true) },
        Kind::Epoll { .. } => k.net.epolls.retain(|e| *e != o),
        _ => {}
    }
}

/// The server process ended: its kernel closes every descriptor.
pub fn process_gone(k: &mut K) {
    for i in 0..k.net.fds.len() {
        if let Some(o) = k.net.fds[i].take() {
            if let Some(ob) = k.net.objs[o].as_mut() {
                ob.refs -= 1;
                if ob.refs == 0 { drop_obj(k, o) }
            }
        }
    }
}

pub fn sys_shutdown(fd: i32, how: i32) -> i64 {
    let kk = k();
    let (o, conn, side) = match conn_of(kk, fd) { Some(x) => x, None => {
        // shutdown on a listener wakes its accept calls with EINVAL on Linux
        if let Some(o) = kk.net.obj_of(fd) {
            if let Kind::Listener { port, .. } = kk.net.obj(o).kind { kk.net.obj(o).kind = Kind::Sock { port }; notify(kk, o, IN | HUP); return 0 }
        }
        return err(libc::ENOTCONN) } };
    if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
        if let Kind::Conn { shut_wr, .. } = &mut kk.net.obj(o).kind { *shut_wr = true }
        send_fin(kk, conn, side);
    }
    if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
        if let Kind::Conn { shut_rd, .. } = &mut kk.net.obj(o).kind { *shut_rd = true }
        notify(kk, o, IN | RDHUP);
    }
    0
}

pub fn sys_eventfd(init: u32, flags: i32) -> i64 {
    let k = k();
    let o = k.net.new_obj(Kind::EventFd { count: init as u64, sem: flags & libc::EFD_SEMAPHORE != 0 }, true);
    k.net.new_fd(o) as i64
}
pub fn sys_epoll_create() -> i64 {
    let k = k();
    let o = k.net.new_obj(Kind::Epoll { regs: BTreeMap::new() }, false);
    k.net.epolls.push(o);
    k.net.new_fd(o) as i64
}
pub fn sys_epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut libc::epoll_event) -> i64 {
    let k = k();
    let e = match k.net.obj_of(ep) { Some(o) => o, None => return err(libc::EBADF) };
    let o = match k.net.obj_of(fd) { Some(o) => o, None => return err(libc::EPERM) };
    let cur = ready(k, o);
    let mut fire = false;
    if let Kind::Epoll { regs } = &mut k.net.obj(e).kind {
        match op {
            libc::EPOLL_CTL_DEL => { if regs.remove(&fd).is_none() { return err(libc::ENOENT) } }
            _ => {
                let (events, data) = unsafe { ((*ev).events, (*ev).u64) };
                if op == libc::EPOLL_CTL_ADD && regs.contains_key(&fd) { return err(libc::EEXIST) }
                if op == libc::EPOLL_CTL_MOD && !regs.contains_key(&fd) { return err(libc::ENOENT) }
                let pend = cur & (events | ERR | HUP);
                fire = pend != 0;
                regs.insert(fd, Reg { events, data, pend, obj: o });
            }
        }
    }
    if fire { k.wake_key(Key::Epoll(e)); }
    0
}
pub fn sys_epoll_wait(ep: i32, evs: *mut libc::epoll_event, max: i32, timeout_ns: Option<u64>) -> i64 {
    let deadline = timeout_ns.map(|t| k().now + t);
    loop {
        let kk = k();
        let e = match kk.net.obj_of(ep) { Some(o) => o, None => return err(libc::EBADF) };
        let list: Vec<(i32, u32, u64, u32, usize)> = match &kk.net.obj(e).kind {
            Kind::Epoll { regs } => regs.iter().map(|(f, r)| (*f, r.events, r.data, r.pend, r.obj)).collect(),
            _ => return err(libc::EINVAL),
        };
        let mut out: Vec<(i32, u32, u64)> = vec![];
        for (f, events, data, pend, o) in &list {
            let now = ready(kk, *o) & (*events | ERR | HUP);
            let bits = if events & ET != 0 { now & pend } else { now };
            if bits != 0 { out.push((*f, bits, *data)); }
        }
        if !out.is_empty() {
            let rot = kk.sched.below(out.len() as u64) as usize;
            out.rotate_left(rot);
            let n = out.len().min(max as usize);
            for (i, (f, bits, data)) in out[..n].iter().enumerate() {
                unsafe { (*evs.add(i)) = libc::epoll_event { events: *bits, u64: *data }; }
                if let Kind::Epoll { regs } = &mut kk.net.obj(e).kind { if let Some(r) = regs.get_mut(f) { r.pend = 0; } }
            }
            return n as i64;
        }
        if let Some(d) = deadline { if kk.now >= d { return 0 } }
        block(Key::Epoll(e), deadline);
    }
}
pub fn sys_poll(fds: &mut [libc::pollfd], timeout_ns: Option<u64>) -> i64 {
    let deadline = timeout_ns.map(|t| k().now + t);
    loop {
        let kk = k();
        let mut n = 0;
        for p in fds.iter_mut() {
            p.revents = 0;
            if p.fd < 0 { continue }
            match kk.net.obj_of(p.fd) {
                None => { if p.fd >= FD_BASE { p.revents = libc::POLLNVAL; n += 1 } }
                Some(o) => {
                    let r = ready(kk, o) as i16 & (p.events | libc::POLLERR | libc::POLLHUP);
                    p.revents = r;
                    if r != 0 { n += 1 }
                }
            }
        }
        if n > 0 { return n }
        if let Some(d) = deadline { if kk.now >= d { return 0 } }
        block(Key::Net, deadline);
    }
}
pub fn sys_socketpair(nonblock: bool) -> (i32, i32) {
    let k = k();
    let c = new_conn(k, Ep::Pending, (0, 0), 0);
    for d in 0..2 { k.net.conns[c].dir[d].cap_send = 1 << 16; k.net.conns[c].dir[d].cap_rx = 1 << 16; }
    let mut f = [0; 2];
    for side in 0..2 {
        // counted as an internal connection, not a client one: both ends use side 0/1 of a conn with port 0
        let o = k.net.new_obj(Kind::Conn { conn: c, side, rcvto: 0, sndto: 0, rst_reported: false, shut_wr: false, shut_rd: false }, nonblock);
        k.net.conns[c].ep[side] = Ep::Obj(o);
        f[side] = k.net.new_fd(o);
    }
    (f[0], f[1])
}
pub fn client_conns_open(k: &K) -> usize {
    k.net.fds.iter().flatten().filter(|o| match &k.net.objs[**o].as_ref().unwrap().kind {
        Kind::Conn { conn, side: 1, .. } => k.net.conns[*conn].port != 0,
        _ => false,
    }).count()
}
