//! The functions of libc that this program redefines. While no run is in progress, or while the simulator itself is
//! running, they pass to the real kernel; otherwise the simulated one answers.
use crate::kernel::*;
use crate::net;
use crate::raw;
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, size_t, sockaddr, socklen_t, ssize_t, timespec, timeval};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

#[inline(always)]
fn sim() -> bool { unsafe { ACTIVE && !IN_SIM } }
#[inline(always)]
fn enter() { unsafe { IN_SIM = true } }
#[inline(always)]
fn leave() { unsafe { IN_SIM = false } }
/// Runs simulator code on behalf of the system under test.
#[inline(always)]
fn with<R>(f: impl FnOnce() -> R) -> R { enter(); let r = f(); leave(); r }
fn is_sim_fd(fd: c_int) -> bool { fd >= net::FD_BASE }
/// Cost of a system call, and sometimes a pre-emption at its end.
fn cost() {
    let kk = k();
    kk.now += 200;
    let p = kk.sc.cfg.slice_p;
    if p > 0.0 && kk.slice.chance(p * 0.3) { maybe_switch() }
}
fn err(e: i32) -> i64 { unsafe { raw::set_errno(e) }; -1 }

// ---- allocation accounting -------------------------------------------------------------------------------------
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if sim() { LIVE_HEAP += l.size() as i64; ALLOCS += 1 } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if sim() { LIVE_HEAP -= l.size() as i64 } System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if sim() { LIVE_HEAP += l.size() as i64 } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sim() { LIVE_HEAP += n as i64 - l.size() as i64 }
        System.realloc(p, l, n)
    }
}

// ---- pre-emption points ----------------------------------------------------------------------------------------
pub static GUARDS: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 { return }
    let mut p = start;
    while p < stop {
        *p = GUARDS.fetch_add(1, Ordering::Relaxed) as u32 + 1;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE || IN_SIM { return }
    let c = COVER.add(*guard as usize % COVER_N);
    if *c == 0 { *c = 1 }
    COUNTDOWN -= 1;
    if COUNTDOWN <= 0 {
        IN_SIM = true;
        slice_expired();
        IN_SIM = false;
    }
}

// ---- time ------------------------------------------------------------------------------------------------------
fn ts(t: i64) -> timespec { timespec { tv_sec: t.div_euclid(SEC as i64), tv_nsec: t.rem_euclid(SEC as i64) } }
unsafe fn ns(t: *const timespec) -> u64 {
    if (*t).tv_sec < 0 { return 0 }
    ((*t).tv_sec as u64).saturating_mul(SEC).saturating_add((*t).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, tp: *mut timespec) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_clock_gettime, id as i64, tp as i64, 0, 0, 0, 0) as c_int }
    with(|| {
        let kk = k();
        kk.now += 50;
        *tp = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => ts(kk.read_wall()),
            _ => ts(kk.now as i64 + MONO0 as i64),
        };
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0) as c_int }
    with(|| {
        let t = ts(k().read_wall());
        *tv = timeval { tv_sec: t.tv_sec, tv_usec: t.tv_nsec / 1000 };
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut t: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut t);
    if !out.is_null() { *out = t.tv_sec }
    t.tv_sec
}
fn sleep_ns(d: u64) {
    let kk = k();
    let slack = kk.sc.cfg.sleep_slack;
    let extra = 50 * US + if slack > 0 { kk.sched.draw(|r| if r.chance(0.3) { r.below(slack) } else { 0 }) } else { 0 };
    let mut at = kk.now.saturating_add(d).saturating_add(extra);
    if kk.sc.cfg.tick > 0 { at = (at / kk.sc.cfg.tick + 1).saturating_mul(kk.sc.cfg.tick) }
    let lazy = if d < 200 * MS { kk.lazy() } else { 0 };
    crate::kernel::block_lazy(Key::Sleep, at, lazy);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) as c_int }
    with(|| { sleep_ns(ns(req)); 0 })
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !sim() { return -(raw::sc6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int) }
    with(|| {
        let mut d = ns(req);
        if flags & libc::TIMER_ABSTIME != 0 {
            let kk = k();
            d = if id == libc::CLOCK_REALTIME { (d as i64 - kk.wall()).max(0) as u64 } else { d.saturating_sub(kk.now + MONO0) };
        }
        sleep_ns(d);
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let t = ts(us as i64 * US as i64);
    nanosleep(&t, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !sim() { return raw::libc6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int }
    with(|| { yielded(); 0 })
}

// ---- randomness ------------------------------------------------------------------------------------------------
fn fill(buf: *mut c_void, n: size_t) {
    let s = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
    let kk = k();
    for c in s.chunks_mut(8) {
        let v = kk.rand.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !sim() { return raw::libc6(libc::SYS_getrandom, buf as i64, n as i64, flags as i64, 0, 0, 0) as ssize_t }
    with(|| { if n > 0 { fill(buf, n) } n as ssize_t })
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    if getrandom(buf, n, 0) == n as ssize_t { 0 } else { -1 }
}

// ---- threads ---------------------------------------------------------------------------------------------------
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut u64, *const c_void, Start, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(u64, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_EXIT: Option<unsafe extern "C" fn(c_int) -> !> = None;
static mut TSD: libc::pthread_key_t = 0;

unsafe fn next_sym(name: &[u8]) -> *mut c_void { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) }
/// Once, before any run.
pub fn init() {
    unsafe {
        REAL_CREATE = std::mem::transmute(next_sym(b"pthread_create\0"));
        REAL_JOIN = std::mem::transmute(next_sym(b"pthread_join\0"));
        REAL_EXIT = std::mem::transmute(next_sym(b"exit\0"));
        libc::pthread_key_create(&raw mut TSD, Some(tsd_dtor));
    }
}
struct Spawn { start: Start, arg: *mut c_void, baton: *const AtomicU32 }

unsafe extern "C" fn tsd_dtor(v: *mut c_void) {
    // Runs among the destructors of thread-specific data: again after the others, so that theirs run while this
    // thread still holds the baton.
    let n = v as usize;
    if n > 1 { libc::pthread_setspecific(TSD, (n - 1) as *const c_void); return }
    if !ACTIVE { return }
    IN_SIM = true;
    thread_exit();
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let sp = Box::from_raw(p as *mut Spawn);
        // (allocated and freed by simulator code: see below)
        wait_baton(&*sp.baton);
        libc::pthread_setspecific(TSD, 3 as *const c_void);
        let (start, arg) = (sp.start, sp.arg);
        drop(sp);
        k().first_slice();
        leave();
        start(arg)
    }
}
/// Creates a simulated thread. Simulator context.
pub fn spawn_thread(attr: *const c_void, start: Start, arg: *mut c_void, native: *mut u64) -> Result<usize, c_int> {
    let kk = k();
    let t = kk.spawn_thr();
    let sp = Box::into_raw(Box::new(Spawn { start, arg, baton: &*kk.thr[t].baton }));
    let r = unsafe { REAL_CREATE.unwrap()(native, attr, trampoline, sp as *mut c_void) };
    if r != 0 {
        kk.live.retain(|x| *x != t);
        kk.thr[t].st = St::Exited;
        return Err(r);
    }
    kk.thr[t].pthread = unsafe { *native };
    kk.c.inc("threads_created");
    Ok(t)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(native: *mut u64, attr: *const c_void, start: Start, arg: *mut c_void) -> c_int {
    if !sim() {
        if REAL_CREATE.is_none() { init() }
        return REAL_CREATE.unwrap()(native, attr, start, arg);
    }
    with(|| {
        let kk = k();
        let p = kk.sc.cfg.p_thread_err;
        // not during the start-up, where giving up is in order
        if p > 0.0 && kk.cur != 0 && kk.net.conns.iter().any(|c| c.resp_bytes > 0) && kk.fault(p) {
            kk.c.inc("thread_EAGAIN");
            cost();
            return libc::EAGAIN;
        }
        match spawn_thread(attr, start, arg, native) {
            Ok(_) => { k().now += 15 * US; cost(); 0 }
            Err(e) => e,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, ret: *mut *mut c_void) -> c_int {
    if sim() {
        with(|| loop {
            let kk = k();
            let id = match kk.thr.iter().rposition(|x| x.pthread == t) { Some(i) => i, None => break };
            if kk.thr[id].st == St::Exited { kk.thr[id].pthread = 0; break }
            block(Key::Join(id), None);
        });
    }
    if REAL_JOIN.is_none() { init() }
    REAL_JOIN.unwrap()(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: size_t, set: *mut c_void) -> c_int {
    if !sim() { let r = raw::libc6(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0); return if r >= 0 { 0 } else { -1 } }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    *(set as *mut u8) = 0x0f;
    0
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if !sim() {
        if REAL_EXIT.is_none() { init() }
        REAL_EXIT.unwrap()(code)
    }
    exited(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if !sim() { raw::exit_group(code) }
    exited(code)
}
fn exited(code: c_int) -> ! {
    enter();
    system_exited(Exit::ExitCall(code));
    block(Key::Desched, None);
    park_forever()
}

// ---- futex and other raw system calls --------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if !sim() { return raw::libc6(n, a, b, c, d, e, f) }
    match n {
        libc::SYS_futex => with(|| futex(a as usize, b as i32, c as u32, d, f as u32)),
        libc::SYS_getrandom => with(|| { if b > 0 { fill(a as *mut c_void, b as usize) } b }),
        libc::SYS_gettid => k().cur as i64 + 100_000,
        libc::SYS_clock_gettime => clock_gettime(a as i32, b as *mut timespec) as i64,
        libc::SYS_sched_yield => sched_yield() as i64,
        _ => raw::libc6(n, a, b, c, d, e, f),
    }
}
unsafe fn futex(addr: usize, op: i32, val: u32, arg: i64, _bits: u32) -> i64 {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let kk = k();
    kk.now += 100;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if *(addr as *const u32) != val { return err(libc::EAGAIN) }
            let p = kk.sc.cfg.p_spurious;
            if kk.fault(p) { kk.c.inc("spurious_wakeup"); return 0 }
            let t = arg as *const timespec;
            let deadline = if t.is_null() { None } else {
                let v = ns(t);
                Some(if cmd == libc::FUTEX_WAIT { kk.now.saturating_add(v) }
                    else if op & libc::FUTEX_CLOCK_REALTIME != 0 { kk.now.saturating_add((v as i64).saturating_sub(kk.wall()).max(0) as u64) }
                    else { v.saturating_sub(MONO0) })
            };
            if let Some(d) = deadline { if d <= kk.now { return err(libc::ETIMEDOUT) } }
            match block(Key::Futex(addr), deadline) {
                Wake::Woken => 0,
                Wake::Timeout => err(libc::ETIMEDOUT),
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let n = kk.futex_wake(addr, val as usize) as i64;
            cost();
            n
        }
        _ => err(libc::ENOSYS),
    }
}

// ---- descriptors -----------------------------------------------------------------------------------------------
unsafe fn slice_mut<'a>(p: *mut c_void, n: size_t) -> &'a mut [u8] { if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(p as *mut u8, n) } }
unsafe fn slice<'a>(p: *const c_void, n: size_t) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p as *const u8, n) } }

unsafe fn do_read(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    with(|| { let r = net::sys_read(fd, slice_mut(p, n), flags); let e = errno(); cost(); set(e); r as ssize_t })
}
unsafe fn do_write(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    with(|| { let r = net::sys_write(fd, slice(p, n), flags); let e = errno(); cost(); set(e); r as ssize_t })
}
fn errno() -> i32 { unsafe { *libc::__errno_location() } }
fn set(e: i32) { unsafe { raw::set_errno(e) } }

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_read, fd as i64, p as i64, n as i64, 0, 0, 0) as ssize_t }
    do_read(fd, p, n, 0)
}
fn write_log(n: size_t) -> ssize_t {
    let kk = k();
    kk.now += 300;
    let p = kk.sc.cfg.p_log_err;
    if p > 0.0 && kk.net.conns.iter().any(|c| c.resp_bytes > 0) && kk.fault(p) {
        kk.c.inc("log_error");
        let e = [libc::ENOSPC, libc::EPIPE, libc::EIO][kk.fault.below(3) as usize];
        unsafe { *libc::__errno_location() = e; }
        return -1;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if !sim() { return raw::libc6(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0) as ssize_t }
    if fd == 2 { with(|| { let kk = k(); if kk.stderr.len() < 8192 { kk.stderr.extend(slice(p, n)); } }); return n as ssize_t }
    if fd == 1 { return with(|| write_log(n)) }
    if !is_sim_fd(fd) { return raw::libc6(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0) as ssize_t }
    do_write(fd, p, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_recvfrom, fd as i64, p as i64, n as i64, flags as i64, 0, 0) as ssize_t }
    do_read(fd, p, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_recvfrom, fd as i64, p as i64, n as i64, flags as i64, a as i64, al as i64) as ssize_t }
    do_read(fd, p, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_sendto, fd as i64, p as i64, n as i64, flags as i64, 0, 0) as ssize_t }
    do_write(fd, p, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_sendto, fd as i64, p as i64, n as i64, flags as i64, a as i64, al as i64) as ssize_t }
    do_write(fd, p, n, flags)
}
unsafe fn iov_read(fd: c_int, iov: *const iovec, cnt: c_int, flags: c_int) -> ssize_t {
    let total: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    enter();
    let mut buf = vec![0u8; total];
    let r = net::sys_read(fd, &mut buf, flags);
    if r > 0 {
        let mut off = 0usize;
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            let n = v.iov_len.min(r as usize - off);
            std::ptr::copy_nonoverlapping(buf.as_ptr().add(off), v.iov_base as *mut u8, n);
            off += n;
        }
    }
    let e = errno();
    drop(buf);
    set(e);
    leave();
    r as ssize_t
}
unsafe fn iov_write(fd: c_int, iov: *const iovec, cnt: c_int, flags: c_int) -> ssize_t {
    if fd == 1 || fd == 2 {
        let mut t = 0;
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            let r = write(fd, v.iov_base, v.iov_len);
            if r < 0 { return if t > 0 { t as ssize_t } else { r } }
            t += v.iov_len;
        }
        return t as ssize_t;
    }
    enter();
    let mut buf = vec![];
    for i in 0..cnt as usize { let v = &*iov.add(i); buf.extend_from_slice(slice(v.iov_base, v.iov_len)); }
    let r = net::sys_write(fd, &buf, flags);
    let e = errno();
    drop(buf);
    set(e);
    leave();
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0) as ssize_t }
    iov_read(fd, iov, cnt, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !sim() || (!is_sim_fd(fd) && fd != 1 && fd != 2) { return raw::libc6(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0) as ssize_t }
    iov_write(fd, iov, cnt, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, flags: c_int) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_recvmsg, fd as i64, m as i64, flags as i64, 0, 0, 0) as ssize_t }
    (*m).msg_controllen = 0;
    (*m).msg_namelen = 0;
    iov_read(fd, (*m).msg_iov, (*m).msg_iovlen as c_int, flags)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, flags: c_int) -> ssize_t {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_sendmsg, fd as i64, m as i64, flags as i64, 0, 0, 0) as ssize_t }
    iov_write(fd, (*m).msg_iov, (*m).msg_iovlen as c_int, flags)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int }
    with(|| net::sys_close(fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_socket, dom as i64, ty as i64, proto as i64, 0, 0, 0) as c_int }
    with(|| net::sys_socket(ty & libc::SOCK_NONBLOCK != 0) as c_int)
}
unsafe fn port_of(a: *const sockaddr) -> u16 {
    u16::from_be((*(a as *const libc::sockaddr_in)).sin_port)
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int }
    with(|| net::sys_bind(fd, port_of(a)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_listen, fd as i64, n as i64, 0, 0, 0, 0) as c_int }
    with(|| net::sys_listen(fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int }
    with(|| net::sys_connect(fd, port_of(a)) as c_int)
}
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, port: u16) {
    if a.is_null() || l.is_null() { return }
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = 0x0100007f;
    let n = (*l as usize).min(std::mem::size_of::<libc::sockaddr_in>());
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_accept4, fd as i64, a as i64, l as i64, flags as i64, 0, 0) as c_int }
    with(|| {
        let r = net::sys_accept(fd, flags & libc::SOCK_NONBLOCK != 0);
        let e = errno();
        if r >= 0 { put_addr(a, l, 40_000 + (r as u16 % 20_000)); }
        cost();
        set(e);
        r as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int { accept4(fd, a, l, 0) }
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int }
    put_addr(a, l, 40_000 + (fd as u16 % 20_000));
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int }
    put_addr(a, l, 7878);
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0) as c_int }
    with(|| net::sys_shutdown(fd, how) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_setsockopt, fd as i64, level as i64, name as i64, v as i64, l as i64, 0) as c_int }
    with(|| {
        if level == libc::SOL_SOCKET && (name == libc::SO_RCVTIMEO || name == libc::SO_SNDTIMEO) && l as usize >= std::mem::size_of::<timeval>() {
            let tv = &*(v as *const timeval);
            let t = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * US;
            let kk = k();
            if let Some(o) = kk.net.obj_of(fd) {
                if let net::Kind::Conn { rcvto, sndto, .. } = &mut kk.net.obj(o).kind {
                    if name == libc::SO_RCVTIMEO { *rcvto = t } else { *sndto = t }
                }
            }
        }
        if level == libc::SOL_SOCKET && name == libc::SO_LINGER && l >= 8 {
            let lg = &*(v as *const libc::linger);
            let kk = k();
            if let Some((_, conn, side)) = net::conn_of(kk, fd) { kk.net.conns[conn].linger0[side] = lg.l_onoff != 0 && lg.l_linger == 0; }
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_getsockopt, fd as i64, level as i64, name as i64, v as i64, l as i64, 0) as c_int }
    std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
    if level == libc::SOL_SOCKET && name == libc::SO_TYPE && *l >= 4 { *(v as *mut c_int) = libc::SOCK_STREAM }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int }
    with(|| {
        let kk = k();
        let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) as c_int };
        match cmd {
            libc::F_GETFL => libc::O_RDWR | if kk.net.obj(o).nonblock { libc::O_NONBLOCK } else { 0 },
            libc::F_SETFL => { kk.net.obj(o).nonblock = arg as i32 & libc::O_NONBLOCK != 0; 0 }
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => kk.net.new_fd(o),
            _ => 0,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int { fcntl(fd, cmd, arg) }
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0) as c_int }
    fcntl(fd, libc::F_DUPFD_CLOEXEC, 0)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_int) -> c_int {
    if !sim() || !is_sim_fd(fd) { return raw::libc6(libc::SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0) as c_int }
    with(|| {
        let kk = k();
        let o = match kk.net.obj_of(fd) { Some(o) => o, None => return err(libc::EBADF) as c_int };
        if req == libc::FIONBIO { kk.net.obj(o).nonblock = *arg != 0; }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if !sim() || n == 0 || !(0..n as usize).any(|i| is_sim_fd((*fds.add(i)).fd)) {
        return raw::libc6(libc::SYS_poll, fds as i64, n as i64, timeout as i64, 0, 0, 0) as c_int;
    }
    with(|| net::sys_poll(std::slice::from_raw_parts_mut(fds, n as usize), if timeout < 0 { None } else { Some(timeout as u64 * MS) }) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: libc::nfds_t, t: *const timespec, m: *const c_void) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_ppoll, fds as i64, n as i64, t as i64, m as i64, 8, 0) as c_int }
    with(|| net::sys_poll(std::slice::from_raw_parts_mut(fds, n as usize), if t.is_null() { None } else { Some(ns(t)) }) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_epoll_create1, flags as i64, 0, 0, 0, 0, 0) as c_int }
    with(|| net::sys_epoll_create() as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !sim() || !is_sim_fd(ep) { return raw::libc6(libc::SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0) as c_int }
    with(|| net::sys_epoll_ctl(ep, op, fd, ev) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !sim() || !is_sim_fd(ep) { return raw::libc6(libc::SYS_epoll_wait, ep as i64, evs as i64, max as i64, timeout as i64, 0, 0) as c_int }
    with(|| net::sys_epoll_wait(ep, evs, max, if timeout < 0 { None } else { Some(timeout as u64 * MS) }) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int, _s: *const c_void) -> c_int {
    epoll_wait(ep, evs, max, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_eventfd2, init as i64, flags as i64, 0, 0, 0, 0) as c_int }
    with(|| net::sys_eventfd(init, flags) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(dom: c_int, ty: c_int, proto: c_int, sv: *mut c_int) -> c_int {
    if !sim() { return raw::libc6(libc::SYS_socketpair, dom as i64, ty as i64, proto as i64, sv as i64, 0, 0) as c_int }
    with(|| {
        let (a, b) = net::sys_socketpair(ty & libc::SOCK_NONBLOCK != 0);
        *sv = a;
        *sv.add(1) = b;
        0
    })
}
