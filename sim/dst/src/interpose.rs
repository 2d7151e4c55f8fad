//! The seam: the C library functions through which the standard library (and
//! OpenSSL) reach the operating system are defined here, so the linker binds
//! every such call of the library under test to the simulator. Outside library
//! calls they pass straight through to the kernel.
use std::net::IpAddr;
use libc::*;
use simcore::world::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    pub static HARNESS_PANIC: Cell<bool> = const { Cell::new(false) };
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

/// Runs `f` in the simulator on behalf of an intercepted call.
fn enter<R>(dflt: R, f: impl FnOnce(&mut World) -> R) -> R {
    ACTIVE.with(|a| a.set(false));
    let r = catch_unwind(AssertUnwindSafe(|| with(f)));
    ACTIVE.with(|a| a.set(true));
    match r {
        Ok(v) => v,
        Err(_) => {
            HARNESS_PANIC.with(|h| h.set(true));
            dflt
        }
    }
}

enum Kind {
    No,
    Sock(usize),
    Fresh,
    File(usize),
}
fn kind(fd: i32) -> Kind {
    if !active() {
        return Kind::No;
    }
    enter(Kind::No, |w| match w.fds.get(&fd) {
        Some(FdObj::Conn(c)) => Kind::Sock(*c),
        Some(FdObj::Fresh { .. }) => Kind::Fresh,
        Some(FdObj::File(f)) => Kind::File(*f),
        None => Kind::No,
    })
}

fn ret(r: Result<usize, i32>) -> ssize_t {
    match r {
        Ok(n) => n as ssize_t,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn do_recv(ci: usize, buf: *mut c_void, len: usize, peek: bool, dw: bool) -> ssize_t {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    ret(enter(Err(EIO), |w| w.sys_recv(ci, b, peek, dw)))
}
unsafe fn do_send(ci: usize, buf: *const c_void, len: usize) -> ssize_t {
    let b = std::slice::from_raw_parts(buf as *const u8, len);
    ret(enter(Err(EIO), |w| w.sys_send(ci, b)))
}
unsafe fn do_file(fi: usize, fd: i32, buf: *mut c_void, len: usize, at: Option<i64>) -> ssize_t {
    let pos = at.unwrap_or_else(|| syscall(SYS_lseek, fd, 0, SEEK_CUR));
    let n = match enter(Err(EIO), |w| w.sys_file_read(fi, pos.max(0) as u64, len)) {
        Ok(n) => n,
        Err(e) => {
            set_errno(e);
            return -1;
        }
    };
    match at {
        None => syscall(SYS_read, fd, buf, n) as ssize_t,
        Some(p) => syscall(SYS_pread64, fd, buf, n, p) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => do_recv(c, buf, len, false, false),
        Kind::File(f) => do_file(f, fd, buf, len, None),
        _ => syscall(SYS_read, fd, buf, len) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: size_t, off: i64) -> ssize_t {
    match kind(fd) {
        Kind::File(f) => do_file(f, fd, buf, len, Some(off)),
        _ => syscall(SYS_pread64, fd, buf, len, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let k = kind(fd);
    if let Kind::No | Kind::Fresh = k {
        return syscall(SYS_readv, fd, iov, n) as ssize_t;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return match k {
                Kind::Sock(c) => do_recv(c, v.iov_base, v.iov_len, false, false),
                Kind::File(f) => do_file(f, fd, v.iov_base, v.iov_len, None),
                _ => unreachable!(),
            };
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => do_recv(c, buf, len, flags & MSG_PEEK != 0, flags & MSG_DONTWAIT != 0),
        _ => syscall(SYS_recvfrom, fd, buf, len, flags, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => do_recv(c, buf, len, flags & MSG_PEEK != 0, flags & MSG_DONTWAIT != 0),
        _ => syscall(SYS_recvfrom, fd, buf, len, flags, a, al) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => do_send(c, buf, len),
        _ => syscall(SYS_write, fd, buf, len) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => do_send(c, buf, len),
        _ => syscall(SYS_sendto, fd, buf, len, flags, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => do_send(c, buf, len),
        _ => syscall(SYS_sendto, fd, buf, len, flags, a, al) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    match kind(fd) {
        Kind::Sock(c) => {
            let mut all = vec![];
            for i in 0..n as usize {
                let v = &*iov.add(i);
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            do_send(c, all.as_ptr() as *const c_void, all.len())
        }
        _ => syscall(SYS_writev, fd, iov, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if active() {
        let fd = syscall(SYS_openat, AT_FDCWD, c"/dev/null".as_ptr(), O_RDWR | O_CLOEXEC) as c_int;
        if fd >= 0 {
            enter((), |w| w.sys_socket(fd));
            if ty & SOCK_NONBLOCK != 0 {
                set_nonblock(fd, true);
            }
        }
        return fd;
    }
    syscall(SYS_socket, domain, ty, proto) as c_int
}
fn set_nonblock(fd: i32, v: bool) {
    enter((), |w| match w.fds.get_mut(&fd) {
        Some(FdObj::Fresh { nonblock, .. }) => *nonblock = v,
        Some(FdObj::Conn(c)) => {
            let c = *c;
            w.conns[c].nonblock = v
        }
        _ => {}
    })
}
fn get_nonblock(fd: i32) -> bool {
    enter(false, |w| match w.fds.get(&fd) {
        Some(FdObj::Fresh { nonblock, .. }) => *nonblock,
        Some(FdObj::Conn(c)) => w.conns[*c].nonblock,
        _ => false,
    })
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if let Kind::No = kind(fd) {
        return syscall(SYS_connect, fd, addr, len) as c_int;
    }
    let (ip, port) = match (*addr).sa_family as i32 {
        AF_INET => {
            let a = &*(addr as *const sockaddr_in);
            (IpAddr::V4(u32::from_be(a.sin_addr.s_addr).into()), u16::from_be(a.sin_port))
        }
        AF_INET6 => {
            let a = &*(addr as *const sockaddr_in6);
            (IpAddr::V6(a.sin6_addr.s6_addr.into()), u16::from_be(a.sin6_port))
        }
        _ => {
            set_errno(EAFNOSUPPORT);
            return -1;
        }
    };
    match enter(Err(EIO), |w| w.sys_connect(fd, ip, port)) {
        Ok(()) => 0,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn tv(v: &timeval) -> Option<u64> {
    let n = v.tv_sec as u64 * SEC + v.tv_usec as u64 * 1000;
    if n == 0 {
        None
    } else {
        Some(n)
    }
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if let Kind::No = kind(fd) {
        return syscall(SYS_setsockopt, fd, level, name, val, len) as c_int;
    }
    if level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) {
        let t = tv(&*(val as *const timeval));
        enter((), |w| {
            let rcv = name == SO_RCVTIMEO;
            match w.fds.get_mut(&fd) {
                Some(FdObj::Fresh { rcv_to, snd_to, .. }) => *(if rcv { rcv_to } else { snd_to }) = t,
                Some(FdObj::Conn(c)) => {
                    let c = &mut w.conns[*c];
                    *(if rcv { &mut c.rcv_to } else { &mut c.snd_to }) = t
                }
                _ => {}
            }
        });
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if let Kind::No = kind(fd) {
        return syscall(SYS_getsockopt, fd, level, name, val, len) as c_int;
    }
    if level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) {
        let t = enter(0, |w| {
            let (r, s) = match w.fds.get(&fd) {
                Some(FdObj::Fresh { rcv_to, snd_to, .. }) => (*rcv_to, *snd_to),
                Some(FdObj::Conn(c)) => (w.conns[*c].rcv_to, w.conns[*c].snd_to),
                _ => (None, None),
            };
            (if name == SO_RCVTIMEO { r } else { s }).unwrap_or(0)
        });
        *(val as *mut timeval) = timeval { tv_sec: (t / SEC) as i64, tv_usec: (t % SEC / 1000) as i64 };
        *len = std::mem::size_of::<timeval>() as u32;
        return 0;
    }
    *(val as *mut c_int) = if level == SOL_SOCKET && name == SO_ERROR { enter(0, |w| w.so_error.remove(&fd).unwrap_or(0)) } else { 0 };
    *len = 4;
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    match kind(fd) {
        Kind::Sock(c) => {
            enter((), |w| {
                if how != SHUT_WR {
                    w.conns[c].shut_rd = true;
                }
                if how != SHUT_RD {
                    w.conns[c].shut_wr = true;
                }
            });
            0
        }
        Kind::Fresh => {
            set_errno(ENOTCONN);
            -1
        }
        _ => syscall(SYS_shutdown, fd, how) as c_int,
    }
}
unsafe fn fill_addr(a: *mut sockaddr, len: *mut socklen_t, ip: IpAddr, port: u16) -> c_int {
    unsafe fn put<T>(a: *mut sockaddr, len: *mut socklen_t, s: T) {
        let size = std::mem::size_of::<T>();
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, (*len as usize).min(size));
        *len = size as u32;
    }
    match ip {
        IpAddr::V4(ip) => {
            let mut s: sockaddr_in = std::mem::zeroed();
            s.sin_family = AF_INET as u16;
            s.sin_port = port.to_be();
            s.sin_addr.s_addr = u32::from(ip).to_be();
            put(a, len, s)
        }
        IpAddr::V6(ip) => {
            let mut s: sockaddr_in6 = std::mem::zeroed();
            s.sin6_family = AF_INET6 as u16;
            s.sin6_port = port.to_be();
            s.sin6_addr.s6_addr = ip.octets();
            put(a, len, s)
        }
    }
    0
}
#[repr(C)]
struct Found(addrinfo, sockaddr_storage);
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    match kind(fd) {
        Kind::Sock(c) => {
            let (s, p) = enter((IpAddr::V4(0.into()), 0), |w| {
                let s = w.conns[c].server as u32;
                (if w.conns[c].v6 { IpAddr::V6(w.ip6_of(s)) } else { IpAddr::V4(w.ip_of(s).into()) }, w.port)
            });
            fill_addr(a, len, s, p)
        }
        _ => syscall(SYS_getpeername, fd, a, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    match kind(fd) {
        Kind::Sock(c) => {
            let ip = enter(IpAddr::V4(0.into()), |w| {
                if w.conns[c].v6 {
                    IpAddr::V6(w.ip6_of(0xfff0))
                } else {
                    IpAddr::V4((if w.loopback { 127u32 << 24 | 1 } else { 10 << 24 | 78 << 16 | 1 }).into())
                }
            });
            fill_addr(a, len, ip, 40000 + (c as u16 % 20000))
        }
        _ => syscall(SYS_getsockname, fd, a, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if active() && n == 1 {
        let e = &mut *p;
        e.revents = 0;
        match kind(e.fd) {
            Kind::Sock(c) => {
                let mut r = 0i16;
                if e.events & POLLOUT != 0 {
                    r |= POLLOUT;
                }
                if e.events & POLLIN != 0 {
                    let t = if r != 0 { Some(0) } else if timeout < 0 { None } else { Some(timeout as u64 * MS) };
                    match enter(Err(EIO), |w| w.sys_poll_in(c, t)) {
                        Ok(true) => r |= POLLIN,
                        Ok(false) => {}
                        Err(x) => {
                            set_errno(x);
                            return -1;
                        }
                    }
                }
                e.revents = r;
                return (r != 0) as c_int;
            }
            Kind::Fresh => {
                let t = if timeout < 0 { None } else { Some(timeout as u64 * MS) };
                if !enter(false, |w| w.sys_poll_connect(e.fd, t)) {
                    return 0;
                }
                e.revents = e.events & POLLOUT | if enter(false, |w| w.so_error.contains_key(&e.fd)) { POLLERR | POLLHUP } else { 0 };
                return 1;
            }
            _ => {}
        }
    }
    syscall(SYS_poll, p, n, timeout) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    match kind(fd) {
        Kind::Sock(c) if req == FIONREAD => {
            *(arg as *mut c_int) = enter(0, |w| w.conns[c].rx.len() as c_int);
            0
        }
        Kind::Sock(_) | Kind::Fresh => {
            if req == FIONBIO {
                set_nonblock(fd, *(arg as *const c_int) != 0);
            }
            0
        }
        _ => syscall(SYS_ioctl, fd, req, arg) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match kind(fd) {
        Kind::No => syscall(SYS_fcntl, fd, cmd, arg) as c_int,
        k => match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => {
                let n = syscall(SYS_fcntl, fd, cmd, arg) as c_int;
                if n >= 0 {
                    enter((), |w| w.sys_dup(fd, n));
                }
                n
            }
            F_GETFL if !matches!(k, Kind::File(_)) => {
                O_RDWR | if get_nonblock(fd) { O_NONBLOCK } else { 0 }
            }
            F_SETFL if !matches!(k, Kind::File(_)) => {
                set_nonblock(fd, arg as i32 & O_NONBLOCK != 0);
                0
            }
            _ => syscall(SYS_fcntl, fd, cmd, arg) as c_int,
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let n = syscall(SYS_dup, fd) as c_int;
    if n >= 0 && !matches!(kind(fd), Kind::No) {
        enter((), |w| w.sys_dup(fd, n));
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        enter(false, |w| w.sys_close(fd));
    }
    syscall(SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    let _ = (service, hints);
    if !active() || node.is_null() {
        return EAI_FAIL;
    }
    let host = std::ffi::CStr::from_ptr(node).to_string_lossy().to_string();
    match enter(Err(EAI_FAIL), |w| w.sys_resolve(&host).map(|s| w.addresses(s))) {
        Ok(ips) => {
            let mut head: *mut addrinfo = std::ptr::null_mut();
            for ip in ips.iter().rev() {
                let b = Box::new(Found(std::mem::zeroed(), std::mem::zeroed()));
                let p = Box::into_raw(b);
                let mut len = std::mem::size_of::<sockaddr_storage>() as u32;
                let sa = &mut (*p).1 as *mut _ as *mut sockaddr;
                fill_addr(sa, &mut len, *ip, 0);
                (*p).0.ai_family = (*sa).sa_family as i32;
                (*p).0.ai_socktype = SOCK_STREAM;
                (*p).0.ai_addrlen = len;
                (*p).0.ai_addr = sa;
                (*p).0.ai_next = head;
                head = p as *mut addrinfo;
            }
            *res = head;
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut addrinfo) {
    let mut p = res;
    while !p.is_null() {
        let b = Box::from_raw(p as *mut Found);
        p = b.0.ai_next;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if SIM_THREAD.try_with(|s| s.get()).unwrap_or(false) {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        RAND.with(|r| {
            let mut x = r.get();
            for c in b.chunks_mut(8) {
                let v = simcore::choice::splitmix(&mut x).to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
            r.set(x);
        });
        return len as ssize_t;
    }
    syscall(SYS_getrandom, buf, len, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        let n = enter(0, |w| w.now);
        let base = if clk == CLOCK_REALTIME { enter(0, |w| w.wall_clock()) } else { 5000 };
        *ts = timespec { tv_sec: base + (n / SEC) as i64, tv_nsec: (n % SEC) as i64 };
        return 0;
    }
    syscall(SYS_clock_gettime, clk, ts) as c_int
}
unsafe fn sleep_for(t: *const timespec) -> c_int {
    let d = (*t).tv_sec as u64 * SEC + (*t).tv_nsec as u64;
    enter((), |w| w.advance(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        return sleep_for(req);
    }
    syscall(SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() && flags == 0 {
        return sleep_for(req);
    }
    if syscall(SYS_clock_nanosleep, clk, flags, req, rem) == 0 {
        0
    } else {
        *__errno_location()
    }
}

// ---------- memory ----------
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
    /// What library calls of this run have allocated and nobody has freed.
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static RELEASE: Cell<bool> = const { Cell::new(false) };
}

fn live(n: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + n));
}

fn counting() -> bool {
    active() || RELEASE.try_with(|r| r.get()).unwrap_or(false)
}

pub fn mem_live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Drops what the library handed to the application.
pub fn release<T>(x: T) {
    RELEASE.with(|r| r.set(true));
    drop(x);
    RELEASE.with(|r| r.set(false));
}
pub static HUGE: u64 = 1 << 30;
/// Total a single library call may hold before the process is stopped.
const HARD: i64 = 6 << 30;

pub struct Tracker;

fn add(n: i64) -> bool {
    CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        v <= HARD
    })
    .unwrap_or(true)
}

pub fn mem_begin() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
}

unsafe impl std::alloc::GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let n = l.size();
        if counting() {
            live(n as i64);
        }
        if active() && !add(n as i64) && n < HUGE as usize {
            return std::ptr::null_mut();
        }
        if n as u64 > HUGE {
            // address space only: an out-of-proportion reservation is noted
            // (PEAK) without consuming memory
            let p = mmap(std::ptr::null_mut(), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            return if p == MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 };
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() as u64 > HUGE {
            return self.alloc(l);
        }
        if counting() {
            live(l.size() as i64);
        }
        if active() && !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if counting() {
            live(-(l.size() as i64));
        }
        if active() {
            add(-(l.size() as i64));
        }
        if l.size() as u64 > HUGE {
            munmap(p as *mut c_void, l.size());
            return;
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        if l.size() as u64 > HUGE || new as u64 > HUGE {
            let nl = std::alloc::Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        if counting() {
            live(new as i64 - l.size() as i64);
        }
        if active() && !add(new as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, new)
    }
}
