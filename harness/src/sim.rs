//! The endpoint under test (EUT) runs unmodified on a thread of its own. Its sockets are
//! simulated below libc: recv/send/accept4/... on registered descriptors are served from
//! in-memory queues, so that segmentation, short writes, faults, end of stream and the wall
//! clock are chosen by the harness, every byte is seen, and "blocked" is a logical state
//! (waiting for input, nothing left to deliver) instead of a timeout.
use crate::rng::Rng;
use anothertls::net::alert::TlsError;
use anothertls::net::TlsStream;
use libc::{c_int, c_void, iovec, msghdr, size_t, sockaddr, socklen_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::net::{TcpListener, TcpStream};
use std::os::fd::FromRawFd;
use std::os::unix::thread::JoinHandleExt;
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU64, Ordering};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static SKIP: Cell<bool> = const { Cell::new(false) };
    /// State of the generator of pauses, 0: none
    static JITTER: Cell<u64> = const { Cell::new(0) };
}
/// Whether new EUT threads pause at random places
static JITTER_EUT: AtomicU64 = AtomicU64::new(0);
pub fn jitter_endpoints(on: bool) {
    JITTER_EUT.store(on as u64, Ordering::SeqCst);
}
/// From now on this thread gives way at random allocations and file operations (0: no more)
pub fn jitter(seed: u64) {
    JITTER.with(|j| j.set(if seed == 0 { 0 } else { seed | 1 }));
}
fn give_way(rate: u64) {
    let _ = JITTER.try_with(|j| {
        let mut x = j.get();
        if x == 0 {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        j.set(x);
        let k = (x >> 20) % (64 * rate);
        if k < 60 {
            if k < 4 {
                std::thread::sleep(Duration::from_micros(20));
            } else if k < 30 {
                std::thread::yield_now();
            } else {
                for _ in 0..100 {
                    std::hint::spin_loop();
                }
            }
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !account(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !account(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !account(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
fn account(d: i64) -> bool {
    CUR.try_with(|c| {
        if SKIP.with(|s| s.get()) {
            return true;
        }
        if d > 0 {
            give_way(16);
        }
        let n = c.get() + d;
        if d > 0 && n > LIMIT.with(|l| l.get()) {
            return false;
        }
        c.set(n);
        PEAK.with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
        true
    })
    .unwrap_or(true)
}
fn mem_reset() {
    CUR.with(|c| PEAK.with(|p| p.set(c.get())));
}
fn mem_peak_over(base: i64) -> i64 {
    PEAK.with(|p| p.get()) - base
}
fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    SKIP.with(|s| s.set(true));
    let r = f();
    SKIP.with(|s| s.set(false));
    r
}
thread_local! {
    /// Heap memory taken and not given back within calls of the crate
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// Descriptors of files opened by this thread and not closed
    static OPENED: RefCell<Vec<c_int>> = const { RefCell::new(vec![]) };
}
/// A call of the crate by the EUT thread
fn held<T>(f: impl FnOnce() -> T) -> T {
    let base = CUR.with(|c| c.get());
    let r = f();
    let d = CUR.with(|c| c.get()) - base;
    LIVE.with(|l| l.set(l.get() + d));
    r
}
/// Peak heap growth of this thread while f runs
pub fn measure_heap<T>(f: impl FnOnce() -> T) -> (T, i64) {
    mem_reset();
    let base = CUR.with(|c| c.get());
    let r = f();
    (r, mem_peak_over(base))
}

// ---------------------------------------------------------------- virtual sockets
pub struct Inner {
    inq: VecDeque<u8>,
    /// bytes delivered so far
    fed: u64,
    in_eof: bool,
    in_rst: bool,
    out: Vec<u8>,
    taken: usize,
    waiting: bool,
    pub closed: bool,
    /// descriptors of this socket
    refs: usize,
    busy: bool,
    spin: Option<&'static str>,
    result: Option<Res>,
    recv_caps: Caps,
    send_caps: Caps,
    fail_send_at: Option<usize>,
    send_errno: i32,
    /// one in n calls of recv fails as with a timeout, or is interrupted by a signal
    recv_faults: Option<(Rng, usize)>,
    pub recv_failed: u64,
    pub interrupted: u64,
    pub recvs: u64,
    pub sends: u64,
    pub eof_reads: u64,
    pub failed_sends: u64,
}
/// How many bytes one recv/send call moves at most
#[derive(Clone)]
pub enum Caps {
    All,
    Fixed(usize),
    Random(Rng, usize),
    /// Explicit sizes, then everything
    List(VecDeque<usize>),
}
impl Caps {
    fn next(&mut self) -> usize {
        match self {
            Caps::All => usize::MAX,
            Caps::Fixed(n) => *n,
            Caps::Random(r, m) => {
                if r.one_in(6) {
                    1
                } else {
                    r.range(1, *m)
                }
            }
            Caps::List(l) => l.pop_front().unwrap_or(usize::MAX),
        }
    }
    /// A signal arrives during the call: it fails with EINTR and has to be made again
    fn interrupted(&mut self) -> bool {
        match self {
            Caps::Random(r, _) => r.one_in(9),
            _ => false,
        }
    }
    pub fn random(rng: &mut Rng) -> Caps {
        match rng.below(6) {
            0 | 1 => Caps::All,
            2 => Caps::Fixed(1),
            3 => Caps::Fixed(*rng.pick(&[2, 3, 4, 5, 6, 7, 16, 21, 22, 100, 1460, 4095])),
            _ => {
                let m = *rng.pick(&[3, 10, 64, 600, 3000, 5000]);
                Caps::Random(Rng::new(rng.u64()), m)
            }
        }
    }
}
pub struct Conn {
    m: Mutex<Inner>,
    cv: Condvar,
}
impl Conn {
    pub fn new() -> Arc<Conn> {
        Arc::new(Conn {
            m: Mutex::new(Inner {
                inq: VecDeque::new(),
                fed: 0,
                in_eof: false,
                in_rst: false,
                out: vec![],
                taken: 0,
                waiting: false,
                closed: false,
                refs: 0,
                busy: false,
                spin: None,
                result: None,
                recv_caps: Caps::All,
                send_caps: Caps::All,
                fail_send_at: None,
                send_errno: libc::EPIPE,
                recv_faults: None,
                recv_failed: 0,
                interrupted: 0,
                recvs: 0,
                sends: 0,
                eof_reads: 0,
                failed_sends: 0,
            }),
            cv: Condvar::new(),
        })
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        f(&mut self.m.lock().unwrap())
    }
    pub fn set_caps(&self, recv: Caps, send: Caps) {
        self.with(|i| {
            i.recv_caps = recv;
            i.send_caps = send;
        })
    }
    pub fn fail_send_at(&self, n: Option<usize>) {
        self.with(|i| i.fail_send_at = n)
    }
    pub fn send_errno(&self, e: i32) {
        self.with(|i| i.send_errno = e)
    }
    pub fn recv_faults(&self, f: Option<(Rng, usize)>) {
        self.with(|i| i.recv_faults = f)
    }
    pub fn feed(&self, d: &[u8]) {
        let mut d = d;
        while let Some(n) = split(d.len()) {
            self.with(|i| {
                i.fed += n as u64;
                i.inq.extend(&d[..n])
            });
            self.cv.notify_all();
            self.settle();
            step();
            d = &d[n..];
        }
        self.with(|i| {
            i.fed += d.len() as u64;
            i.inq.extend(d)
        });
        self.cv.notify_all();
    }
    /// Until the EUT waits for more or its command is done
    fn settle(&self) {
        let mut i = self.m.lock().unwrap();
        let t0 = Instant::now();
        while i.busy && !(i.waiting && i.inq.is_empty()) && i.spin.is_none() && t0.elapsed() < Duration::from_secs(20) {
            i = self.cv.wait_timeout(i, Duration::from_millis(500)).unwrap().0;
        }
    }
    pub fn eof(&self) {
        self.with(|i| i.in_eof = true);
        self.cv.notify_all();
    }
    pub fn rst(&self) {
        self.with(|i| i.in_rst = true);
        self.cv.notify_all();
    }
    /// Bytes sent by the EUT since the last call
    pub fn take(&self) -> Vec<u8> {
        self.with(|i| {
            let v = i.out[i.taken..].to_vec();
            i.taken = i.out.len();
            v
        })
    }
    /// Everything the EUT ever sent
    pub fn sent(&self) -> Vec<u8> {
        self.with(|i| i.out.clone())
    }
    pub fn sent_len(&self) -> usize {
        self.with(|i| i.out.len())
    }
    pub fn unread(&self) -> usize {
        self.with(|i| i.inq.len())
    }
    pub fn is_closed(&self) -> bool {
        self.with(|i| i.closed)
    }

    fn do_recv(&self, bufs: &mut [&mut [u8]], peek: bool) -> isize {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let mut i = self.m.lock().unwrap();
        if let Some((r, n)) = i.recv_faults.as_mut() {
            if r.one_in(*n) {
                let e = *r.pick(&[libc::EAGAIN, libc::EAGAIN, libc::EINTR]);
                if e == libc::EINTR {
                    i.interrupted += 1;
                } else {
                    i.recv_failed += 1;
                }
                return -(e as isize);
            }
        }
        if i.recv_caps.interrupted() {
            i.interrupted += 1;
            return -(libc::EINTR as isize);
        }
        loop {
            i.recvs += 1;
            if !i.inq.is_empty() {
                let cap = i.recv_caps.next().max(1);
                let n = total.min(cap).min(i.inq.len());
                let mut k = 0;
                for b in bufs.iter_mut() {
                    for x in b.iter_mut() {
                        if k == n {
                            break;
                        }
                        *x = if peek { i.inq[k] } else { i.inq.pop_front().unwrap() };
                        k += 1;
                    }
                }
                return n as isize;
            }
            if i.in_rst {
                return -(libc::ECONNRESET as isize);
            }
            if i.in_eof {
                i.eof_reads += 1;
                if i.eof_reads > 2000 {
                    i.spin = Some("the end of the connection is ignored: more than 2000 reads after it");
                    self.cv.notify_all();
                    drop(i);
                    loop {
                        std::thread::sleep(Duration::from_secs(3600));
                    }
                }
                return 0;
            }
            i.waiting = true;
            self.cv.notify_all();
            i = self.cv.wait(i).unwrap();
            i.waiting = false;
        }
    }
    fn do_send(&self, bufs: &[&[u8]]) -> isize {
        let mut i = self.m.lock().unwrap();
        i.sends += 1;
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 {
            return 0;
        }
        if i.send_caps.interrupted() {
            i.interrupted += 1;
            return -(libc::EINTR as isize);
        }
        let cap = i.send_caps.next().max(1);
        let mut n = total.min(cap);
        if let Some(limit) = i.fail_send_at {
            let left = limit.saturating_sub(i.out.len());
            if left == 0 {
                i.failed_sends += 1;
                return -(i.send_errno as isize);
            }
            n = n.min(left);
        }
        let mut k = n;
        for b in bufs {
            let m = b.len().min(k);
            uncounted(|| i.out.extend_from_slice(&b[..m]));
            k -= m;
        }
        n as isize
    }
}

const TAB: usize = 8192;
#[allow(clippy::declare_interior_mutable_const)]
const NULLP: AtomicPtr<Ent> = AtomicPtr::new(std::ptr::null_mut());
static TABLE: [AtomicPtr<Ent>; TAB] = [NULLP; TAB];
enum Ent {
    Conn(Arc<Conn>),
    Listener,
}
thread_local! {
    static PENDING: RefCell<Option<Arc<Conn>>> = const { RefCell::new(None) };
    static CLOCK: Cell<Option<i64>> = const { Cell::new(None) };
}
fn ent(fd: c_int) -> Option<&'static Ent> {
    if fd < 0 || fd as usize >= TAB {
        return None;
    }
    let p = TABLE[fd as usize].load(Ordering::Acquire);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}
fn conn(fd: c_int) -> Option<Arc<Conn>> {
    match ent(fd) {
        Some(Ent::Conn(c)) => Some(c.clone()),
        _ => None,
    }
}
fn register(e: Ent) -> c_int {
    unsafe {
        let fd = libc::syscall(libc::SYS_socket, libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) as c_int;
        assert!(fd >= 0 && (fd as usize) < TAB, "socket: {fd}");
        if let Ent::Conn(c) = &e {
            c.with(|i| i.refs += 1);
        }
        let old = TABLE[fd as usize].swap(Box::into_raw(Box::new(e)), Ordering::AcqRel);
        assert!(old.is_null());
        fd
    }
}
/// Sets the wall clock (CLOCK_REALTIME) seen by the current thread
pub fn set_clock(t: Option<i64>) {
    CLOCK.with(|c| c.set(t));
}

unsafe fn ret(r: isize) -> ssize_t {
    if r < 0 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}
unsafe fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> ssize_t {
    libc::syscall(n, a, b, c, d, e, f) as ssize_t
}
unsafe fn slice<'a>(p: *const c_void, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
unsafe fn slice_mut<'a>(p: *mut c_void, n: usize) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(p as *mut u8, n)
    }
}
#[no_mangle]
unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_recv(&mut [slice_mut(p, n)], flags & libc::MSG_PEEK != 0)),
        None => raw(libc::SYS_recvfrom, fd as usize, p as usize, n, flags as usize, 0, 0),
    }
}
#[no_mangle]
unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_recv(&mut [slice_mut(p, n)], flags & libc::MSG_PEEK != 0)),
        None => raw(libc::SYS_recvfrom, fd as usize, p as usize, n, flags as usize, a as usize, l as usize),
    }
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_recv(&mut [slice_mut(p, n)], false)),
        None => {
            let mut n = n;
            let e = faults(|f| {
                if let Some(e) = f.read {
                    return Some(e);
                }
                let r = f.short.as_mut()?;
                n = r.range(n.min(1), n);
                r.one_in(4).then_some(libc::EINTR)
            });
            if let Some(e) = e {
                return failed(e);
            }
            let r = raw(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0);
            give_way(1);
            r
        }
    }
}
unsafe fn iov<'a>(v: *const iovec, n: usize) -> Vec<&'a mut [u8]> {
    (0..n).map(|i| slice_mut((*v.add(i)).iov_base, (*v.add(i)).iov_len)).collect()
}
#[no_mangle]
unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_recv(&mut iov(v, n as usize), false)),
        None => raw(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0),
    }
}
#[no_mangle]
unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_recv(&mut iov((*m).msg_iov, (*m).msg_iovlen), flags & libc::MSG_PEEK != 0)),
        None => raw(libc::SYS_recvmsg, fd as usize, m as usize, flags as usize, 0, 0, 0),
    }
}
#[no_mangle]
unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_send(&[slice(p, n)])),
        None => raw(libc::SYS_sendto, fd as usize, p as usize, n, flags as usize, 0, 0),
    }
}
#[no_mangle]
unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_send(&[slice(p, n)])),
        None => raw(libc::SYS_sendto, fd as usize, p as usize, n, flags as usize, a as usize, l as usize),
    }
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    match conn(fd) {
        Some(c) => ret(c.do_send(&[slice(p, n)])),
        None => match file_write(fd, &[slice(p, n)]) {
            Some(n) => n,
            None => raw(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0),
        },
    }
}
#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match conn(fd) {
        Some(c) => {
            let b = iov(v, n as usize);
            let b: Vec<&[u8]> = b.iter().map(|x| &**x).collect();
            ret(c.do_send(&b))
        }
        None => {
            let b = iov(v, n as usize);
            let b: Vec<&[u8]> = b.iter().map(|x| &**x).collect();
            match file_write(fd, &b) {
                Some(n) => n,
                None => raw(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0),
            }
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    match conn(fd) {
        Some(c) => {
            let b = iov((*m).msg_iov, (*m).msg_iovlen);
            let b: Vec<&[u8]> = b.iter().map(|x| &**x).collect();
            ret(c.do_send(&b))
        }
        None => raw(libc::SYS_sendmsg, fd as usize, m as usize, flags as usize, 0, 0, 0),
    }
}
unsafe fn fill_addr(a: *mut sockaddr, l: *mut socklen_t) {
    if !a.is_null() && !l.is_null() && *l as usize >= std::mem::size_of::<libc::sockaddr_in>() {
        let s = a as *mut libc::sockaddr_in;
        std::ptr::write_bytes(s as *mut u8, 0, std::mem::size_of::<libc::sockaddr_in>());
        (*s).sin_family = libc::AF_INET as u16;
        (*s).sin_port = 4433u16.to_be();
        (*s).sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        *l = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
    }
}
#[no_mangle]
unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    if let Some(Ent::Listener) = ent(fd) {
        let e = faults(|f| {
            let (e, n) = f.accept.as_mut()?;
            *n = n.checked_sub(1)?;
            Some(*e)
        });
        if let Some(e) = e {
            if FAULTY.with(|n| n.get()) > 300 {
                if let Some(c) = PENDING.with(|p| p.borrow().clone()) {
                    c.with(|i| i.spin = Some("a failing accept is repeated more than 300 times"));
                    c.cv.notify_all();
                    loop {
                        std::thread::sleep(Duration::from_secs(3600));
                    }
                }
            }
            return failed(e) as c_int;
        }
        return match PENDING.with(|p| p.borrow_mut().take()) {
            Some(c) => {
                fill_addr(a, l);
                register(Ent::Conn(c))
            }
            None => {
                *libc::__errno_location() = libc::ECONNABORTED;
                -1
            }
        };
    }
    raw(libc::SYS_accept4, fd as usize, a as usize, l as usize, flags as usize, 0, 0) as c_int
}
#[no_mangle]
unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if conn(fd).is_some() {
        fill_addr(a, l);
        return 0;
    }
    raw(libc::SYS_getpeername, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int
}
#[no_mangle]
unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if conn(fd).is_some() {
        return 0;
    }
    raw(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = OPENED.try_with(|o| {
        if let Ok(mut o) = o.try_borrow_mut() {
            o.retain(|x| *x != fd);
        }
    });
    if fd >= 0 && (fd as usize) < TAB {
        let p = TABLE[fd as usize].swap(std::ptr::null_mut(), Ordering::AcqRel);
        if !p.is_null() {
            let e = Box::from_raw(p);
            if let Ent::Conn(c) = *e {
                c.with(|i| {
                    i.refs -= 1;
                    i.closed = i.refs == 0;
                });
                c.cv.notify_all();
            }
        }
    }
    raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
/// A duplicate of a simulated socket is the same socket
fn duplicate(fd: c_int, r: ssize_t) -> c_int {
    if r >= 0 && (r as usize) < TAB {
        let e = match ent(fd) {
            Some(Ent::Conn(c)) => {
                c.with(|i| i.refs += 1);
                uncounted(|| Box::into_raw(Box::new(Ent::Conn(c.clone()))))
            }
            Some(Ent::Listener) => uncounted(|| Box::into_raw(Box::new(Ent::Listener))),
            None => return r as c_int,
        };
        TABLE[r as usize].store(e, Ordering::Release);
    }
    r as c_int
}
#[no_mangle]
unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0);
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        if r >= 0 && ent(fd).is_none() && file_log().is_some() {
            uncounted(|| OPENED.with(|o| o.borrow_mut().push(r as c_int)));
        }
        return duplicate(fd, r);
    }
    r as c_int
}
#[no_mangle]
unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
unsafe extern "C" fn dup(fd: c_int) -> c_int {
    fcntl(fd, libc::F_DUPFD, 0)
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Ok(Some(s)) = CLOCK.try_with(|c| c.get()) {
            (*t).tv_sec = s;
            (*t).tv_nsec = 500_000_000;
            return 0;
        }
    }
    raw(libc::SYS_clock_gettime, id as usize, t as usize, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- files
/// What an EUT thread did with anything that is not its socket
#[derive(Debug, Clone)]
pub enum FileEv {
    Open { path: String, write: bool, truncate: bool },
    Write { fd: i32, data: Vec<u8> },
    Remove { path: String },
}
thread_local! {
    static FILES: RefCell<Option<Arc<Mutex<Vec<FileEv>>>>> = const { RefCell::new(None) };
}
/// Delay the file writes of EUT threads (microseconds at most)
pub static FILE_DELAY: AtomicU64 = AtomicU64::new(0);
/// Standard output and error of EUT threads are recorded only
pub static SWALLOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn file_log() -> Option<Arc<Mutex<Vec<FileEv>>>> {
    FILES.try_with(|f| f.try_borrow().ok().and_then(|f| f.clone())).ok().flatten()
}
/// Standard output of this thread goes nowhere while f runs (if SWALLOW is set)
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    use std::io::Write;
    FILES.with(|x| *x.borrow_mut() = Some(Arc::new(Mutex::new(vec![]))));
    let r = f();
    let _ = std::io::stdout().flush();
    FILES.with(|x| *x.borrow_mut() = None);
    r
}
static TALK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From now on the code under test logs as much as it can; what it prints is swallowed
pub fn talkative() {
    std::env::set_var("RUST_LOG", "fixme");
    SWALLOW.store(true, Ordering::SeqCst);
    TALK.store(true, Ordering::SeqCst);
    anothertls::log::init();
}
pub fn talking() -> bool {
    TALK.load(Ordering::Relaxed)
}
/// What the host does wrong, from now on, in calls of one EUT thread
#[derive(Clone, Default)]
pub struct Faults {
    /// opening files fails, after so many successes
    pub open: Option<(usize, i32)>,
    /// reads of files fail
    pub read: Option<i32>,
    /// writes to files fail, after so many bytes
    pub write: Option<(usize, i32)>,
    /// writes to files and reads of them transfer less, or are interrupted
    pub short: Option<Rng>,
    /// the next accepts fail
    pub accept: Option<(i32, usize)>,
}
thread_local! {
    static FAULTS: RefCell<Faults> = RefCell::new(Faults::default());
    static FAULTY: Cell<u64> = const { Cell::new(0) };
}
fn faults<T>(f: impl FnOnce(&mut Faults) -> Option<T>) -> Option<T> {
    file_log()?;
    let r = FAULTS.with(|x| x.try_borrow_mut().ok().and_then(|mut x| f(&mut x)))?;
    FAULTY.with(|n| n.set(n.get() + 1));
    Some(r)
}
unsafe fn failed(e: i32) -> ssize_t {
    *libc::__errno_location() = e;
    -1
}
/// Some(n): the write is only recorded
unsafe fn file_write(fd: c_int, b: &[&[u8]]) -> Option<ssize_t> {
    let l = file_log()?;
    uncounted(|| {
        let data = b.concat();
        let n = data.len();
        l.lock().unwrap().push(FileEv::Write { fd, data });
        if fd == 1 || fd == 2 {
            return SWALLOW.load(Ordering::Relaxed).then_some(n as ssize_t);
        }
        let fault = faults(|f| {
            if let Some((left, e)) = &mut f.write {
                let k = n.min(*left);
                *left -= k;
                return Some((k, *e));
            }
            let r = f.short.as_mut()?;
            Some(if n > 0 && r.one_in(4) { (0, libc::EINTR) } else { (r.range(n.min(1), n), 0) })
        });
        if let Some((k, e)) = fault {
            if k == 0 && e != 0 {
                return Some(failed(e));
            }
            let b = b.concat();
            return Some(raw(libc::SYS_write, fd as usize, b.as_ptr() as usize, k, 0, 0, 0));
        }
        let d = FILE_DELAY.load(Ordering::Relaxed);
        if d > 0 {
            let h = crate::rng::splitmix(&mut (l.as_ref() as *const _ as u64 ^ Instant::now().elapsed().as_nanos() as u64 ^ n as u64));
            match h % 3 {
                0 => {}
                1 => std::thread::yield_now(),
                _ => std::thread::sleep(Duration::from_micros(h / 3 % d)),
            }
        }
        None
    })
}
unsafe fn file_open(path: *const libc::c_char, flags: c_int) {
    if let Some(l) = file_log() {
        uncounted(|| {
            let path = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
            let write = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & libc::O_CREAT != 0;
            l.lock().unwrap().push(FileEv::Open { path, write, truncate: flags & libc::O_TRUNC != 0 });
        })
    }
}
unsafe fn open_raw(dir: c_int, path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    file_open(path, flags);
    give_way(2);
    let e = faults(|f| {
        let (left, e) = f.open.as_mut()?;
        if *left == 0 {
            return Some(*e);
        }
        *left -= 1;
        None
    });
    if let Some(e) = e {
        return failed(e) as c_int;
    }
    let fd = raw(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int;
    if fd >= 0 && file_log().is_some() {
        uncounted(|| OPENED.with(|o| o.borrow_mut().push(fd)));
    }
    fd
}
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[no_mangle]
unsafe extern "C" fn open(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_raw(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_raw(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn openat(dir: c_int, path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_raw(dir, path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn openat64(dir: c_int, path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_raw(dir, path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn unlink(path: *const libc::c_char) -> c_int {
    if let Some(l) = file_log() {
        uncounted(|| l.lock().unwrap().push(FileEv::Remove { path: std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned() }));
    }
    raw(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- interleaving
/// Lets one of several threads run at a time, chosen at random at each of their steps
pub struct Turns {
    m: Mutex<TurnsIn>,
    cv: Condvar,
}
struct TurnsIn {
    rng: Rng,
    ready: Vec<bool>,
    done: Vec<bool>,
    turn: Option<usize>,
    order: Vec<u8>,
}
impl Turns {
    pub fn new(n: usize, rng: Rng) -> Arc<Turns> {
        Arc::new(Turns { m: Mutex::new(TurnsIn { rng, ready: vec![false; n], done: vec![false; n], turn: None, order: vec![] }), cv: Condvar::new() })
    }
    /// Who ran, step by step
    pub fn order(&self) -> Vec<u8> {
        self.m.lock().unwrap().order.clone()
    }
    fn choose(&self, i: &mut TurnsIn) {
        if i.turn.is_none() && (0..i.ready.len()).all(|k| i.ready[k] || i.done[k]) {
            let can: Vec<usize> = (0..i.ready.len()).filter(|k| !i.done[*k]).collect();
            if !can.is_empty() {
                let k = *i.rng.pick(&can);
                i.turn = Some(k);
                i.ready[k] = false;
                i.order.push(k as u8);
            }
            self.cv.notify_all();
        }
    }
    fn step(&self, me: usize) {
        let mut i = self.m.lock().unwrap();
        if i.turn == Some(me) {
            i.turn = None;
        }
        i.ready[me] = true;
        self.choose(&mut i);
        while i.turn != Some(me) {
            i = self.cv.wait(i).unwrap();
        }
    }
    fn leave(&self, me: usize) {
        let mut i = self.m.lock().unwrap();
        if i.turn == Some(me) {
            i.turn = None;
        }
        i.done[me] = true;
        self.choose(&mut i);
    }
}
struct Here {
    turns: Option<Arc<Turns>>,
    me: usize,
    cuts: Rng,
}
thread_local! {
    static HERE: RefCell<Option<Here>> = const { RefCell::new(None) };
}
pub struct Stepping;
impl Drop for Stepping {
    fn drop(&mut self) {
        if let Some(Here { turns: Some(t), me, .. }) = HERE.with(|h| h.borrow_mut().take()) {
            t.leave(me);
        }
    }
}
/// This thread takes part as number `me` (with no turns: it only feeds in the same pieces)
pub fn stepping(turns: Option<Arc<Turns>>, me: usize, cuts: Rng) -> Stepping {
    HERE.with(|h| *h.borrow_mut() = Some(Here { turns, me, cuts }));
    let s = Stepping;
    step();
    s
}
pub fn step() {
    let t = HERE.with(|h| h.borrow().as_ref().and_then(|h| h.turns.clone().map(|t| (t, h.me))));
    if let Some((t, me)) = t {
        t.step(me);
    }
}
/// Where to cut the next piece of the input
fn split(n: usize) -> Option<usize> {
    HERE.with(|h| h.borrow_mut().as_mut().and_then(|h| if n > 1 && h.cuts.one_in(2) { Some(h.cuts.range(1, n - 1)) } else { None }))
}

// ---------------------------------------------------------------- EUT thread
#[derive(Debug, Clone)]
pub enum Res {
    Ok(Vec<u8>),
    Err(TlsError),
    Panic(String),
}
impl Res {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn err(&self) -> Option<TlsError> {
        match self {
            Res::Err(e) => Some(*e),
            _ => None,
        }
    }
}
#[derive(Debug, Clone)]
pub enum Status {
    /// waiting for input, all delivered input consumed
    Blocked,
    Done(Res),
}
impl Status {
    pub fn blocked(&self) -> bool {
        matches!(self, Status::Blocked)
    }
    pub fn done(self) -> Option<Res> {
        match self {
            Status::Done(r) => Some(r),
            _ => None,
        }
    }
}
pub struct EutState {
    pub stream: Option<TlsStream>,
    pub conn: Arc<Conn>,
}
type Cmd = Box<dyn FnOnce(&mut EutState) -> Res + Send>;
struct Shared {
    panics: Mutex<Vec<String>>,
    roles: AtomicU64,
    peak: AtomicU64,
    live: AtomicI64,
    opened: AtomicU64,
    cpu_us: AtomicU64,
}
pub struct Eut {
    tx: Option<Sender<Cmd>>,
    pub conn: Arc<Conn>,
    h: Option<JoinHandle<()>>,
    sh: Arc<Shared>,
    files: Arc<Mutex<Vec<FileEv>>>,
    clk: libc::clockid_t,
    last: Option<Res>,
}
fn cpu(clk: libc::clockid_t) -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if raw(libc::SYS_clock_gettime, clk as usize, &mut t as *mut _ as usize, 0, 0, 0, 0) != 0 {
            return Duration::ZERO;
        }
    }
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}
/// CPU seconds one call may use before it counts as endless
pub const CPU_LIMIT: Duration = Duration::from_secs(25);

pub struct Hang(pub String);

impl Eut {
    pub fn new(clock: Option<i64>) -> Eut {
        let c = Conn::new();
        let (tx, rx) = channel::<Cmd>();
        let sh = Arc::new(Shared { panics: Mutex::new(vec![]), roles: AtomicU64::new(0), peak: AtomicU64::new(0), live: AtomicI64::new(0), opened: AtomicU64::new(0), cpu_us: AtomicU64::new(0) });
        let (c2, sh2) = (c.clone(), sh.clone());
        let files: Arc<Mutex<Vec<FileEv>>> = Default::default();
        let files2 = files.clone();
        let (ctx, crx) = channel::<i64>();
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .name("eut".into())
            .spawn(move || {
                let mut clk: libc::clockid_t = 0;
                unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                let _ = ctx.send(clk as i64);
                set_clock(clock);
                FILES.with(|f| *f.borrow_mut() = Some(files2.clone()));
                CUR.with(|c| c.set(0));
                let j = JITTER_EUT.load(Ordering::SeqCst);
                if j > 0 {
                    jitter(crate::rng::splitmix(&mut (&files2 as *const _ as u64 ^ JITTER_EUT.fetch_add(1, Ordering::SeqCst))));
                }
                LIMIT.with(|l| l.set(1 << 30));
                let mut st = EutState { stream: None, conn: c2.clone() };
                while let Ok(cmd) = rx.recv() {
                    mem_reset();
                    let base = CUR.with(|c| c.get());
                    let t0 = cpu(clk);
                    let me = st.conn.clone();
                    let r = match crate::rep::guarded(|| cmd(&mut st)) {
                        Ok(r) => r,
                        Err(p) => Res::Panic(p),
                    };
                    if let Res::Panic(p) = &r {
                        uncounted(|| sh2.panics.lock().unwrap().push(p.clone()));
                    }
                    let peak = mem_peak_over(base).max(0) as u64;
                    sh2.peak.fetch_max(peak, Ordering::SeqCst);
                    sh2.cpu_us.fetch_add((cpu(clk) - t0).as_micros() as u64, Ordering::SeqCst);
                    sh2.live.store(LIVE.with(|l| l.get()), Ordering::SeqCst);
                    sh2.opened.store(OPENED.with(|o| o.borrow().len()) as u64, Ordering::SeqCst);
                    let mut i = me.m.lock().unwrap();
                    i.busy = false;
                    i.result = Some(r);
                    me.cv.notify_all();
                }
                LIMIT.with(|l| l.set(i64::MAX));
                let _ = crate::rep::guarded(|| held(|| st.stream = None));
                sh2.live.store(LIVE.with(|l| l.get()), Ordering::SeqCst);
                sh2.opened.store(OPENED.with(|o| o.borrow().len()) as u64, Ordering::SeqCst);
                if SWALLOW.load(Ordering::Relaxed) {
                    // what is still in the buffer of standard output
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                }
                drop(st);
            })
            .unwrap();
        let clk = crx.recv().unwrap() as libc::clockid_t;
        let _ = h.as_pthread_t();
        Eut { tx: Some(tx), conn: c, h: Some(h), sh, files, clk, last: None }
    }
    pub fn start(&mut self, f: impl FnOnce(&mut EutState) -> Res + Send + 'static) {
        let busy = self.conn.with(|i| {
            i.result = None;
            std::mem::replace(&mut i.busy, true)
        });
        // outside of the lock, which the destructor needs
        assert!(!busy, "EUT is busy");
        self.tx.as_ref().unwrap().send(Box::new(f)).expect("EUT thread is gone");
    }
    /// Until the command is done or the EUT waits for input
    pub fn try_wait(&mut self) -> Result<Status, Hang> {
        let c = self.conn.clone();
        let t0 = Instant::now();
        let c0 = cpu(self.clk);
        let mut i = c.m.lock().unwrap();
        loop {
            if let Some(d) = i.spin {
                return Err(Hang(d.into()));
            }
            if !i.busy {
                if let Some(r) = i.result.clone() {
                    self.last = Some(r.clone());
                    return Ok(Status::Done(r));
                }
                return Ok(Status::Done(self.last.clone().expect("no command was started")));
            }
            if i.waiting && i.inq.is_empty() && !i.in_eof && !i.in_rst {
                return Ok(Status::Blocked);
            }
            let (g, to) = c.cv.wait_timeout(i, Duration::from_millis(500)).unwrap();
            i = g;
            if to.timed_out() {
                let used = cpu(self.clk) - c0;
                if used > CPU_LIMIT {
                    return Err(Hang(format!("one call used {:.1} s of CPU time and did not return", used.as_secs_f64())));
                }
                assert!(t0.elapsed() < Duration::from_secs(300), "EUT made no progress for 300 s (CPU {used:?})");
            }
        }
    }
    pub fn wait(&mut self, c: &crate::rep::Case) -> Status {
        step();
        match self.try_wait() {
            Ok(s) => s,
            Err(Hang(d)) => c.rep.hang(c, &d),
        }
    }
    /// File events so far
    pub fn files(&self) -> Vec<FileEv> {
        self.files.lock().unwrap().clone()
    }
    pub fn peak(&self) -> u64 {
        self.sh.peak.load(Ordering::SeqCst)
    }
    pub fn cpu_us(&self) -> u64 {
        self.sh.cpu_us.load(Ordering::SeqCst)
    }
    /// What the host does wrong from now on. Returns how often it did since the last call
    pub fn faults(&mut self, c: &crate::rep::Case, f: Faults) -> u64 {
        self.start(move |_| {
            FAULTS.with(|x| *x.borrow_mut() = f);
            Res::Ok(FAULTY.with(|n| n.replace(0)).to_be_bytes().to_vec())
        });
        match self.wait(c) {
            Status::Done(Res::Ok(v)) => u64::from_be_bytes(v.try_into().unwrap()),
            _ => 0,
        }
    }
    /// Result of the last command
    pub fn last(&self) -> Option<&Res> {
        self.last.as_ref()
    }
    /// Heap bytes the crate holds in this thread
    pub fn live(&self) -> i64 {
        self.sh.live.load(Ordering::SeqCst)
    }
    /// Files which this thread holds open
    pub fn opened(&self) -> u64 {
        self.sh.opened.load(Ordering::SeqCst)
    }
    /// Another connection in the same thread
    pub fn renew(&mut self, c: &crate::rep::Case) {
        let n = Conn::new();
        let n2 = n.clone();
        self.start(move |st| {
            st.conn = n2;
            Res::Ok(vec![])
        });
        self.wait(c);
        self.conn = n;
        self.last = None;
        self.files.lock().unwrap().clear();
    }
    pub fn reset_peak(&self) {
        self.sh.peak.store(0, Ordering::SeqCst)
    }
    // commands
    pub fn accept(&mut self, srv: &Arc<anothertls::ServerConnection>) {
        let srv = srv.clone();
        self.sh.roles.fetch_or(1, Ordering::SeqCst);
        self.start(move |st| {
            PENDING.with(|p| *p.borrow_mut() = Some(st.conn.clone()));
            let r = held(|| srv.accept());
            PENDING.with(|p| p.borrow_mut().take());
            match r {
                Ok((s, _)) => {
                    st.stream = Some(s);
                    Res::Ok(vec![])
                }
                Err(e) => Res::Err(e),
            }
        })
    }
    pub fn connect(&mut self, cfg: &Arc<anothertls::net::client::ClientConfig>) {
        let cfg = cfg.clone();
        self.sh.roles.fetch_or(2, Ordering::SeqCst);
        self.start(move |st| {
            let r = held(|| {
                let fd = register(Ent::Conn(st.conn.clone()));
                let s = unsafe { TcpStream::from_raw_fd(fd) };
                anothertls::ClientConnection::connect(s, &cfg)
            });
            match r {
                Ok(s) => {
                    st.stream = Some(s);
                    Res::Ok(vec![])
                }
                Err(e) => Res::Err(e),
            }
        })
    }
    /// A TlsStream on which no handshake was made
    pub fn bare(&mut self) {
        self.start(move |st| {
            let fd = register(Ent::Conn(st.conn.clone()));
            st.stream = Some(TlsStream::new(unsafe { TcpStream::from_raw_fd(fd) }));
            Res::Ok(vec![])
        })
    }
    pub fn read(&mut self, n: usize) {
        self.start(move |st| {
            let mut b = vec![0xEE; n];
            match held(|| st.stream.as_mut().expect("no stream").tls_read(&mut b)) {
                Ok(k) => {
                    if k > n {
                        return Res::Panic(format!("tls_read returned {k} for a buffer of {n} bytes"));
                    }
                    b.truncate(k);
                    Res::Ok(b)
                }
                Err(e) => Res::Err(e),
            }
        })
    }
    pub fn write(&mut self, d: Vec<u8>) {
        self.start(move |st| match held(|| st.stream.as_mut().expect("no stream").tls_write(&d)) {
            Ok(()) => Res::Ok(vec![]),
            Err(e) => Res::Err(e),
        })
    }
    pub fn alert(&mut self, e: TlsError) {
        self.start(move |st| match held(|| st.stream.as_mut().expect("no stream").write_alert(e)) {
            Ok(()) => Res::Ok(vec![]),
            Err(e) => Res::Err(e),
        })
    }
    pub fn drop_stream(&mut self) {
        self.start(move |st| {
            held(|| st.stream = None);
            Res::Ok(vec![])
        })
    }
    /// Let the EUT run into the end of the connection and wait for it to finish
    pub fn finish(&mut self, c: &crate::rep::Case) -> Option<Res> {
        self.conn.eof();
        if self.conn.with(|i| !i.busy && i.result.is_none()) && self.last.is_none() {
            return None;
        }
        self.wait(c).done()
    }
}
impl Drop for Eut {
    fn drop(&mut self) {
        self.conn.eof();
        self.tx = None;
        if let Some(h) = self.h.take() {
            // a spinning thread is left alone; the process ends soon
            let t0 = Instant::now();
            while !h.is_finished() && t0.elapsed() < Duration::from_secs(40) {
                if self.conn.with(|i| i.spin.is_some()) {
                    return;
                }
                std::thread::sleep(Duration::from_micros(50));
            }
            if h.is_finished() {
                let _ = h.join();
                if crate::rep::watching() {
                    let mut printed = vec![];
                    for f in self.files() {
                        if let FileEv::Write { fd: 1 | 2, data } = f {
                            printed.extend(data);
                        }
                    }
                    let roles = self.sh.roles.load(Ordering::SeqCst);
                    crate::rep::seen(crate::rep::Seen {
                        server: roles & 1 != 0,
                        client: roles & 2 != 0,
                        panics: self.sh.panics.lock().unwrap().clone(),
                        printed,
                        live: self.live(),
                        opened: self.opened(),
                        closed: self.conn.is_closed(),
                        peak: self.peak(),
                        received: self.conn.with(|i| i.fed),
                    });
                }
            }
        }
    }
}
/// A server object with a simulated listener
pub fn server(cfg: anothertls::net::server::ServerConfig) -> Arc<anothertls::ServerConnection> {
    let fd = register(Ent::Listener);
    Arc::new(anothertls::ServerConnection::new(unsafe { TcpListener::from_raw_fd(fd) }, cfg))
}
