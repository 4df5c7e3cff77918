//! A small model of the part of the Linux kernel the crate talks to.
//!
//! Everything here is ordinary Rust: the engine executes it symbolically together with the code
//! under test, the native replayer executes it concretely.  Each system call is atomic and is
//! preceded by one scheduling point.
#![allow(static_mut_refs)]

use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd};

pub const IN: u32 = 0x1;
pub const PRI: u32 = 0x2;
pub const OUT: u32 = 0x4;
pub const ERR: u32 = 0x8;
pub const HUP: u32 = 0x10;
pub const NVAL: u32 = 0x20;
pub const RDNORM: u32 = 0x40;
pub const RDBAND: u32 = 0x80;
pub const WRNORM: u32 = 0x100;
pub const WRBAND: u32 = 0x200;
pub const RDHUP: u32 = 0x2000;
pub const ET: u32 = 1 << 31;
pub const ONESHOT: u32 = 1 << 30;
pub const WAKEUP: u32 = 1 << 29;
pub const EXCLUSIVE: u32 = 1 << 28;
/// Conditions a source can be in.
pub const CONDS: u32 = IN | PRI | OUT | ERR | HUP | RDNORM | RDBAND | WRNORM | WRBAND | RDHUP;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EEXIST: i32 = 17;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const ETIME: i32 = 62;
pub const EBADFD: i32 = 81;
pub const ENOSYS: i32 = 38;

pub mod bsd;

/// System calls, as fault points and in the call log.
pub mod sysno {
    pub const EPOLL_CREATE: u32 = 0;
    pub const EPOLL_ADD: u32 = 1;
    pub const EPOLL_MOD: u32 = 2;
    pub const EPOLL_DEL: u32 = 3;
    pub const EPOLL_WAIT: u32 = 4;
    pub const EVENTFD: u32 = 5;
    pub const PIPE2: u32 = 6;
    pub const PIPE: u32 = 7;
    pub const GETFD: u32 = 8;
    pub const SETFD: u32 = 9;
    pub const GETFL: u32 = 10;
    pub const SETFL: u32 = 11;
    pub const TIMERFD_CREATE: u32 = 12;
    pub const TIMERFD_SETTIME: u32 = 13;
    pub const READ: u32 = 14;
    pub const WRITE: u32 = 15;
    pub const POLL: u32 = 16;
    pub const CLOSE: u32 = 17;
    pub const KQUEUE: u32 = 18;
    pub const KEVENT: u32 = 19;
    pub const PORT_CREATE: u32 = 20;
    pub const PORT_ASSOC: u32 = 21;
    pub const PORT_DISSOC: u32 = 22;
    pub const PORT_GETN: u32 = 23;
    pub const PORT_SEND: u32 = 24;
    pub const KEV_ADD: u32 = 25;
    pub const KEV_DELETE: u32 = 26;
}

/// A point in time.  `id`, `base`, `ds` and `dns` say that it was computed as `base + (ds, dns)`;
/// they only make differences simpler for the solver (no carries), never change them.
#[derive(Clone, Copy, Debug)]
pub struct Ts {
    pub s: i64,
    pub ns: u32,
    id: u32,
    base: u32,
    ds: u64,
    dns: u32,
}

impl PartialEq for Ts {
    fn eq(&self, o: &Ts) -> bool {
        (self.s == o.s) & (self.ns == o.ns)
    }
}
impl Eq for Ts {}
impl PartialOrd for Ts {
    fn partial_cmp(&self, o: &Ts) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &Ts) -> bool {
        self.less(*o)
    }
    fn gt(&self, o: &Ts) -> bool {
        o.less(*self)
    }
    fn le(&self, o: &Ts) -> bool {
        !o.less(*self)
    }
    fn ge(&self, o: &Ts) -> bool {
        !self.less(*o)
    }
}
impl Ord for Ts {
    fn cmp(&self, o: &Ts) -> core::cmp::Ordering {
        if self.less(*o) {
            core::cmp::Ordering::Less
        } else if o.less(*self) {
            core::cmp::Ordering::Greater
        } else {
            core::cmp::Ordering::Equal
        }
    }
}
impl core::hash::Hash for Ts {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.s.hash(h);
        self.ns.hash(h);
    }
}

impl Ts {
    pub const fn new(s: i64, ns: u32) -> Ts {
        Ts { s, ns, id: 0, base: 0, ds: 0, dns: 0 }
    }
    /// Gives the value an identity (single-threaded harnesses only: states must be comparable).
    fn fresh(mut self) -> Ts {
        let k = k();
        if !k.mt && self.id == 0 {
            k.ts_ids += 1;
            self.id = k.ts_ids;
        }
        self
    }
    fn less(self, o: Ts) -> bool {
        if self.id != 0 {
            if self.id == o.id {
                return false;
            }
            if o.base == self.id {
                return (o.ds != 0) | (o.dns != 0);
            }
            if self.base == o.id {
                return false;
            }
        }
        if self.base != 0 && self.base == o.base {
            return (self.ds < o.ds) | (self.ds == o.ds) & (self.dns < o.dns);
        }
        (self.s < o.s) | (self.s == o.s) & (self.ns < o.ns)
    }
    /// `self + d`, saturating like the kernel does at the end of time.
    pub fn plus(self, s: u64, ns: u32) -> Ts {
        match self.checked_plus(s, ns) {
            Some(t) => t,
            None => Ts::new(i64::MAX, 999_999_999).fresh(),
        }
    }
    pub fn checked_plus(self, s: u64, ns: u32) -> Option<Ts> {
        let mut n = self.ns + ns;
        let c = n >= 1_000_000_000;
        if c {
            n -= 1_000_000_000;
        }
        let (x, o) = self.s.overflowing_add_unsigned(s);
        let (x, o2) = x.overflowing_add(c as i64);
        if o | o2 {
            return None;
        }
        let mut t = Ts::new(x, n).fresh();
        if self.id != 0 {
            t.base = self.id;
            t.ds = s;
            t.dns = ns;
        }
        Some(t)
    }
    /// Time from `o` to `self`; zero if negative.
    pub fn since(self, o: Ts) -> (u64, u32) {
        if self.id != 0 && self.id == o.id {
            return (0, 0);
        }
        if o.id != 0 && self.base == o.id {
            return (self.ds, self.dns);
        }
        if self <= o {
            return (0, 0);
        }
        if self.base != 0 && self.base == o.base {
            return if self.dns >= o.dns {
                (self.ds - o.ds, self.dns - o.dns)
            } else {
                (self.ds - o.ds - 1, self.dns + 1_000_000_000 - o.dns)
            };
        }
        if self.ns >= o.ns {
            ((self.s - o.s) as u64, self.ns - o.ns)
        } else {
            ((self.s - o.s - 1) as u64, self.ns + 1_000_000_000 - o.ns)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    Free,
    Epoll,
    EventFd,
    Timer,
    PipeR,
    PipeW,
    Source,
    /// Something epoll refuses (a regular file).
    File,
    Kqueue,
    Port,
}

#[derive(Clone, Copy)]
pub struct Fd {
    pub kind: Kind,
    /// Index of the object in its table.
    pub ix: u8,
    pub cloexec: bool,
    pub nonblock: bool,
}

/// The system has kqueue or event ports instead of epoll.
const BSD: bool = cfg!(vkern_bsd);
/// ESP-IDF's eventfd never blocks, and a read of 0 succeeds.
const ESP: bool = cfg!(verif_os = "espidf");
/// On Vita what was written to a pipe may arrive later; poll() is how one knows.
const VITA: bool = cfg!(verif_os = "vita");

#[derive(Clone, Copy)]
pub struct Item {
    pub fd: i32,
    pub events: u32,
    pub data: u64,
    /// Disarmed by ONESHOT.
    pub off: bool,
}

pub const NITEMS: usize = if cfg!(vkern_huge) {
    1110
} else if cfg!(vkern_big) {
    100
} else {
    10
};

#[derive(Clone, Copy)]
pub struct Ep {
    pub n: usize,
    pub items: [Item; NITEMS],
    /// The ready list: descriptors that had a wake-up or were ready when they were armed, in that order.
    pub nl: usize,
    pub list: [i16; NITEMS],
}

#[derive(Clone, Copy)]
pub struct Pipe {
    pub count: u32,
    pub r: bool,
    pub w: bool,
    /// Highest fill level so far.
    pub high: u32,
    /// What was written last has arrived for sure.
    arrived: bool,
}

#[derive(Clone, Copy)]
pub struct Timer {
    pub armed: bool,
    pub at: Ts,
    pub expired: bool,
}

/// Things that happen while a thread waits (single-threaded harnesses).
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Env {
    None,
    /// Source `arg` gains the conditions `mask`.
    Ready,
    /// Call of `Kernel::env_hook`.
    Hook,
}

#[derive(Clone, Copy)]
pub struct EnvEv {
    pub at: Ts,
    pub what: Env,
    pub arg: i32,
    pub mask: u32,
}

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Hang {
    /// Blocking forever violates the property.
    Violation,
    /// The path ends here.
    Stop,
}

pub const NFD: usize = if NITEMS > 10 { NITEMS + 10 } else { 24 };

pub struct Kernel {
    pub fds: [Fd; NFD],
    pub eps: [Ep; 3],
    /// How many reads may still miss what was just written to a pipe.
    delays: u32,
    pub pipes: [Pipe; 4],
    pub evs: [u64; 4],
    pub timers: [Timer; 3],
    pub src: [u32; NFD],
    /// Sources that may be ready (false: certainly not).
    pub hot: [bool; NFD],
    pub neps: u8,
    pub npipes: u8,
    pub nevs: u8,
    pub ntimers: u8,
    pub pipe_cap: u32,
    pub clock: Ts,
    pub mt: bool,
    /// Bit set of `sysno`s that may fail, and how many failures may still happen.
    pub fault_mask: u32,
    pub faults: u32,
    /// What failed, in order of first failure (bit set).
    pub failed: u32,
    pub last_errno: i32,
    pub eintrs: u32,
    /// Signals come at regular intervals of so many nanoseconds (0: at any moments).
    pub storm: u32,
    /// How often a condition variable may still wake up a thread for no reason.
    pub spurious: u32,
    pub jitter: u32,
    /// The kernel may wake a sleeping thread late by an arbitrary amount.
    pub late: bool,
    pub on_hang: Hang,
    pub env: [EnvEv; 4],
    pub env_hook: Option<fn(i32)>,
    /// Number of calls per system call (saturates at 3).
    pub calls: [u32; 32],
    /// The thread went to sleep at least once since this was cleared.
    pub slept: bool,
    /// A thread sleeps in poll() or epoll_wait() at this moment.
    pub asleep: bool,
    /// Whether `asleep` is kept.
    pub watch: bool,
    pub limit_fd: usize,
    /// The lowest number of a new descriptor.
    pub first_fd: usize,
    /// Time of the last return from a blocking wait.
    pub in_wait: bool,
    pub ts_ids: u32,
    /// Calls of `calm`.
    pub calms: u32,
}

const FREE: Fd = Fd { kind: Kind::Free, ix: 0, cloexec: false, nonblock: false };
const NOITEM: Item = Item { fd: -1, events: 0, data: 0, off: false };

static mut K: Kernel = Kernel {
    fds: [FREE; NFD],
    eps: [Ep { n: 0, items: [NOITEM; NITEMS], nl: 0, list: [-1; NITEMS] }; 3],
    delays: if VITA { 2 } else { 0 },
    pipes: [Pipe { count: 0, r: false, w: false, high: 0, arrived: true }; 4],
    evs: [0; 4],
    timers: [Timer { armed: false, at: Ts::new(0, 0), expired: false }; 3],
    src: [0; NFD],
    hot: [false; NFD],
    neps: 0,
    npipes: 0,
    nevs: 0,
    ntimers: 0,
    pipe_cap: 65536,
    clock: Ts::new(1000, 0),
    mt: false,
    fault_mask: 0,
    faults: 0,
    failed: 0,
    last_errno: 0,
    eintrs: 0,
    storm: 0,
    spurious: 0,
    jitter: 0,
    late: false,
    on_hang: Hang::Violation,
    env: [EnvEv { at: Ts::new(0, 0), what: Env::None, arg: 0, mask: 0 }; 4],
    env_hook: None,
    calls: [0; 32],
    slept: false,
    asleep: false,
    watch: false,
    limit_fd: NFD,
    first_fd: 3,
    in_wait: false,
    ts_ids: 0,
    calms: 0,
};

#[inline(always)]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *core::ptr::addr_of_mut!(K) }
}

type R<T> = Result<T, i32>;

/// Counts up to 3, so that a loop of system calls comes back to the same state.
fn count(no: u32) {
    let c = &mut k().calls[no as usize];
    if *c < 3 {
        *c += 1;
    }
}

/// Start of every system call: scheduling point, accounting, injected failure.
/// In the mask of faults: none after a thread has begun to wait.
pub const BEFORE_WAIT: u32 = 1 << 31;

fn enter(no: u32, errnos: &[i32]) -> R<()> {
    vx::sched(no);
    let k = k();
    count(no);
    if k.faults > 0 && k.fault_mask & (1 << no) != 0 && !errnos.is_empty() {
        if vx::bool("fault") {
            k.faults -= 1;
            k.failed |= 1 << no;
            let mut e = errnos[0];
            let mut i = 1;
            while i < errnos.len() {
                if vx::bool("errno") {
                    e = errnos[i];
                    break;
                }
                i += 1;
            }
            k.last_errno = e;
            return Err(e);
        }
    }
    Ok(())
}

fn install(kind: Kind, ix: u8, cloexec: bool, nonblock: bool) -> R<i32> {
    let k = k();
    let mut i = k.first_fd;
    while i < k.limit_fd {
        if k.fds[i].kind == Kind::Free {
            k.fds[i] = Fd { kind, ix, cloexec, nonblock };
            return Ok(i as i32);
        }
        i += 1;
    }
    Err(EMFILE)
}

pub fn get(fd: i32) -> R<Fd> {
    if fd < 0 || fd as usize >= NFD {
        return Err(EBADF);
    }
    let f = k().fds[fd as usize];
    if f.kind == Kind::Free {
        Err(EBADF)
    } else {
        Ok(f)
    }
}

/// Conditions `fd` is in now.
pub fn ready(fd: i32) -> u32 {
    let k = k();
    let f = match get(fd) {
        Ok(f) => f,
        Err(_) => return NVAL,
    };
    let ix = f.ix as usize;
    match f.kind {
        Kind::Free => NVAL,
        Kind::Epoll => {
            tick();
            let ep = &k.eps[ix];
            let mut i = 0;
            while i < ep.nl {
                let x = ep.list[i] as i32;
                let it = &ep.items[find(ep, x).unwrap()];
                if !it.off && ready(x) & (it.events | ERR | HUP) & 0xffff != 0 {
                    return IN | RDNORM;
                }
                i += 1;
            }
            0
        }
        Kind::EventFd => {
            let c = k.evs[ix];
            (if c > 0 { IN } else { 0 }) | (if c < u64::MAX - 1 { OUT } else { 0 })
        }
        Kind::Timer => {
            let t = &k.timers[ix];
            if t.expired | (t.armed && t.at <= k.clock) {
                IN
            } else {
                0
            }
        }
        Kind::PipeR => {
            let p = &k.pipes[ix];
            (if p.count > 0 { IN | RDNORM } else { 0 }) | (if !p.w { HUP } else { 0 })
        }
        Kind::PipeW => {
            let p = &k.pipes[ix];
            (if p.count < k.pipe_cap { OUT | WRNORM } else { 0 }) | (if !p.r { ERR } else { 0 })
        }
        Kind::Source => k.src[fd as usize],
        Kind::File => IN | OUT | RDNORM | WRNORM,
        Kind::Kqueue => {
            tick();
            (bsd::kq_ready(ix) as u32).wrapping_neg() & (IN | RDNORM)
        }
        Kind::Port => (bsd::port_ready(ix) as u32).wrapping_neg() & (IN | RDNORM),
    }
}

/// `fd` got a wake-up for the conditions `mask`.
fn edge(fd: i32, mask: u32) {
    let k = k();
    let mut e = 0;
    while e < k.neps as usize {
        if let Some(i) = find(&k.eps[e], fd) {
            let it = &k.eps[e].items[i];
            if !it.off && (it.events | ERR | HUP) & mask != 0 {
                link(e, fd);
            }
        }
        e += 1;
    }
    if BSD {
        bsd::edge_fd(fd);
    }
    vx::wake();
}

/// The descriptor of kind `kind` and index `ix` got a wake-up.
fn edge_peer(kind: Kind, ix: usize, mask: u32) {
    let mut i = 0;
    while i < NFD {
        let f = k().fds[i];
        if f.kind == kind && f.ix as usize == ix {
            edge(i as i32, mask);
        }
        i += 1;
    }
}

/// Puts `fd` at the end of a ready list, unless it is on it, and wakes up pollers that watch that list.
fn link(e: usize, fd: i32) {
    let ep = &mut k().eps[e];
    let mut on = false;
    let mut i = 0;
    while i < ep.nl {
        on |= ep.list[i] as i32 == fd;
        i += 1;
    }
    if !on {
        ep.list[ep.nl] = fd as i16;
        ep.nl += 1;
    }
    edge_peer(Kind::Epoll, e, IN);
}

fn unlink(ep: &mut Ep, fd: i32) {
    let mut i = 0;
    while i < ep.nl {
        if ep.list[i] as i32 == fd {
            while i + 1 < ep.nl {
                ep.list[i] = ep.list[i + 1];
                i += 1;
            }
            ep.nl -= 1;
            ep.list[ep.nl] = -1;
            return;
        }
        i += 1;
    }
}

/// Armed: on the ready list if it is ready.
fn arm(e: usize, fd: i32, events: u32) {
    let src = get(fd).map_or(false, |f| f.kind == Kind::Source);
    // (The conditions of a source may be symbolic; wait() leaves out what is not ready.)
    if if src { k().hot[fd as usize] } else { ready(fd) & (events | ERR | HUP) & 0xffff != 0 } {
        link(e, fd);
    }
    vx::wake();
}

/// Timers whose time has come go off.
fn tick() {
    let k = k();
    let mut i = 0;
    while i < k.ntimers as usize {
        let t = &k.timers[i];
        if t.armed && !t.expired && t.at <= k.clock {
            expire(i);
        }
        i += 1;
    }
}

/// Opens a user source; not part of the system under test.
pub fn open_source(kind: Kind) -> i32 {
    install(kind, 0, true, true).unwrap()
}

/// The environment makes `fd` enter exactly the conditions `conds`.
pub fn set_ready(fd: i32, conds: u32) {
    k().src[fd as usize] = conds;
    k().hot[fd as usize] = true;
    edge(fd, 0xffff);
}

/// The conditions of `fd` change without a new edge (the user consumed data).
pub fn clear_ready(fd: i32, conds: u32) {
    k().src[fd as usize] &= !conds;
}

/// Nothing is ready any more, nothing will happen, nothing fails; a very long time passes.
pub fn calm() {
    let k = k();
    // Far from every moment that may have been symbolic; later each time it is called.
    let at = Ts::new((1 << 61) + 1_000_000 * k.calms as i64, 0);
    k.calms += 1;
    vx::assume(k.clock <= at);
    k.clock = at;
    let mut i = 0;
    while i < NFD {
        k.src[i] = 0;
        k.hot[i] = false;
        i += 1;
    }
    k.faults = 0;
    k.eintrs = 0;
    k.spurious = 0;
    k.jitter = 0;
    k.late = false;
    k.on_hang = Hang::Violation;
    k.env = [EnvEv { at: Ts::new(0, 0), what: Env::None, arg: 0, mask: 0 }; 4];
}

/// The user closes a source.
pub fn close_source(fd: i32) {
    k().fds[fd as usize] = FREE;
    forget(fd);
}

fn forget(fd: i32) {
    let k = k();
    let mut e = 0;
    while e < k.neps as usize {
        let ep = &mut k.eps[e];
        if let Some(i) = find(ep, fd) {
            remove(ep, i);
        }
        e += 1;
    }
    if BSD {
        bsd::forget_fd(fd);
    }
}

fn find(ep: &Ep, fd: i32) -> Option<usize> {
    let mut i = 0;
    while i < ep.n {
        if ep.items[i].fd == fd {
            return Some(i);
        }
        i += 1;
    }
    None
}

fn remove(ep: &mut Ep, mut i: usize) {
    unlink(ep, ep.items[i].fd);
    while i + 1 < ep.n {
        ep.items[i] = ep.items[i + 1];
        i += 1;
    }
    ep.n -= 1;
    ep.items[ep.n] = NOITEM;
}

/// Descriptors other than user sources that are open.
pub fn open_fds() -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < NFD {
        match k().fds[i].kind {
            Kind::Free | Kind::Source | Kind::File => {}
            _ => n += 1,
        }
        i += 1;
    }
    n
}

/// First open descriptor of a kind.
pub fn find_fd(kind: Kind) -> i32 {
    let mut i = 0;
    while i < NFD {
        if k().fds[i].kind == kind {
            return i as i32;
        }
        i += 1;
    }
    -1
}

/// Open descriptors that would leak into a child process.
pub fn inheritable() -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < NFD {
        let f = &k().fds[i];
        match f.kind {
            Kind::Free | Kind::Source | Kind::File => {}
            _ => n += !f.cloexec as u32,
        }
        i += 1;
    }
    n
}

/// Bytes waiting in wake-up pipes.
pub fn pipe_fill() -> u32 {
    let k = k();
    let mut s = 0;
    let mut i = 0;
    while i < k.npipes as usize {
        if k.pipes[i].r || k.pipes[i].w {
            s += k.pipes[i].count;
        }
        i += 1;
    }
    s
}

// ---------------------------------------------------------------- time

pub fn now() -> Ts {
    let k = k();
    if k.jitter > 0 {
        k.jitter -= 1;
        advance();
    }
    k.clock = k.clock.fresh();
    k.clock
}

/// The clock, read by the kernel or a harness.
pub fn now_exact() -> Ts {
    let k = k();
    k.clock = k.clock.fresh();
    k.clock
}

/// Lets an arbitrary amount of time pass.
pub fn advance() {
    let s = vx::u64("dt_s");
    let ns = vx::u32("dt_ns");
    vx::assume(ns < 1_000_000_000);
    vx::assume(s < 1 << 40);
    k().clock = now_exact().plus(s, ns);
}

pub enum Idle {
    Recheck,
    Timeout,
    Intr,
}

/// Nothing to report: sleep.
fn idle(deadline: Option<Ts>) -> Idle {
    let k = k();
    k.slept = true;
    if k.mt && k.eintrs > 0 && vx::bool("eintr") {
        k.eintrs -= 1;
        return Idle::Intr;
    }
    if k.mt {
        if k.watch {
            k.asleep = true;
            vx::wake();
        }
        let r = match deadline {
            None => {
                let mut t = None;
                let mut i = 0;
                while i < k.ntimers as usize {
                    if k.timers[i].armed && !k.timers[i].expired {
                        t = Some(i);
                    }
                    i += 1;
                }
                match t {
                    None => vx::block(),
                    Some(i) => {
                        if vx::block_timed() {
                            expire(i);
                        }
                    }
                }
                Idle::Recheck
            }
            Some(d) => {
                if vx::block_timed() {
                    if k.clock < d {
                        k.clock = d;
                    }
                    Idle::Timeout
                } else {
                    Idle::Recheck
                }
            }
        };
        k.asleep = false;
        return r;
    }
    let mut best: Option<(Ts, usize)> = None;
    let mut i = 0;
    while i < k.env.len() {
        if k.env[i].what != Env::None && best.map_or(true, |b| k.env[i].at < b.0) {
            best = Some((k.env[i].at, i));
        }
        i += 1;
    }
    let mut i = 0;
    while i < k.ntimers as usize {
        let t = &k.timers[i];
        if t.armed && !t.expired && best.map_or(true, |b| t.at < b.0) {
            best = Some((t.at, 100 + i));
        }
        i += 1;
    }
    if k.eintrs > 0 && k.storm > 0 {
        let at = k.clock.plus(0, k.storm);
        if deadline.map_or(true, |d| at < d) && best.map_or(true, |b| at < b.0) {
            k.eintrs -= 1;
            k.clock = at;
            return Idle::Intr;
        }
    } else if k.eintrs > 0 && vx::bool("eintr") {
        // A signal before anything else ends the wait.
        k.eintrs -= 1;
        advance();
        if let Some(d) = deadline {
            vx::assume(k.clock < d);
        }
        if let Some((at, _)) = best {
            vx::assume(k.clock < at);
        }
        return Idle::Intr;
    }
    if let Some((at, i)) = best {
        if deadline.map_or(true, |d| at < d) {
            if k.clock < at {
                k.clock = at;
            }
            if k.late {
                advance();
            }
            if i < 100 {
                let e = k.env[i];
                k.env[i].what = Env::None;
                match e.what {
                    Env::Ready => set_ready(e.arg, k.src[e.arg as usize] | e.mask),
                    Env::Hook => (k.env_hook.unwrap())(e.arg),
                    Env::None => {}
                }
            } else {
                expire(i - 100);
            }
            return Idle::Recheck;
        }
    }
    match deadline {
        Some(d) => {
            if k.clock < d {
                k.clock = d;
            }
            if k.late {
                advance();
            }
            Idle::Timeout
        }
        None => hang("wait blocks forever"),
    }
}

fn expire(t: usize) {
    let k = k();
    k.timers[t].expired = true;
    if k.clock < k.timers[t].at {
        k.clock = k.timers[t].at;
    }
    let mut i = 0;
    while i < NFD {
        if k.fds[i].kind == Kind::Timer && k.fds[i].ix as usize == t {
            edge(i as i32, IN);
        }
        i += 1;
    }
    if BSD {
        bsd::edge_timer(t);
    }
}

#[cold]
fn hang(msg: &str) -> ! {
    if k().on_hang == Hang::Violation {
        vx::check(false, msg);
    }
    vx::stop()
}

fn deadline_ms(timeout: i32) -> Option<Ts> {
    if timeout < 0 {
        None
    } else {
        let t = timeout as u32;
        Some(now_exact().plus((t / 1000) as u64, (t % 1000) * 1_000_000))
    }
}

// ---------------------------------------------------------------- descriptors

pub fn sys_close(fd: i32) {
    vx::sched(sysno::CLOSE);
    let k = k();
    count(sysno::CLOSE);
    let f = match get(fd) {
        Ok(f) => f,
        Err(_) => {
            vx::check(false, "close() of a descriptor that is not open");
            return;
        }
    };
    vx::check(
        f.kind != Kind::Source && f.kind != Kind::File,
        "close() of a descriptor owned by the user",
    );
    let ix = f.ix as usize;
    match f.kind {
        Kind::PipeR => k.pipes[ix].r = false,
        Kind::PipeW => k.pipes[ix].w = false,
        Kind::Epoll => {
            k.eps[ix].n = 0;
            k.eps[ix].nl = 0;
        }
        Kind::Timer => k.timers[ix].armed = false,
        Kind::Kqueue => bsd::reset_kq(ix),
        Kind::Port => bsd::reset_port(ix),
        _ => {}
    }
    k.fds[fd as usize] = FREE;
    forget(fd);
    let other = match f.kind {
        Kind::PipeR => Kind::PipeW,
        Kind::PipeW => Kind::PipeR,
        _ => Kind::Free,
    };
    if other != Kind::Free {
        edge_peer(other, ix, 0xffff);
    }
    vx::wake();
}

pub fn sys_getfd(fd: i32) -> R<bool> {
    enter(sysno::GETFD, &[EINVAL])?;
    Ok(get(fd)?.cloexec)
}
pub fn sys_setfd(fd: i32, cloexec: bool) -> R<()> {
    enter(sysno::SETFD, &[EINVAL])?;
    get(fd)?;
    k().fds[fd as usize].cloexec = cloexec;
    Ok(())
}
pub fn sys_getfl(fd: i32) -> R<bool> {
    enter(sysno::GETFL, &[EINVAL])?;
    Ok(get(fd)?.nonblock)
}
pub fn sys_setfl(fd: i32, nonblock: bool) -> R<()> {
    enter(sysno::SETFL, &[EINVAL])?;
    get(fd)?;
    k().fds[fd as usize].nonblock = nonblock;
    Ok(())
}

pub fn sys_pipe(cloexec: bool, nonblock: bool, with_flags: bool) -> R<(i32, i32)> {
    if with_flags {
        enter(sysno::PIPE2, &[ENOSYS, EMFILE])?;
    } else {
        enter(sysno::PIPE, &[EMFILE, ENFILE])?;
    }
    let k = k();
    let ix = k.npipes;
    k.pipes[ix as usize] = Pipe { count: 0, r: true, w: true, high: 0, arrived: true };
    k.npipes += 1;
    let r = install(Kind::PipeR, ix, cloexec, nonblock)?;
    match install(Kind::PipeW, ix, cloexec, nonblock) {
        Ok(w) => Ok((r, w)),
        Err(e) => {
            k.fds[r as usize] = FREE;
            Err(e)
        }
    }
}

pub fn sys_eventfd(init: u32, cloexec: bool, nonblock: bool) -> R<i32> {
    enter(sysno::EVENTFD, &[ENOSYS, EMFILE])?;
    let k = k();
    let ix = k.nevs;
    k.evs[ix as usize] = init as u64;
    k.nevs += 1;
    install(Kind::EventFd, ix, cloexec, nonblock | ESP)
}

pub fn sys_timerfd_create(cloexec: bool, nonblock: bool) -> R<i32> {
    enter(sysno::TIMERFD_CREATE, &[ENOSYS, EMFILE])?;
    let k = k();
    let ix = k.ntimers;
    k.timers[ix as usize] = Timer { armed: false, at: Ts::new(0, 0), expired: false };
    k.ntimers += 1;
    install(Kind::Timer, ix, cloexec, nonblock)
}

/// `abs`: `TFD_TIMER_ABSTIME`.  Returns nothing (the old value is not modelled).
pub fn sys_timerfd_settime(fd: i32, s: i64, ns: i64, abs: bool) -> R<()> {
    enter(sysno::TIMERFD_SETTIME, &[EINVAL])?;
    if s < 0 || ns < 0 || ns >= 1_000_000_000 {
        return Err(EINVAL);
    }
    let f = get(fd)?;
    if f.kind != Kind::Timer {
        return Err(EINVAL);
    }
    let k = k();
    let at = if abs { Ts::new(s, ns as u32) } else { now_exact().plus(s as u64, ns as u32) };
    let t = &mut k.timers[f.ix as usize];
    t.expired = false;
    if s == 0 && ns == 0 {
        t.armed = false;
    } else {
        t.armed = true;
        t.at = at;
        if abs {
            tick();
        }
    }
    Ok(())
}

/// Time until the timer expires, zero if it is not armed or has expired.
pub fn sys_timerfd_gettime(fd: i32) -> R<(u64, u32)> {
    let f = get(fd)?;
    if f.kind != Kind::Timer {
        return Err(EINVAL);
    }
    let t = k().timers[f.ix as usize];
    if !t.armed || t.expired || t.at <= k().clock {
        return Ok((0, 0));
    }
    Ok(t.at.since(now_exact()))
}

pub fn sys_read(fd: i32, len: usize) -> R<(usize, u64)> {
    enter(sysno::READ, &[])?;
    loop {
        let f = get(fd)?;
        let k = k();
        let ix = f.ix as usize;
        match f.kind {
            Kind::EventFd => {
                if len < 8 {
                    return Err(EINVAL);
                }
                let c = k.evs[ix];
                if c > 0 || ESP {
                    k.evs[ix] = 0;
                    edge(fd, OUT);
                    return Ok((8, c));
                }
            }
            Kind::Timer => {
                if len < 8 {
                    return Err(EINVAL);
                }
                if ready(fd) != 0 {
                    k.timers[ix].expired = false;
                    k.timers[ix].armed = false;
                    return Ok((8, 1));
                }
            }
            Kind::PipeR => {
                let p = &mut k.pipes[ix];
                if VITA && p.count > 0 && !p.arrived && f.nonblock && k.delays > 0 && vx::bool("late") {
                    k.delays -= 1;
                    return Err(EAGAIN);
                }
                if p.count > 0 && len > 0 {
                    p.arrived = true;
                    let n = if (p.count as usize) < len { p.count as usize } else { len };
                    let full = p.count >= k.pipe_cap;
                    p.count -= n as u32;
                    if full {
                        edge_peer(Kind::PipeW, ix, OUT | WRNORM);
                    }
                    vx::wake();
                    return Ok((n, 0));
                }
                if !p.w || len == 0 {
                    return Ok((0, 0));
                }
            }
            _ => return Err(EINVAL),
        }
        if f.nonblock {
            return Err(EAGAIN);
        }
        if k.mt {
            vx::block();
        } else {
            hang("read() from a wake-up channel blocks forever");
        }
    }
}

pub fn sys_write(fd: i32, len: usize, val: u64) -> R<usize> {
    enter(sysno::WRITE, &[])?;
    loop {
        let f = get(fd)?;
        let k = k();
        let ix = f.ix as usize;
        match f.kind {
            Kind::EventFd => {
                if len < 8 || val == u64::MAX {
                    return Err(EINVAL);
                }
                let c = k.evs[ix];
                if u64::MAX - 1 - c >= val {
                    k.evs[ix] = c + val;
                    edge(fd, IN);
                    return Ok(8);
                }
            }
            Kind::PipeW => {
                let p = &mut k.pipes[ix];
                if !p.r {
                    return Err(EPIPE);
                }
                if len == 0 {
                    return Ok(0);
                }
                if p.count + len as u32 <= k.pipe_cap {
                    p.arrived = !VITA;
                    p.count += len as u32;
                    if p.count > p.high {
                        p.high = p.count;
                    }
                    edge_peer(Kind::PipeR, ix, IN | RDNORM);
                    return Ok(len);
                }
                // (As the kernel does: readers are woken up even so.)
                edge_peer(Kind::PipeR, ix, IN | RDNORM);
            }
            _ => return Err(EINVAL),
        }
        if f.nonblock {
            return Err(EAGAIN);
        }
        if k.mt {
            vx::block();
        } else {
            hang("write() to a full wake-up channel blocks forever");
        }
    }
}

// ---------------------------------------------------------------- epoll

pub fn sys_epoll_create(cloexec: bool) -> R<i32> {
    enter(sysno::EPOLL_CREATE, &[EMFILE, ENOMEM])?;
    let k = k();
    let ix = k.neps;
    k.eps[ix as usize].n = 0;
    k.eps[ix as usize].nl = 0;
    k.neps += 1;
    install(Kind::Epoll, ix, cloexec, false)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Add,
    Mod,
    Del,
}

pub fn sys_epoll_ctl(epfd: i32, op: Op, fd: i32, events: u32, data: u64) -> R<()> {
    match op {
        Op::Add => enter(sysno::EPOLL_ADD, &[ENOMEM, ENOSPC])?,
        Op::Mod => enter(sysno::EPOLL_MOD, &[ENOMEM])?,
        Op::Del => enter(sysno::EPOLL_DEL, &[])?,
    }
    let e = get(epfd)?;
    let f = get(fd)?;
    if f.kind == Kind::File {
        return Err(EPERM);
    }
    if e.kind != Kind::Epoll || epfd == fd {
        return Err(EINVAL);
    }
    let ep = &mut k().eps[e.ix as usize];
    match (op, find(ep, fd)) {
        (Op::Add, Some(_)) => Err(EEXIST),
        (Op::Add, None) => {
            if ep.n == NITEMS {
                return Err(ENOSPC);
            }
            ep.items[ep.n] = Item { fd, events, data, off: false };
            ep.n += 1;
            arm(e.ix as usize, fd, events);
            Ok(())
        }
        (_, None) => Err(ENOENT),
        (Op::Mod, Some(i)) => {
            let it = &mut ep.items[i];
            if it.events & EXCLUSIVE != 0 || events & EXCLUSIVE != 0 {
                return Err(EINVAL);
            }
            it.events = events;
            it.data = data;
            it.off = false;
            arm(e.ix as usize, fd, events);
            Ok(())
        }
        (Op::Del, Some(i)) => {
            remove(ep, i);
            Ok(())
        }
    }
}

/// Reports at most `max` events through `out(i, flags, data)`.
pub fn sys_epoll_wait(
    epfd: i32,
    max: usize,
    timeout: i32,
    mut out: impl FnMut(usize, u32, u64),
) -> R<usize> {
    enter(sysno::EPOLL_WAIT, &[EINVAL])?;
    if k().fault_mask & BEFORE_WAIT != 0 {
        k().faults = 0;
    }
    let e = get(epfd)?;
    if e.kind != Kind::Epoll || max == 0 || max > i32::MAX as usize {
        return Err(EINVAL);
    }
    let deadline = deadline_ms(timeout);
    loop {
        tick();
        let ep = &mut k().eps[e.ix as usize];
        let mut n = 0;
        let mut left = ep.nl;
        while left > 0 && n < max {
            left -= 1;
            let fd = ep.list[0] as i32;
            unlink(ep, fd);
            let i = find(ep, fd).unwrap();
            let it = ep.items[i];
            if it.off {
                continue;
            }
            let r = ready(fd) & (it.events | ERR | HUP) & 0xffff;
            if r != 0 {
                out(n, r, it.data);
                n += 1;
                if it.events & ONESHOT != 0 {
                    ep.items[i].off = true;
                } else if it.events & ET == 0 {
                    // Level-triggered items go to the tail of the ready list.
                    ep.list[ep.nl] = fd as i16;
                    ep.nl += 1;
                }
            }
        }
        if n > 0 {
            return Ok(n);
        }
        if timeout == 0 {
            return Ok(0);
        }
        match idle(deadline) {
            Idle::Recheck => {}
            Idle::Timeout => return Ok(0),
            Idle::Intr => return Err(EINTR),
        }
    }
}

// ---------------------------------------------------------------- poll

/// `fds` yields (fd, events); `set(i, revents)` stores the result.
fn arrive(fd: i32) {
    let k = k();
    if fd as usize >= NFD {
        return;
    }
    let f = k.fds[fd as usize];
    if f.kind == Kind::PipeR {
        k.pipes[f.ix as usize].arrived = true;
    }
}

pub fn sys_poll(
    n: usize,
    timeout: i32,
    fds: impl Fn(usize) -> (i32, u16),
) -> R<(usize, [u16; NFD])> {
    enter(sysno::POLL, &[ENOMEM])?;
    let deadline = deadline_ms(timeout);
    vx::check(n <= NFD, "model bound: poll() with too many descriptors");
    loop {
        let mut rev = [0u16; NFD];
        let mut c = 0;
        let mut i = 0;
        while i < n {
            let (fd, ev) = fds(i);
            if fd >= 0 {
                let r = ready(fd) as u16 & (ev | (ERR | HUP | NVAL) as u16);
                if r != 0 {
                    if VITA {
                        arrive(fd);
                    }
                    rev[i] = r;
                    c += 1;
                }
            }
            i += 1;
        }
        if c > 0 || timeout == 0 {
            return Ok((c, rev));
        }
        match idle(deadline) {
            Idle::Recheck => {}
            Idle::Timeout => return Ok((0, rev)),
            Idle::Intr => return Err(EINTR),
        }
    }
}

// ---------------------------------------------------------------- owned descriptors

pub struct OwnedFd {
    fd: RawFd,
}

impl Drop for OwnedFd {
    fn drop(&mut self) {
        sys_close(self.fd);
    }
}
impl AsRawFd for OwnedFd {
    fn as_raw_fd(&self) -> RawFd {
        self.fd
    }
}
impl AsFd for OwnedFd {
    fn as_fd(&self) -> BorrowedFd<'_> {
        unsafe { BorrowedFd::borrow_raw(self.fd) }
    }
}
impl FromRawFd for OwnedFd {
    unsafe fn from_raw_fd(fd: RawFd) -> OwnedFd {
        OwnedFd { fd }
    }
}
impl IntoRawFd for OwnedFd {
    fn into_raw_fd(self) -> RawFd {
        let fd = self.fd;
        core::mem::forget(self);
        fd
    }
}
impl core::fmt::Debug for OwnedFd {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_struct("OwnedFd").finish()
    }
}
