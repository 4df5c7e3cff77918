// Shared by the harnesses.  Included by every harness crate.
#![allow(dead_code, unused_imports, static_mut_refs)]

pub use polling::{Event, Events, PollMode, Poller};
pub use std::io;
pub use std::num::NonZeroUsize;
pub use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
pub use std::time::Duration;
pub use vkern::{k, Env, EnvEv, Hang, Kind, Ts};
pub use vkern::{ERR, HUP, IN, OUT, PRI, RDBAND, RDHUP, RDNORM, WRBAND, WRNORM};
pub use vx::{assume, check, cover, observe};

pub const EPOLL: bool = cfg!(config = "epoll");
pub const POLL: bool = cfg!(config = "poll");
pub const PIPE: bool = cfg!(config = "pipe");
pub const KQ: bool = cfg!(config = "kqueue");
pub const PORT: bool = cfg!(config = "port");
pub const ZERO: Option<Duration> = Some(Duration::ZERO);

/// The standard streams may be closed: new descriptors begin at 0.
pub fn streams() {
    if vx::bool("standard streams closed") {
        k().first_fd = 0;
    }
}

pub fn poller() -> Poller {
    match Poller::new() {
        Ok(p) => p,
        Err(_) => {
            check(false, "Poller::new() fails although no system call does");
            vx::stop()
        }
    }
}

/// A poller on a system with or without timer descriptors.
pub fn any_poller() -> Poller {
    if POLL {
        return poller();
    }
    k().fault_mask = 1 << vkern::sysno::TIMERFD_CREATE;
    k().faults = 1;
    let p = poller();
    k().faults = 0;
    k().fault_mask = 0;
    if k().failed != 0 {
        unsafe { NO_TIMER = true };
        k().failed = 0;
    }
    p
}

/// A poller on a system without timer descriptors.
pub fn timerless() -> Poller {
    let p = any_poller();
    assume(k().ntimers == 0);
    p
}

static mut NO_TIMER: bool = false;

/// A wait of `t` lasts at least this long.
pub fn least(t: Duration) -> Duration {
    if (k().ntimers == 0) | unsafe { NO_TIMER } {
        cap(t)
    } else {
        t
    }
}

pub fn events(n: usize) -> Events {
    Events::with_capacity(NonZeroUsize::new(n).unwrap())
}

pub fn source() -> RawFd {
    vkern::open_source(Kind::Source)
}

pub fn bfd(fd: RawFd) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}

pub fn add(p: &Poller, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
    unsafe { p.add_with_mode(fd, ev, mode) }
}

pub fn modify(p: &Poller, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
    p.modify_with_mode(bfd(fd), ev, mode)
}

pub fn delete(p: &Poller, fd: RawFd) -> io::Result<()> {
    p.delete(bfd(fd))
}

/// Any user key.
pub fn any_key(name: &str) -> usize {
    let key = vx::usize(name);
    assume(key != usize::MAX);
    key
}

/// What a caller asked for.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Want {
    pub key: usize,
    pub r: bool,
    pub w: bool,
    pub pri: bool,
    pub hup: bool,
}

pub fn any_want(key: usize) -> Want {
    Want {
        key,
        r: vx::bool("readable"),
        w: vx::bool("writable"),
        pri: vx::bool("priority"),
        hup: vx::bool("interrupt"),
    }
}

/// The same without the extra flags.
pub fn any_rw(key: usize) -> Want {
    Want { key, r: vx::bool("readable"), w: vx::bool("writable"), pri: false, hup: false }
}

impl Want {
    pub fn event(&self) -> Event {
        let mut e = Event::new(self.key, self.r, self.w);
        e.set_priority(self.pri);
        e.set_interrupt(self.hup);
        e
    }
    /// Conditions that must be reported for this interest.
    pub fn must(&self) -> u32 {
        sel(self.r, IN | PRI) | sel(self.w, OUT) | sel(self.pri, PRI) | ERR | HUP
    }
    /// Conditions that may be reported for this interest.
    pub fn may(&self) -> u32 {
        self.must() | sel(self.r, RDNORM | RDBAND | RDHUP) | sel(self.w, WRNORM | WRBAND)
    }
}

/// `m` if `c`, without a branch.
pub fn sel(c: bool, m: u32) -> u32 {
    (0u32.wrapping_sub(c as u32)) & m
}

/// Any mode the backend supports.
pub fn any_mode() -> PollMode {
    if PORT {
        PollMode::Oneshot
    } else if POLL {
        if vx::bool("level") {
            PollMode::Level
        } else {
            PollMode::Oneshot
        }
    } else {
        match vx::below("mode", 4) {
            0 => PollMode::Oneshot,
            1 => PollMode::Level,
            2 => PollMode::Edge,
            _ => PollMode::EdgeOneshot,
        }
    }
}

pub fn any_conds(name: &str) -> u32 {
    vx::u32(name) & vkern::CONDS
}

/// Only the five conditions that have a meaning in the API.
pub fn any_conds5(name: &str) -> u32 {
    vx::u8(name) as u32 & (IN | OUT | PRI | ERR | HUP)
}

/// A delivered event as a set of facts.
pub fn check_decode(e: &Event, reported_must: u32, reported_may: u32) {
    let rd = IN | PRI | HUP | ERR;
    let wr = OUT | HUP | ERR;
    check(!(reported_must & rd != 0) | e.readable, "a readable source is not reported readable");
    check(
        !e.readable | (reported_may & (rd | RDNORM | RDBAND | RDHUP) != 0),
        "an event is readable although the source is not",
    );
    check(!(reported_must & wr != 0) | e.writable, "a writable source is not reported writable");
    check(
        !e.writable | (reported_may & (wr | WRNORM | WRBAND) != 0),
        "an event is writable although the source is not",
    );
    check(e.is_priority() == (reported_must & PRI != 0), "is_priority() is wrong");
    check(e.is_interrupt() == (reported_must & HUP != 0), "is_interrupt() is wrong");
    if let Some(x) = e.is_err() {
        check(x == (reported_must & ERR != 0), "is_err() is wrong");
    } else {
        check(false, "is_err() is not supported");
    }
}

/// wait() that must succeed; also checks that the count, the length and the iterator agree.
pub fn wait(p: &Poller, ev: &mut Events, t: Option<Duration>) -> usize {
    ev.clear();
    match p.wait(ev, t) {
        Ok(n) => {
            let mut c = 0;
            for e in ev.iter() {
                check(e.key != usize::MAX, "an internal event is visible to the user");
                c += 1;
            }
            check(c == n, "wait() returns a number different from the events delivered");
            n
        }
        Err(_) => {
            check(false, "wait() fails although no system call does");
            vx::stop()
        }
    }
}

/// Does nothing but keep values alive.
pub fn ignore<T>(_: T) {}

pub fn kind(r: &io::Result<()>) -> Option<io::ErrorKind> {
    match r {
        Ok(()) => None,
        Err(e) => Some(e.kind()),
    }
}

/// Whatever came before, the poller does its job: without anything ready it sleeps for its timeout,
/// a notification wakes one wait and only one, a new source is reported and one that is not ready is not.
pub fn works(p: &Poller) {
    let mut ev = events(4);
    vkern::calm();
    wait(p, &mut ev, ZERO);
    idle(p, &mut ev);
    k().slept = false;
    check(p.notify().is_ok(), "notify() fails although no system call does");
    check(wait(p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    let fd = source();
    vkern::set_ready(fd, IN);
    check(add(p, fd, Event::readable(77), PollMode::Oneshot).is_ok(), "add() of a new source fails");
    k().slept = false;
    check(wait(p, &mut ev, None) == 1, "a ready source is not reported");
    check(!k().slept, "wait() sleeps although a source is ready");
    let e = ev.iter().next().unwrap();
    check((e.key == 77) & e.readable & !e.writable, "a source is reported wrongly");
    idle(p, &mut ev);
    check(delete(p, fd).is_ok(), "delete() of a registered source fails");
}

/// Nothing is ready or pending: wait() sleeps for its timeout.
pub fn idle(p: &Poller, ev: &mut Events) {
    let t0 = vkern::now_exact();
    k().slept = false;
    check(wait(p, ev, Some(Duration::from_millis(7))) == 0, "events without a source");
    check(k().slept, "wait() does not sleep although nothing is ready or pending");
    check(elapsed(t0) >= Duration::from_millis(7), "wait() returns before its timeout");
}

/// Everything works and is released exactly once, without blocking.
pub fn finish(p: Poller) {
    works(&p);
    release(p);
}

pub fn release(p: Poller) {
    drop(p);
    check(vkern::open_fds() == 0, "dropping the poller leaves descriptors open");
}

/// Any timeout below 2^40 seconds.
pub fn any_timeout() -> Duration {
    let s = vx::u64("timeout_s");
    let ns = vx::u32("timeout_ns");
    assume(s < 1 << 40);
    assume(ns < 1_000_000_000);
    Duration::new(s, ns)
}

pub fn elapsed(from: Ts) -> Duration {
    let (s, ns) = k().clock.since(from);
    Duration::new(s, ns)
}

/// The longest timeout a backend without a timer descriptor can express in one system call.
pub fn cap(t: Duration) -> Duration {
    let m = Duration::from_millis(i32::MAX as u64);
    if t > m {
        m
    } else {
        t
    }
}

pub const MS: Duration = Duration::from_millis(1);

/// Source `fd` becomes ready after `a`.
pub fn later(slot: usize, a: Duration, fd: RawFd, mask: u32) {
    let at = vkern::now_exact().plus(a.as_secs(), a.subsec_nanos());
    k().env[slot] = EnvEv { at, what: Env::Ready, arg: fd, mask };
}

// ---------------------------------------------------------------- several threads

static mut SHARED: Option<Poller> = None;

/// The poller all threads use; from here on there may be several.
pub fn share() -> &'static Poller {
    k().mt = true;
    unsafe {
        SHARED = Some(poller());
    }
    k().spurious = 1;
    shared()
}

/// The same on a system that interrupts one sleep with a signal.
pub fn share_with_signal() -> &'static Poller {
    let p = share();
    k().eintrs = 1;
    p
}

pub fn shared() -> &'static Poller {
    unsafe { SHARED.as_ref().unwrap() }
}

/// All threads are done.
pub fn finish_shared() {
    finish(unsafe { SHARED.take().unwrap() })
}

/// A number every thread can read and write (threads only switch at synchronisation points).
pub struct Cell(core::cell::UnsafeCell<u32>);
unsafe impl Sync for Cell {}
impl Cell {
    pub const fn new() -> Cell {
        Cell(core::cell::UnsafeCell::new(0))
    }
    pub fn get(&self) -> u32 {
        unsafe { *self.0.get() }
    }
    pub fn set(&self, v: u32) {
        unsafe { *self.0.get() = v }
        vx::wake();
    }
    pub fn add(&self, v: u32) {
        self.set(self.get() + v)
    }
    /// Blocks until the value is at least `v`.
    pub fn await_(&self, v: u32) {
        vx::sched(90);
        while self.get() < v {
            vx::block();
        }
    }
}

/// wait() in one of several threads: must succeed.
pub fn mt_wait(ev: &mut Events, t: Option<Duration>) -> usize {
    wait(shared(), ev, t)
}

pub fn mt_notify() {
    check(shared().notify().is_ok(), "notify() fails although no system call does");
}
