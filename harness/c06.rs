#[path = "common.rs"]
mod common;
use common::*;

fn any_duration() -> Duration {
    let s = vx::u64("timeout_s");
    let ns = vx::u32("timeout_ns");
    assume(ns < 1_000_000_000);
    Duration::new(s, ns)
}

fn start_anywhere() -> Ts {
    vkern::advance();
    vkern::now_exact()
}

fn idle_any(p: &Poller) {
    let mut ev = events(4);
    let t = any_duration();
    // Beyond that the end of the wait cannot be represented; waiting forever is right.
    k().on_hang = if t < Duration::from_secs(1 << 40) { Hang::Violation } else { Hang::Stop };
    let t0 = start_anywhere();
    let n = wait(p, &mut ev, Some(t));
    check(n == 0, "events without a source");
    let e = elapsed(t0);
    let least = least(t);
    check(e >= least, "wait() returns before its timeout");
    let most = t.checked_add(MS).unwrap_or(Duration::MAX);
    check(e < most, "wait() returns a millisecond or more after its timeout");
    if t == Duration::ZERO {
        cover("zero");
        check(!k().slept, "wait() with a zero timeout sleeps");
    } else {
        cover("sleeps");
    }
}

//# fn=c06_idle covers=zero;sleeps cost=5 | every Duration as timeout, every clock value below 2^40 s;
//#   nothing happens during the wait
#[no_mangle]
pub extern "C" fn c06_idle() {
    streams();
    let p = poller();
    idle_any(&p);
    finish(p);
}

//# fn=c06_fallback configs=epoll,pipe covers=zero;sleeps;no_timer cost=5 | the same without timer descriptors
//#   (timerfd_create() fails)
#[no_mangle]
pub extern "C" fn c06_fallback() {
    k().fault_mask = 1 << vkern::sysno::TIMERFD_CREATE;
    k().faults = 1;
    let p = poller();
    assume(k().failed != 0);
    cover("no timer");
    idle_any(&p);
    finish(p);
}

//# fn=c06_event covers=event;timeout cost=5 | a source becomes ready at any moment relative to any
//#   timeout below 2^40 s
#[no_mangle]
pub extern "C" fn c06_event() {
    streams();
    let p = poller();
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    let t = any_timeout();
    let a = any_timeout();
    let t0 = vkern::now_exact();
    k().env[0] = EnvEv { at: t0.plus(a.as_secs(), a.subsec_nanos()), what: Env::Ready, arg: fd, mask: IN };
    let n = wait(&p, &mut ev, Some(t));
    let e = elapsed(t0);
    if n == 1 {
        cover("event");
        check(e == a, "wait() does not return when the source becomes ready");
        check(a <= t + MS, "wait() outlives its timeout");
    } else {
        cover("timeout");
        check(a >= e, "a source that became ready in time is not reported");
        check(e >= least(t), "wait() returns before its timeout");
        check(e < t + MS, "wait() returns a millisecond or more after its timeout");
    }
    finish(p);
}

//# fn=c06_none covers=event | no timeout; a source becomes ready after any time below 2^40 s, with
//#   any timed wait before
#[no_mangle]
pub extern "C" fn c06_none() {
    let p = poller();
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    if vx::bool("timed wait first") {
        let t = any_timeout();
        if vx::bool("interrupted by an event") {
            vkern::set_ready(fd, IN);
        }
        wait(&p, &mut ev, Some(t));
        vkern::clear_ready(fd, !0);
        check(modify(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "modify() fails");
    }
    let a = any_timeout();
    let t0 = vkern::now_exact();
    k().env[0] = EnvEv { at: t0.plus(a.as_secs(), a.subsec_nanos()), what: Env::Ready, arg: fd, mask: IN };
    let n = wait(&p, &mut ev, None);
    check(n == 1, "wait() without a timeout returns without an event");
    check(elapsed(t0) == a, "wait() does not return when the source becomes ready");
    cover("event");
    finish(p);
}

//# fn=c06_zero covers=ready;nothing | zero timeout, any conditions and interest, after any timed
//#   wait that ended early or not
#[no_mangle]
pub extern "C" fn c06_zero() {
    let p = poller();
    let fd = source();
    let mut ev = events(4);
    let w = any_want(7);
    check(add(&p, fd, w.event(), PollMode::Level).is_ok(), "add() fails");
    if vx::bool("timed wait first") {
        wait(&p, &mut ev, Some(any_timeout()));
    }
    k().slept = false;
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    let t0 = vkern::now_exact();
    let n = wait(&p, &mut ev, ZERO);
    check(!k().slept, "wait() with a zero timeout sleeps");
    check(k().clock == t0, "wait() with a zero timeout takes time");
    check((n == 1) == (m & w.must() != 0), "wait() with a zero timeout misses what is ready");
    if n == 1 {
        cover("ready");
    } else {
        cover("nothing");
    }
    finish(p);
}

//# fn=c06_twice covers=second cost=5 | two waits in a row with any timeouts, the first ended by an
//#   event at any time or not: the second lasts its own timeout
#[no_mangle]
pub extern "C" fn c06_twice() {
    let p = poller();
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    let t1 = any_timeout();
    let t2 = any_timeout();
    if vx::bool("event") {
        let a = any_timeout();
        assume(a < least(t1));
        let t0 = vkern::now_exact();
        k().env[0] = EnvEv { at: t0.plus(a.as_secs(), a.subsec_nanos()), what: Env::Ready, arg: fd, mask: IN };
    }
    wait(&p, &mut ev, Some(t1));
    // Time passes between the calls.
    vkern::advance();
    let t0 = vkern::now_exact();
    let n = wait(&p, &mut ev, Some(t2));
    check(n == 0, "a one-shot source is reported again");
    let e = elapsed(t0);
    check(e >= least(t2), "wait() returns before its timeout");
    check(e < t2 + MS, "wait() returns a millisecond or more after its timeout");
    cover("second");
    finish(p);
}

//# fn=c06_slow covers=timeout cost=5 | any delays inside wait() (at the first 5 moments it reads
//#   the clock) and any delay of the wake-up: never early
#[no_mangle]
pub extern "C" fn c06_slow() {
    let p = poller();
    let mut ev = events(4);
    let t = any_timeout();
    let t0 = vkern::now_exact();
    k().jitter = 5;
    k().late = true;
    let n = wait(&p, &mut ev, Some(t));
    check(n == 0, "events without a source");
    check(elapsed(t0) >= least(t), "wait() returns before its timeout");
    cover("timeout");
    finish(p);
}

extern "C" fn operate(n: usize) {
    let mut i = 0;
    while i < n {
        i += 1;
        // Time passes while the other thread sleeps, but less than the timeout.
        vx::sched(90);
        while !k().asleep && OVER.get() == 0 {
            vx::block();
        }
        if OVER.get() != 0 {
            return;
        }
        let ns = vx::u32("operation_ns");
        assume(ns < unsafe { LIMIT });
        let at = Ts::new(1000, 0).plus(0, ns);
        if k().clock < at {
            k().clock = at;
        }
        let fd = unsafe { BASE };
        let r = match vx::below("operation", 3) {
            0 => add(shared(), fd + 1, Event::readable(8), PollMode::Oneshot),
            1 => modify(shared(), fd, Event::writable(9), PollMode::Level),
            _ => delete(shared(), fd),
        };
        ignore(r);
    }
}

static OVER: Cell = Cell::new();
static mut LIMIT: u32 = 0;
static mut BASE: RawFd = 0;

fn disturbed(n: usize) {
    let p = share_with_signal();
    k().watch = true;
    let mut ev = events(2);
    let fd = source();
    let fd2 = source();
    check(fd2 == fd + 1, "model bound: descriptors are not consecutive");
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let ns = vx::u32("timeout_ns");
    assume(ns < 1_000_000_000);
    unsafe {
        LIMIT = ns;
        BASE = fd;
    }
    let a = vx::spawn(operate, n);
    let t = Duration::new(0, ns);
    let t0 = k().clock;
    let n = wait(p, &mut ev, Some(t));
    let e = elapsed(t0);
    OVER.set(1);
    check(n == 0, "events without a source");
    check(e >= t, "an operation of another thread makes wait() return before its timeout");
    check(e < t + MS, "an operation of another thread makes wait() outlive its timeout");
    cover("timeout");
    vx::join(a);
    finish_shared();
}

//# fn=c06_disturbed covers=timeout cost=20 | any timeout below 1 s, in every schedule with another thread that adds,
//#   modifies or deletes a source once at any moment of the wait, and with a signal: the wait lasts its timeout
#[no_mangle]
pub extern "C" fn c06_disturbed() {
    disturbed(1);
}

//# fn=c06_disturbed_twice covers=timeout cost=20 | the same with two operations
#[no_mangle]
pub extern "C" fn c06_disturbed_twice() {
    disturbed(2);
}
