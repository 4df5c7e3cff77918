#[path = "common.rs"]
mod common;
use common::*;

static SRC: Cell = Cell::new();
static GOT: Cell = Cell::new();
static EMPTY: Cell = Cell::new();

fn waiter_body(t: Option<Duration>) {
    let mut ev = events(2);
    let n = wait(shared(), &mut ev, t);
    if n == 0 {
        EMPTY.add(1);
        vkern::set_ready(SRC.get() as RawFd, IN);
    } else {
        check(ev.iter().next().unwrap().key == 7, "another key");
        GOT.add(n as u32);
    }
}

extern "C" fn waiter(_: usize) {
    waiter_body(None);
}

fn contend(others: usize) {
    let p = share_with_signal();
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    SRC.set(fd as u32);
    let mut ts = [0; 3];
    let mut i = 0;
    while i < others {
        ts[i] = vx::spawn(waiter, 0);
        i += 1;
    }
    waiter_body(None);
    let mut i = 0;
    while i < others {
        vx::join(ts[i]);
        i += 1;
    }
    check(GOT.get() == 1, "an event is delivered to more than one waiter, or to none");
    check(EMPTY.get() == others as u32, "a waiter returns twice");
    cover("contended");
    let mut ev = events(2);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    finish_shared();
}

//# fn=c10_two covers=contended cost=5 | two threads wait without a timeout for the same source, which becomes
//#   ready only after one of them returned empty-handed: that one returns at once, the other gets the event
#[no_mangle]
pub extern "C" fn c10_two() {
    contend(1);
}

//# fn=c10_three covers=contended cost=20 | one event for the first of three threads; the other two return
#[no_mangle]
pub extern "C" fn c10_three() {
    let p = share_with_signal();
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Level).is_ok(), "add() fails");
    SRC.set(fd as u32);
    let t = vx::spawn(waiter, 0);
    let u = vx::spawn(waiter, 0);
    waiter_body(None);
    vx::join(t);
    vx::join(u);
    check(GOT.get() + EMPTY.get() == 3, "a waiter returns twice");
    check(GOT.get() >= 1, "an event is delivered to none of the waiters");
    cover("contended");
    finish_shared();
}

static READY: Cell = Cell::new();

extern "C" fn first(_: usize) {
    let mut ev = events(2);
    let mut n = 0;
    while n == 0 {
        n = wait(shared(), &mut ev, None);
    }
    GOT.add(n as u32);
}

//# fn=c10_timed covers=empty;event cost=10 | one thread waits without a timeout, another with any of {0, 1 ns, 999 us, 10 s}: if the
//#   second finds the first waiting it returns at once, empty-handed
#[no_mangle]
pub extern "C" fn c10_timed() {
    let p = share_with_signal();
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    SRC.set(fd as u32);
    let t = vx::spawn(first, 0);
    let mut ev = events(2);
    let t0 = vkern::now_exact();
    let d = match vx::below("timeout", 4) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(1),
        2 => Duration::from_micros(999),
        _ => Duration::from_secs(10),
    };
    let n = wait(p, &mut ev, Some(d));
    check(n == 0, "an event without a source");
    let e = elapsed(t0);
    check(
        (e == Duration::ZERO) | (e >= d),
        "wait() sleeps although another thread is waiting",
    );
    if e == Duration::ZERO {
        cover("empty");
    }
    vkern::set_ready(fd, IN);
    vx::join(t);
    check(GOT.get() == 1, "the event of the first waiter is lost");
    cover("event");
    finish_shared();
}

extern "C" fn drain(_: usize) {
    let mut ev = events(1);
    let mut i = 0;
    while i < 2 {
        let n = wait(shared(), &mut ev, ZERO);
        for e in ev.iter() {
            check(READY.get() & (1 << e.key) == 0, "a one-shot source is reported twice");
            READY.set(READY.get() | 1 << e.key);
        }
        GOT.add(n as u32);
        i += 1;
    }
}

//# fn=c10_drain covers=all cost=20 | two threads call wait() twice each for three ready one-shot sources:
//#   none is reported twice or with another key, and nothing is lost
#[no_mangle]
pub extern "C" fn c10_drain() {
    let p = share_with_signal();
    let mut i = 0;
    while i < 3 {
        let fd = source();
        vkern::set_ready(fd, IN);
        check(add(p, fd, Event::readable(i), PollMode::Oneshot).is_ok(), "add() fails");
        i += 1;
    }
    let t = vx::spawn(drain, 0);
    drain(0);
    vx::join(t);
    drain(0);
    drain(0);
    check(GOT.get() == 3, "an event is lost");
    check(READY.get() == 7, "an event is lost");
    cover("all");
    finish_shared();
}

static FLAG: Cell = Cell::new();

extern "C" fn serve(_: usize) {
    let mut ev = events(2);
    while FLAG.get() == 0 {
        let n = wait(shared(), &mut ev, None);
        if n == 0 && FLAG.get() == 0 {
            // Another thread is waiting; it will pass the notification on.
            return;
        }
    }
    EMPTY.add(1);
    mt_notify();
}

extern "C" fn stop(_: usize) {
    FLAG.set(1);
    mt_notify();
}

//# fn=c10_notify covers=woken cost=10 | a notification while two threads call wait(): the one that waits is
//#   woken
#[no_mangle]
pub extern "C" fn c10_notify() {
    share();
    let t = vx::spawn(serve, 0);
    let u = vx::spawn(stop, 0);
    serve(0);
    vx::join(t);
    vx::join(u);
    check(EMPTY.get() >= 1, "a notification does not wake the waiting thread");
    cover("woken");
    finish_shared();
}

//# fn=c10_again covers=second cost=5 | after a contended wait the poller can be waited on again, by either
//#   thread
#[no_mangle]
pub extern "C" fn c10_again() {
    let p = share_with_signal();
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    SRC.set(fd as u32);
    let t = vx::spawn(waiter, 0);
    waiter_body(None);
    vx::join(t);
    check(GOT.get() == 1, "an event is delivered to more than one waiter, or to none");
    vkern::set_ready(fd, IN);
    check(modify(p, fd, Event::readable(8), PollMode::Oneshot).is_ok(), "modify() fails");
    let mut ev = events(2);
    k().slept = false;
    check(wait(p, &mut ev, None) == 1, "the poller stays locked after a contended wait()");
    check(!k().slept, "wait() sleeps although a source is ready");
    cover("second");
    finish_shared();
}

extern "C" fn operate(fd: usize) {
    let fd = fd as RawFd;
    check(add(shared(), fd, Event::readable(9), PollMode::Oneshot).is_ok(), "an operation fails although no system call does");
    check(delete(shared(), fd).is_ok(), "an operation fails although no system call does");
}

//# fn=c10_operate covers=contended cost=20 | two threads that wait as in c10_two and a third that adds and deletes
//#   another source: its calls return, and one waiter gets the event
#[no_mangle]
pub extern "C" fn c10_operate() {
    let p = share_with_signal();
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    SRC.set(fd as u32);
    let other = source();
    let t = vx::spawn(waiter, 0);
    let u = vx::spawn(operate, other as usize);
    waiter_body(None);
    vx::join(t);
    vx::join(u);
    check(GOT.get() == 1, "an event is delivered to more than one waiter, or to none");
    check(EMPTY.get() == 1, "a waiter returns twice");
    cover("contended");
    finish_shared();
}

extern "C" fn fails(_: usize) {
    let mut ev = events(1);
    match shared().wait(&mut ev, Some(MS)) {
        Ok(n) => GOT.add(n as u32),
        Err(e) => {
            check(e.raw_os_error() == Some(k().last_errno), "wait() reports another error");
            READY.add(1);
        }
    }
}

//# fn=c10_error covers=error configs=poll cost=5 | two threads wait and the system call of one fails, in every schedule: that one
//#   gets the error and the poller can be waited on again
#[no_mangle]
pub extern "C" fn c10_error() {
    let p = share_with_signal();
    k().fault_mask = 1 << vkern::sysno::POLL;
    k().faults = 1;
    let t = vx::spawn(fails, 0);
    fails(0);
    vx::join(t);
    check(GOT.get() == 0, "an event without a source");
    check(READY.get() == (k().failed != 0) as u32, "a failure is reported more than once, or not at all");
    if READY.get() != 0 {
        cover("error");
    }
    k().faults = 0;
    let _ = p;
    finish_shared();
}
