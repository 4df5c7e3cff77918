#[path = "common.rs"]
mod common;
use common::*;

fn idle_for(p: &Poller, ev: &mut Events, t: Duration) -> (usize, Duration) {
    let t0 = vkern::now_exact();
    let n = wait(p, ev, Some(t));
    (n, elapsed(t0))
}

/// Any history of notifications, waits of all kinds and a source that becomes ready.
fn history(steps: usize) {
    let p = any_poller();
    // Room for everything, or not even for an event and a notification.
    let mut ev = events(if vx::bool("small container") { 1 } else { 4 });
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let mut pending = false;
    let mut ready = false;
    let mut i = 0;
    while i < steps {
        i += 1;
        let op = vx::below("op", 5);
        if op == 0 {
            check(p.notify().is_ok(), "notify() fails although no system call does");
            pending = true;
            continue;
        }
        if op == 1 {
            // The source becomes ready and is armed.
            vkern::set_ready(fd, IN);
            check(modify(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "modify() fails");
            ready = true;
            continue;
        }
        k().slept = false;
        let n = match op {
            2 => {
                assume(pending | ready);
                wait(&p, &mut ev, None)
            }
            3 => wait(&p, &mut ev, ZERO),
            _ => {
                let (n, e) = idle_for(&p, &mut ev, Duration::from_millis(10));
                if !pending & !ready {
                    check(e >= Duration::from_millis(10), "a notification wakes up more than one wait()");
                }
                n
            }
        };
        if pending {
            cover("notified");
            check(!k().slept, "wait() sleeps although a notification is pending");
        }
        if ready {
            check(!k().slept, "wait() sleeps although a source is ready");
            // A wait that consumes a notification may leave the events to the next one.
            check((n == 1) | pending, "a ready source is not reported");
        }
        check(n <= ready as usize, "an event without a source");
        if n == 1 {
            cover("event");
            ready = false;
            vkern::clear_ready(fd, IN);
        }
        pending = false;
    }
    finish(p);
}

//# fn=c08_history covers=notified;event cost=20 | every history of 8 steps out of {notify, source ready and
//#   armed, wait without timeout, with timeout zero, with a timeout}
#[no_mangle]
pub extern "C" fn c08_history() {
    history(8);
}

//# fn=c08_history_deep covers=notified;event cost=200 tier=thorough | the same with 11 steps
#[no_mangle]
pub extern "C" fn c08_history_deep() {
    history(11);
}

//# fn=c08_timeout covers=woken cost=3 | a pending notification and any timeout or none: the wait does not sleep;
//#   the next wait with any timeout sleeps for all of it
#[no_mangle]
pub extern "C" fn c08_timeout() {
    streams();
    let p = any_poller();
    let mut ev = events(4);
    let mut i = vx::below("notifications", 3);
    mt_free_notify(&p);
    while i > 0 {
        mt_free_notify(&p);
        i -= 1;
    }
    k().slept = false;
    let t = if vx::bool("timeout") { Some(any_timeout()) } else { None };
    check(wait(&p, &mut ev, t) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    cover("woken");
    let t = any_timeout();
    let (n, e) = idle_for(&p, &mut ev, t);
    check(n == 0, "events without a source");
    check(e >= least(t), "a notification wakes up more than one wait()");
    finish(p);
}

fn mt_free_notify(p: &Poller) {
    check(p.notify().is_ok(), "notify() fails although no system call does");
}

static FLAG: Cell = Cell::new();
static ACK: Cell = Cell::new();
static GOT: Cell = Cell::new();

extern "C" fn set_and_notify(n: usize) {
    let mut i = 0;
    while i < n {
        i += 1;
        FLAG.add(1);
        mt_notify();
    }
}

/// After everything the poller is as good as new: a notification wakes one wait, and only one.
fn epilogue(p: &Poller, ev: &mut Events) {
    wait(p, ev, ZERO);
    k().slept = false;
    check(p.notify().is_ok(), "notify() fails");
    check(wait(p, ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    k().slept = false;
    check(wait(p, ev, Some(MS)) == 0, "events without a source");
    check(k().slept, "a notification wakes up more than one wait()");
}

//# fn=c08_race covers=woken cost=5 | every schedule of a thread that sets a flag and notifies once against
//#   a thread that waits without a timeout until it sees the flag
#[no_mangle]
pub extern "C" fn c08_race() {
    let p = share_with_signal();
    let mut ev = events(2);
    let t = vx::spawn(set_and_notify, 1);
    while FLAG.get() == 0 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(t);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_thrice covers=woken cost=5 | the same with three notifications in a row
#[no_mangle]
pub extern "C" fn c08_thrice() {
    let p = share_with_signal();
    let mut ev = events(2);
    let t = vx::spawn(set_and_notify, 3);
    while FLAG.get() < 3 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(t);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

extern "C" fn handshake(n: usize) {
    let mut i = 0;
    while i < n as u32 {
        i += 1;
        FLAG.set(i);
        mt_notify();
        ACK.await_(i);
    }
}

//# fn=c08_handshake covers=woken cost=5 | three rounds in which each side waits for the other: every schedule
#[no_mangle]
pub extern "C" fn c08_handshake() {
    let p = share_with_signal();
    let mut ev = events(2);
    let t = vx::spawn(handshake, 3);
    let mut i = 0;
    while i < 3 {
        i += 1;
        while FLAG.get() < i {
            check(wait(p, &mut ev, None) == 0, "events without a source");
        }
        ACK.set(i);
    }
    vx::join(t);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_two covers=woken cost=20 | two threads that each set a flag and notify, a third that waits for both
#[no_mangle]
pub extern "C" fn c08_two() {
    let p = share_with_signal();
    let mut ev = events(2);
    let a = vx::spawn(set_and_notify, 1);
    let b = vx::spawn(set_and_notify, 1);
    while FLAG.get() < 2 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(a);
    vx::join(b);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_two_twice covers=woken cost=10 | two threads with two notifications each
#[no_mangle]
pub extern "C" fn c08_two_twice() {
    let p = share_with_signal();
    let mut ev = events(2);
    let a = vx::spawn(set_and_notify, 2);
    let b = vx::spawn(set_and_notify, 2);
    while FLAG.get() < 4 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(a);
    vx::join(b);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_timed covers=woken cost=10 | waits with a timeout that may expire at any moment of the schedule: a
//#   notification made afterwards is seen, one made before does not linger
#[no_mangle]
pub extern "C" fn c08_timed() {
    let p = share_with_signal();
    let mut ev = events(2);
    let t = vx::spawn(handshake, 2);
    let mut i = 0;
    while i < 2 {
        i += 1;
        check(wait(p, &mut ev, Some(MS)) == 0, "events without a source");
        while FLAG.get() < i {
            check(wait(p, &mut ev, None) == 0, "events without a source");
        }
        ACK.set(i);
    }
    vx::join(t);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

extern "C" fn source_ready(fd: usize) {
    vx::sched(90);
    vkern::set_ready(fd as RawFd, IN);
}

fn with_source(capacity: usize) {
    let p = share_with_signal();
    let mut ev = events(capacity);
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let a = vx::spawn(set_and_notify, 1);
    let b = vx::spawn(source_ready, fd as usize);
    let mut got = 0;
    while (FLAG.get() == 0) | (got == 0) {
        let n = wait(p, &mut ev, None);
        if n > 0 {
            got += n;
            check(ev.iter().next().unwrap().key == 7, "another key");
        }
    }
    vx::join(a);
    vx::join(b);
    check(got == 1, "a one-shot source is reported twice");
    cover("both");
    wait(p, &mut ev, ZERO);
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_source covers=both cost=20 | a notification and a source that becomes ready, in every schedule with a
//#   waiting thread: neither is lost
#[no_mangle]
pub extern "C" fn c08_source() {
    with_source(4);
}

//# fn=c08_source_small covers=both cost=20 | the same with a container for one event
#[no_mangle]
pub extern "C" fn c08_source_small() {
    with_source(1);
}

extern "C" fn change(fd: usize) {
    let r = match vx::below("operation", 3) {
        0 => add(shared(), fd as RawFd + 1, Event::readable(8), PollMode::Oneshot),
        1 => modify(shared(), fd as RawFd, Event::writable(9), PollMode::Level),
        _ => delete(shared(), fd as RawFd),
    };
    check(r.is_ok(), "an operation fails although no system call does");
}

//# fn=c08_change covers=woken cost=20 | a notification and an add, modify or delete by another thread, in
//#   every schedule with a waiting thread: the notification is not lost
#[no_mangle]
pub extern "C" fn c08_change() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    let fd2 = source();
    check(fd2 == fd + 1, "model bound: descriptors are not consecutive");
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let a = vx::spawn(set_and_notify, 1);
    let b = vx::spawn(change, fd as usize);
    while FLAG.get() == 0 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(a);
    vx::join(b);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

extern "C" fn change_and_notify(fd: usize) {
    if vx::bool("first") {
        change(fd);
        set_and_notify(1);
    } else {
        set_and_notify(1);
        change(fd);
    }
}

//# fn=c08_change_two covers=woken cost=60 tier=thorough | two threads that each change a registration and
//#   notify, in either order, in every schedule with a waiting thread
#[no_mangle]
pub extern "C" fn c08_change_two() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    let _ = source();
    let fd3 = source();
    let _ = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    check(add(p, fd3, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let a = vx::spawn(change_and_notify, fd as usize);
    let b = vx::spawn(change_and_notify, fd3 as usize);
    while FLAG.get() < 2 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(a);
    vx::join(b);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_before_wait covers=woken cost=5 | notifications by two threads that are over before the wait begins
#[no_mangle]
pub extern "C" fn c08_before_wait() {
    let p = share_with_signal();
    let mut ev = events(2);
    let a = vx::spawn(set_and_notify, 1);
    let b = vx::spawn(set_and_notify, 2);
    if vx::bool("timeout") {
        check(wait(p, &mut ev, Some(MS)) == 0, "events without a source");
        check(wait(p, &mut ev, Some(MS)) == 0, "events without a source");
    }
    vx::join(a);
    vx::join(b);
    cover("woken");
    epilogue(p, &mut ev);
    finish_shared();
}

//# fn=c08_all covers=both cost=60 | a notification, a source that becomes ready and an add, modify or delete of another
//#   one by three threads, in every schedule with a fourth that waits: nothing is lost
#[no_mangle]
pub extern "C" fn c08_all() {
    let p = share();
    let mut ev = events(2);
    let fd = source();
    let fd2 = source();
    let fd3 = source();
    check(fd3 == fd2 + 1, "model bound: descriptors are not consecutive");
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    check(add(p, fd2, Event::readable(5), PollMode::Oneshot).is_ok(), "add() fails");
    let a = vx::spawn(set_and_notify, 1);
    let b = vx::spawn(source_ready, fd as usize);
    let c = vx::spawn(change, fd2 as usize);
    let mut got = 0;
    while (FLAG.get() == 0) | (got == 0) {
        let n = wait(p, &mut ev, None);
        if n > 0 {
            got += n;
            check(ev.iter().next().unwrap().key == 7, "another key");
        }
    }
    vx::join(a);
    vx::join(b);
    vx::join(c);
    check(got == 1, "a one-shot source is reported twice");
    cover("both");
    wait(p, &mut ev, ZERO);
    epilogue(p, &mut ev);
    finish_shared();
}
