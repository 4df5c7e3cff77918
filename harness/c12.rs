#[path = "common.rs"]
mod common;
use common::*;
use vkern::sysno as sys;

fn still_open(fd: RawFd) {
    check(
        vkern::get(fd).map_or(false, |f| f.kind == Kind::Source),
        "dropping the poller closes a source of the user",
    );
}

/// Any history, then drop.
fn history(steps: usize) {
    let fallback = vx::bool("fallback");
    if fallback {
        k().faults = 3;
        k().fault_mask = 1 << sys::EVENTFD | 1 << sys::PIPE2 | 1 << sys::TIMERFD_CREATE;
    }
    let p = poller();
    k().faults = 0;
    let mut ev = events(2);
    let (a, b) = (source(), source());
    let mut i = 0;
    while i < steps {
        i += 1;
        match vx::below("operation", 6) {
            0 => ignore(add(&p, a, Event::all(1), any_mode())),
            1 => ignore(add(&p, b, Event::readable(2), any_mode())),
            2 => ignore(delete(&p, a)),
            3 => ignore(p.notify()),
            4 => {
                vkern::set_ready(a, IN);
                vkern::set_ready(b, IN);
            }
            _ => ignore(wait(&p, &mut ev, Some(MS))),
        }
    }
    drop(p);
    check(vkern::open_fds() == 0, "dropping the poller leaves descriptors open");
    still_open(a);
    still_open(b);
    cover("dropped");
    // The sources can be used with another poller.
    let q = poller();
    vkern::set_ready(a, IN);
    check(add(&q, a, Event::readable(3), PollMode::Oneshot).is_ok(), "add() to another poller fails");
    check(wait(&q, &mut ev, ZERO) == 1, "a source of a dropped poller cannot be used any more");
    finish(q);
}

//# fn=c12_history covers=dropped cost=30 | every history of 4 steps out of {add, add, delete, notify, sources
//#   ready, wait} with any modes, on the usual and the fallback notifier and timer, then drop
#[no_mangle]
pub extern "C" fn c12_history() {
    history(4);
}

//# fn=c12_history_deep covers=dropped cost=200 tier=thorough | the same with 6 steps
#[no_mangle]
pub extern "C" fn c12_history_deep() {
    history(6);
}

//# fn=c12_two covers=dropped cost=5 | two pollers with the same source, dropped in either order: the other one
//#   keeps working
#[no_mangle]
pub extern "C" fn c12_two() {
    streams();
    let p = poller();
    let q = poller();
    let fd = source();
    check(add(&p, fd, Event::readable(1), PollMode::Level).is_ok(), "add() fails");
    check(add(&q, fd, Event::readable(2), PollMode::Level).is_ok(), "add() fails");
    vkern::set_ready(fd, IN);
    let (dead, live) = if vx::bool("first") { (p, q) } else { (q, p) };
    let mut ev = events(2);
    let n = vkern::open_fds();
    drop(dead);
    check(vkern::open_fds() * 2 == n, "dropping a poller closes descriptors of another one");
    check(wait(&live, &mut ev, ZERO) == 1, "dropping a poller disturbs another one");
    check(live.notify().is_ok(), "notify() fails");
    k().slept = false;
    wait(&live, &mut ev, None);
    check(!k().slept, "dropping a poller disturbs another one");
    finish(live);
    cover("dropped");
}

//# fn=c12_closed covers=dropped cost=5 | the user closes a registered source before the poller is dropped
#[no_mangle]
pub extern "C" fn c12_closed() {
    streams();
    let p = poller();
    let fd = source();
    let keep = source();
    check(add(&p, fd, Event::readable(1), PollMode::Oneshot).is_ok(), "add() fails");
    check(delete(&p, fd).is_ok(), "delete() fails");
    vkern::close_source(fd);
    check(add(&p, keep, Event::readable(2), PollMode::Oneshot).is_ok(), "add() fails");
    if vx::bool("notify") {
        check(p.notify().is_ok(), "notify() fails");
    }
    finish(p);
    still_open(keep);
    cover("dropped");
}

extern "C" fn user(_: usize) {
    mt_notify();
    let mut ev = events(1);
    wait(shared(), &mut ev, ZERO);
}

//# fn=c12_threads covers=dropped cost=5 | dropped after two threads used it, in every schedule
#[no_mangle]
pub extern "C" fn c12_threads() {
    share();
    let t = vx::spawn(user, 0);
    let u = vx::spawn(user, 0);
    vx::join(t);
    vx::join(u);
    finish_shared();
    cover("dropped");
}

//# fn=c12_many covers=dropped | five sources of which any are registered, in any mode, reported before or not: the drop closes none
#[no_mangle]
pub extern "C" fn c12_many() {
    let p = any_poller();
    let mut fds = [0; 5];
    let mode = any_mode();
    for (i, fd) in fds.iter_mut().enumerate() {
        *fd = source();
        if vx::bool("registered") {
            check(add(&p, *fd, Event::readable(i), mode).is_ok(), "add() fails");
        }
    }
    if vx::bool("reported") {
        vkern::set_ready(fds[0], IN);
        vkern::set_ready(fds[3], IN);
        wait(&p, &mut events(4), ZERO);
    }
    release(p);
    for fd in fds {
        still_open(fd);
    }
    cover("dropped");
    let q = poller();
    check(add(&q, fds[4], Event::readable(3), PollMode::Oneshot).is_ok(), "add() to another poller fails");
    finish(q);
}
