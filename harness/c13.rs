#[path = "common.rs"]
mod common;
use common::*;
use vkern::sysno as sys;

const FAIL: &str = "an operation fails although no system call does";

/// Any history of operations of which some system calls fail.
fn history(steps: usize, faults: u32) {
    let p = any_poller();
    let mut ev = events(4);
    let fd = source();
    let other = source();
    check(add(&p, other, Event::readable(9), PollMode::Level).is_ok(), FAIL);
    let mut reg: Option<(usize, PollMode)> = None;
    k().fault_mask = 1 << sys::EPOLL_ADD | 1 << sys::EPOLL_MOD | 1 << sys::POLL;
    k().faults = faults;
    let mut i = 0;
    while i < steps {
        i += 1;
        k().failed = 0;
        let key = 10 + i;
        match vx::below("operation", if POLL { 6 } else { 4 }) {
            4 => {
                let r = add(&p, fd, Event::readable(key), PollMode::Edge);
                check(r.is_err(), "add() accepts an unsupported mode");
            }
            5 => {
                let r = modify(&p, fd, Event::readable(key), PollMode::EdgeOneshot);
                check(r.is_err(), "modify() accepts an unsupported mode");
            }
            0 => {
                let r = add(&p, fd, Event::readable(key), PollMode::Level);
                if k().failed != 0 {
                    cover("add");
                    check(
                        r.as_ref().err().and_then(|e| e.raw_os_error()) == Some(k().last_errno),
                        "add() does not report the error of the system call",
                    );
                } else {
                    check(r.is_ok() == reg.is_none(), "add() succeeds or fails wrongly");
                    if r.is_ok() {
                        reg = Some((key, PollMode::Level));
                    }
                }
            }
            1 => {
                let r = modify(&p, fd, Event::readable(key), PollMode::Level);
                if k().failed != 0 {
                    cover("modify");
                    check(
                        r.as_ref().err().and_then(|e| e.raw_os_error()) == Some(k().last_errno),
                        "modify() does not report the error of the system call",
                    );
                } else {
                    check(r.is_ok() == reg.is_some(), "modify() succeeds or fails wrongly");
                    if r.is_ok() {
                        reg = Some((key, PollMode::Level));
                    }
                }
            }
            2 => {
                let r = delete(&p, fd);
                check(r.is_ok() == reg.is_some(), "delete() succeeds or fails wrongly");
                reg = None;
            }
            _ => {
                // Only failures of the system call that waits are realistic here.
                let m = k().fault_mask;
                k().fault_mask &= 1 << sys::POLL;
                vkern::set_ready(fd, IN);
                ev.clear();
                let r = p.wait(&mut ev, ZERO);
                k().fault_mask = m;
                if k().failed != 0 {
                    cover("wait");
                    check(
                        r.as_ref().err().and_then(|e| e.raw_os_error()) == Some(k().last_errno),
                        "wait() does not report the error of the system call",
                    );
                    check(ev.is_empty(), "a failed wait() delivers events");
                } else {
                    check(r.is_ok(), FAIL);
                    report(&ev, reg);
                }
                vkern::clear_ready(fd, IN);
            }
        }
    }
    // Whatever failed, nothing of it is left.
    k().faults = 0;
    vkern::set_ready(fd, IN);
    wait(&p, &mut ev, ZERO);
    report(&ev, reg);
    vkern::clear_ready(fd, IN);
    vkern::set_ready(other, IN);
    check(wait(&p, &mut ev, ZERO) == 1, "a failure disturbs another source");
    check(ev.iter().next().unwrap().key == 9, "a failure disturbs another source");
    vkern::clear_ready(other, IN);
    k().slept = false;
    check(p.notify().is_ok(), FAIL);
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    check(delete(&p, fd).is_ok() == reg.is_some(), "a failed operation changes what is registered");
    finish(p);
}

fn report(ev: &Events, reg: Option<(usize, PollMode)>) {
    let mut it = ev.iter();
    match reg {
        None => check(it.next().is_none(), "a failed operation registers its source"),
        Some((key, _)) => match it.next() {
            None => check(false, "a failed operation disarms its source"),
            Some(e) => {
                check(e.key == key, "a failed operation changes the registration");
                check(it.next().is_none(), "a source is reported twice");
            }
        },
    }
}

//# fn=c13_history covers=add;modify configs=epoll,pipe cost=20 | every history of 6 steps out of {add, modify,
//#   delete, wait} with up to 3 failures at any of the system calls
#[no_mangle]
pub extern "C" fn c13_history() {
    history(6, 3);
}

//# fn=c13_history_poll covers=wait configs=poll cost=20 | the same for the poll backend, also with unsupported modes
#[no_mangle]
pub extern "C" fn c13_history_poll() {
    history(6, 3);
}

//# fn=c13_history_deep cost=200 tier=thorough | 8 steps, up to 3 failures
#[no_mangle]
pub extern "C" fn c13_history_deep() {
    history(8, 3);
}

//# fn=c13_refused covers=refused configs=epoll,pipe cost=3 | descriptors the system refuses: a regular file, a closed
//#   one, any number that was never opened
#[no_mangle]
pub extern "C" fn c13_refused() {
    streams();
    let p = any_poller();
    let mut ev = events(4);
    let fd = match vx::below("descriptor", 3) {
        0 => vkern::open_source(Kind::File),
        1 => {
            let fd = source();
            vkern::close_source(fd);
            fd
        }
        _ => {
            let fd = vx::u32("number") as RawFd;
            assume(fd >= vkern::NFD as RawFd);
            fd
        }
    };
    check(add(&p, fd, any_rw(7).event(), any_mode()).is_err(), "add() of an unusable descriptor succeeds");
    check(modify(&p, fd, any_rw(8).event(), any_mode()).is_err(), "modify() of an unusable descriptor succeeds");
    check(delete(&p, fd).is_err(), "delete() of an unusable descriptor succeeds");
    check(wait(&p, &mut ev, Some(MS)) == 0, "events without a source");
    cover("refused");
    finish(p);
}

//# fn=c13_wait covers=failed configs=poll cost=5 | wait() fails once at any point, with a notification or an event
//#   pending or not: both are still there afterwards
#[no_mangle]
pub extern "C" fn c13_wait() {
    let p = any_poller();
    let mut ev = events(4);
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), FAIL);
    let ready = vx::bool("ready");
    if ready {
        vkern::set_ready(fd, IN);
    }
    k().fault_mask = 1 << sys::POLL;
    k().faults = 1;
    let t = if vx::bool("timeout") { Some(any_timeout()) } else { None };
    if t.is_none() & !ready {
        k().on_hang = Hang::Stop;
    }
    let r = p.wait(&mut ev, t);
    k().on_hang = Hang::Violation;
    k().faults = 0;
    if k().failed != 0 {
        cover("failed");
        check(r.is_err(), "wait() hides the failure of the system call");
        check(ev.is_empty(), "a failed wait() delivers events");
        check(wait(&p, &mut ev, ZERO) == ready as usize, "a failed wait() loses an event");
    } else {
        check(r.ok() == Some(ready as usize), "a ready source is not reported");
    }
    // The lock is free and the wake-up channel works.
    k().slept = false;
    check(p.notify().is_ok(), FAIL);
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    finish(p);
}

//# fn=c13_wait_epoll covers=failed configs=epoll,pipe cost=5 | any of the system calls up to the one that waits fails in wait(), with any
//#   timeout, a source ready or not and a notification pending or not: the error is returned, and both are still there afterwards
#[no_mangle]
pub extern "C" fn c13_wait_epoll() {
    let p = any_poller();
    let mut ev = events(4);
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), FAIL);
    let ready = vx::bool("ready");
    if ready {
        vkern::set_ready(fd, IN);
    }
    let notified = vx::bool("notified");
    if notified {
        check(p.notify().is_ok(), FAIL);
    }
    let t = if vx::bool("timeout") { Some(any_timeout()) } else { None };
    if t.is_none() & !ready & !notified {
        k().on_hang = Hang::Stop;
    }
    k().fault_mask = vkern::BEFORE_WAIT | 1 << sys::TIMERFD_SETTIME | 1 << sys::EPOLL_MOD | 1 << sys::EPOLL_WAIT;
    k().faults = 1;
    ev.clear();
    let r = p.wait(&mut ev, t);
    k().on_hang = Hang::Violation;
    k().faults = 0;
    if k().failed != 0 {
        cover("failed");
        check(r.is_err(), "wait() hides the failure of the system call");
        check(
            r.as_ref().err().and_then(|e| e.raw_os_error()) == Some(k().last_errno),
            "wait() does not report the error of the system call",
        );
        check(ev.is_empty(), "a failed wait() delivers events");
        k().slept = false;
        let n = wait(&p, &mut ev, Some(MS));
        check(n == ready as usize, "a failed wait() loses an event");
        check(!(ready | notified) | !k().slept, "a failed wait() loses a notification");
    } else {
        check(r.ok() == Some(ready as usize), "a ready source is not reported");
    }
    // The lock is free and the wake-up channel works.
    k().slept = false;
    check(p.notify().is_ok(), FAIL);
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    finish(p);
}
