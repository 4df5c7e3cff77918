#[path = "common.rs"]
mod common;
use common::*;
use vkern::sysno as sys;

const CREATION: u32 = 1 << sys::EPOLL_CREATE
    | 1 << sys::EVENTFD
    | 1 << sys::PIPE2
    | 1 << sys::PIPE
    | 1 << sys::GETFD
    | 1 << sys::SETFD
    | 1 << sys::GETFL
    | 1 << sys::SETFL
    | 1 << sys::TIMERFD_CREATE
    | 1 << sys::EPOLL_ADD;

/// What a system without these calls must not make a difference to.
const OPTIONAL: u32 = 1 << sys::EVENTFD | 1 << sys::PIPE2 | 1 << sys::TIMERFD_CREATE;

/// A poller does its job: notifications, timeouts, events, no descriptors for child processes.
fn usable(p: Poller) {
    check(vkern::inheritable() == 0, "a descriptor of the poller leaks into child processes");
    let mut ev = events(4);
    k().slept = false;
    check(p.notify().is_ok(), "notify() fails");
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");

    let t = any_timeout();
    let t0 = vkern::now_exact();
    check(wait(&p, &mut ev, Some(t)) == 0, "events without a source");
    let e = elapsed(t0);
    check(e >= cap(t), "wait() returns before its timeout");
    check(e < t + MS, "wait() returns too late");

    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    vkern::set_ready(fd, IN);
    check(wait(&p, &mut ev, None) == 1, "a ready source is not reported");
    check(delete(&p, fd).is_ok(), "delete() fails");
    check(p.notify().is_ok(), "notify() fails");
    k().slept = false;
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    finish(p);
}

fn create(faults: u32, mask: u32) {
    k().faults = faults;
    k().fault_mask = mask;
    let r = Poller::new();
    k().faults = 0;
    match r {
        Ok(p) => {
            if k().failed != 0 {
                cover("fallback");
            }
            usable(p);
        }
        Err(_) => {
            cover("error");
            check(k().failed & !OPTIONAL != 0, "Poller::new() fails where there is a fallback");
            check(vkern::open_fds() == 0, "a failed Poller::new() leaves descriptors open");
        }
    }
}

//# fn=c11_faults covers=error;fallback cost=10 | any up to 3 failures of the system calls of Poller::new(), with
//#   any error out of those the calls can report; then a notification, any timeout below 2^40 s, an event
#[no_mangle]
pub extern "C" fn c11_faults() {
    streams();
    create(3, CREATION);
}

//# fn=c11_faults_many covers=error;fallback cost=30 tier=thorough | the same with up to 6 failures
#[no_mangle]
pub extern "C" fn c11_faults_many() {
    create(6, CREATION);
}

//# fn=c11_limit covers=error;enough cost=10 | any limit on open descriptors from 0 to 6
#[no_mangle]
pub extern "C" fn c11_limit() {
    streams();
    let n = vx::below("limit", 7) as usize;
    k().limit_fd = k().first_fd + n;
    let r = Poller::new();
    k().limit_fd = vkern::NFD;
    match r {
        Ok(p) => {
            cover("enough");
            usable(p);
        }
        Err(_) => {
            cover("error");
            check(n < 4, "Poller::new() fails although there are descriptors enough");
            check(vkern::open_fds() == 0, "a failed Poller::new() leaves descriptors open");
        }
    }
}

//# fn=c11_again covers=second cost=10 | any 1 or 2 failures that make Poller::new() fail, then a second Poller::new()
//#   without: it succeeds and is usable
#[no_mangle]
pub extern "C" fn c11_again() {
    streams();
    k().faults = 2;
    k().fault_mask = CREATION;
    let r = Poller::new();
    k().faults = 0;
    if r.is_err() {
        check(vkern::open_fds() == 0, "a failed Poller::new() leaves descriptors open");
        cover("second");
        usable(poller());
    } else {
        drop(r);
        check(vkern::open_fds() == 0, "dropping the poller leaves descriptors open");
    }
}
