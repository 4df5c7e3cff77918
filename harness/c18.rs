#[path = "common.rs"]
mod common;
use common::*;

static FLAG: Cell = Cell::new();

fn own(p: &Poller) -> RawFd {
    let fd = p.as_raw_fd();
    check(p.as_fd().as_raw_fd() == fd, "as_fd() and as_raw_fd() differ");
    fd
}

/// Whether the poller's own descriptor is readable.
fn readable(p: &Poller) -> bool {
    vkern::ready(own(p)) & IN != 0
}

//# fn=c18_events covers=ready;idle configs=epoll,pipe cost=10 | one source with any interest and mode in any conditions,
//#   registered before or after: the poller's own descriptor is readable exactly if a wait would return
//#   something, and no longer once it was taken
#[no_mangle]
pub extern "C" fn c18_events() {
    streams();
    let p = any_poller();
    check(!readable(&p), "the descriptor of a new poller is readable");
    let fd = source();
    let w = any_want(7);
    let m = any_conds("conditions");
    let mode = any_mode();
    let first = vx::bool("ready first");
    if first {
        vkern::set_ready(fd, m);
    }
    check(add(&p, fd, w.event(), mode).is_ok(), "add() fails");
    if !first {
        vkern::set_ready(fd, m);
    }
    let r = readable(&p);
    check(r | (m & w.must() == 0), "the poller's descriptor is not readable although an event is pending");
    check(!r | (m & w.may() != 0), "the poller's descriptor is readable although nothing is pending");
    let mut ev = events(4);
    let n = wait(&p, &mut ev, ZERO);
    check((n == 1) == r, "the poller's descriptor is readable although wait() finds nothing, or the other way round");
    if r {
        cover("ready");
        let again = readable(&p);
        check(again == (mode == PollMode::Level), "a delivered event keeps the poller's descriptor readable");
    } else {
        cover("idle");
    }
    check(delete(&p, fd).is_ok(), "delete() fails");
    check(!readable(&p), "a deleted source keeps the poller's descriptor readable");
    finish(p);
}

//# fn=c18_notify covers=woken configs=epoll,pipe cost=5 | a notification makes the poller's own descriptor readable until the
//#   next wait, also after a wait with any timeout
#[no_mangle]
pub extern "C" fn c18_notify() {
    streams();
    let p = any_poller();
    let mut ev = events(4);
    if vx::bool("wait before") {
        check(wait(&p, &mut ev, Some(any_timeout())) == 0, "events without a source");
        check(!readable(&p), "an expired timeout keeps the poller's descriptor readable");
    }
    check(p.notify().is_ok(), "notify() fails");
    check(readable(&p), "a notification does not show on the poller's descriptor");
    check(wait(&p, &mut ev, ZERO) == 0, "events without a source");
    check(!readable(&p), "a consumed notification keeps the poller's descriptor readable");
    check(p.notify().is_ok(), "notify() fails");
    check(readable(&p), "a notification does not show on the poller's descriptor");
    cover("woken");
    finish(p);
}

//# fn=c18_full covers=more;none configs=epoll,pipe cost=5 | two sources of which any are ready, a notification or not, a
//#   container for one event: after each wait the poller's own descriptor is readable exactly while something is left
#[no_mangle]
pub extern "C" fn c18_full() {
    let p = any_poller();
    let mut ev = events(1);
    let fds = [source(), source()];
    let mut left = 0;
    for (i, fd) in fds.iter().enumerate() {
        check(add(&p, *fd, Event::readable(i), PollMode::Oneshot).is_ok(), "add() fails");
        if vx::bool("ready") {
            vkern::set_ready(*fd, IN);
            left += 1;
        }
    }
    let mut note = vx::bool("notify");
    if note {
        check(p.notify().is_ok(), "notify() fails");
    }
    for _ in 0..3 {
        check(readable(&p) == (note | (left > 0)), "the poller's descriptor does not tell whether something is left");
        left -= wait(&p, &mut ev, ZERO);
        note = false;
        if left > 0 {
            cover("more");
        } else {
            cover("none");
        }
    }
    finish(p);
}

//# fn=c18_nested covers=nested configs=epoll,pipe cost=10 | a poller registered in another one: the outer reports it when the inner
//#   has any event or notification, with its key, and nothing otherwise
#[no_mangle]
pub extern "C" fn c18_nested() {
    streams();
    let inner = any_poller();
    let outer = any_poller();
    let fd = source();
    let key = any_key("key");
    check(add(&inner, fd, Event::readable(7), PollMode::Level).is_ok(), "add() fails");
    check(add(&outer, own(&inner), Event::readable(key), PollMode::Level).is_ok(), "add() fails");
    let mut ev = events(4);
    check(wait(&outer, &mut ev, ZERO) == 0, "an idle inner poller is reported");
    let note = vx::bool("notify");
    let event = vx::bool("event");
    if note {
        check(inner.notify().is_ok(), "notify() fails");
    }
    if event {
        vkern::set_ready(fd, IN);
    }
    let n = wait(&outer, &mut ev, ZERO);
    check((n == 1) == (note | event), "the outer poller reports the inner one wrongly");
    if n == 1 {
        let e = ev.iter().next().unwrap();
        check((e.key == key) & e.readable, "the inner poller is reported wrongly");
        cover("nested");
    }
    let n = wait(&inner, &mut ev, ZERO);
    check((n == 1) == event, "the inner poller loses an event");
    vkern::clear_ready(fd, IN);
    check(wait(&outer, &mut ev, ZERO) == 0, "an idle inner poller is reported");
    check(delete(&outer, own(&inner)).is_ok(), "delete() fails");
    finish2(inner, outer);
}

fn finish2(a: Poller, b: Poller) {
    drop(a);
    finish(b);
}

fn history(steps: usize) {
    let p = any_poller();
    let mut ev = events(4);
    let fd = source();
    let fd2 = source();
    let fds = [fd, fd2];
    let mut reg = [false; 2];
    let mut armed = [false; 2];
    let mut ready = [false; 2];
    let mut level = [false; 2];
    let mut note = false;
    let mut i = 0;
    while i < steps {
        i += 1;
        let op = vx::below("op", 6);
        let x = if op >= 1 && op <= 4 { vx::below("source", 2) as usize } else { 0 };
        match op {
            0 => {
                check(p.notify().is_ok(), "notify() fails although no system call does");
                note = true;
            }
            1 => {
                if ready[x] {
                    vkern::clear_ready(fds[x], IN);
                } else {
                    vkern::set_ready(fds[x], IN);
                }
                ready[x] = !ready[x];
            }
            2 | 3 => {
                let m = if op == 2 { PollMode::Oneshot } else { PollMode::Level };
                let r = if reg[x] {
                    modify(&p, fds[x], Event::readable(x), m)
                } else {
                    add(&p, fds[x], Event::readable(x), m)
                };
                check(r.is_ok(), "an operation fails although no system call does");
                reg[x] = true;
                armed[x] = true;
                level[x] = op == 3;
            }
            4 => {
                assume(reg[x]);
                check(delete(&p, fds[x]).is_ok(), "delete() fails");
                reg[x] = false;
                armed[x] = false;
            }
            _ => {
                let n = wait(&p, &mut ev, ZERO);
                check(
                    n == (armed[0] & ready[0]) as usize + (armed[1] & ready[1]) as usize,
                    "wait() delivers something else than the ready sources",
                );
                note = false;
                for x in 0..2 {
                    armed[x] &= level[x] | !ready[x];
                }
                cover("waited");
            }
        }
        let pending = note | (armed[0] & ready[0]) | (armed[1] & ready[1]);
        check(readable(&p) == pending, "the poller's descriptor does not tell whether something is left");
        if pending {
            cover("pending");
        }
    }
    finish(p);
}

//# fn=c18_history covers=waited;pending configs=epoll,pipe cost=30 | every history of 5 steps out of {notify, a source
//#   becomes ready or not ready, register one-shot or level, delete, wait} with two sources: after every step the
//#   poller's own descriptor is readable exactly if something is pending
#[no_mangle]
pub extern "C" fn c18_history() {
    history(5);
}

//# fn=c18_history_deep covers=waited;pending configs=epoll,pipe cost=300 tier=thorough | the same with 7 steps
#[no_mangle]
pub extern "C" fn c18_history_deep() {
    history(7);
}

static mut INNER: Option<Poller> = None;

extern "C" fn rouse(fd: usize) {
    let inner = unsafe { INNER.as_ref().unwrap() };
    match vx::below("what", 3) {
        0 => check(inner.notify().is_ok(), "notify() fails"),
        1 => {
            check(add(inner, fd as RawFd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
            vx::sched(90);
            vkern::set_ready(fd as RawFd, IN);
        }
        _ => {
            vkern::set_ready(fd as RawFd, IN);
            check(add(inner, fd as RawFd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
        }
    }
    FLAG.set(1);
}

//# fn=c18_wakes covers=woken configs=epoll,pipe cost=10 | a poller registered in another one on which a thread waits, in every
//#   schedule with a thread that notifies the inner one or gives it a ready source: the wait ends
#[no_mangle]
pub extern "C" fn c18_wakes() {
    let outer = share_with_signal();
    unsafe { INNER = Some(poller()) };
    let inner = unsafe { INNER.as_ref().unwrap() };
    let fd = source();
    check(add(outer, own(inner), Event::readable(9), PollMode::Level).is_ok(), "add() fails");
    let mut ev = events(2);
    if vx::bool("wait before") {
        check(wait(inner, &mut ev, Some(MS)) == 0, "events without a source");
    }
    let t = vx::spawn(rouse, fd as usize);
    check(wait(outer, &mut ev, None) == 1, "wait() returns without an event");
    check(ev.iter().next().unwrap().key == 9, "another key");
    cover("woken");
    vx::join(t);
    wait(inner, &mut ev, ZERO);
    check(wait(outer, &mut ev, ZERO) == 0, "an idle inner poller is reported");
    check(delete(outer, own(inner)).is_ok(), "delete() fails");
    drop(unsafe { INNER.take() });
    finish_shared();
}
