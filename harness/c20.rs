#[path = "common.rs"]
mod common;
use common::*;

/// More than fit into any small table.
const MANY: usize = 70;

static mut TABLE: [u16; 301] = [0; 301];

/// A number below `n`, a different one in each path from here on.
fn pick(name: &str, n: usize) -> usize {
    check(n <= 301, "model bound: too many choices");
    let v = vx::u32(name);
    assume(v < n as u32);
    unsafe {
        let mut i = 0;
        while i < n {
            core::ptr::write_volatile(&mut TABLE[i], i as u16);
            i += 1;
        }
        core::ptr::read_volatile(&TABLE[v as usize]) as usize
    }
}

fn sources() -> [RawFd; MANY] {
    let mut fds = [-1; MANY];
    let mut i = 0;
    while i < MANY {
        fds[i] = source();
        i += 1;
    }
    fds
}

/// Every source that is to be reported is, once, with its key, and nothing else.
fn expect(ev: &Events, want: &[bool; MANY], key: &[usize; MANY]) {
    let mut seen = [false; MANY];
    for e in ev.iter() {
        let i = e.key % 1000;
        check(i < MANY, "an event with a key that was never registered");
        if i < MANY {
            check(!seen[i], "a source is reported twice by one wait()");
            check(e.key == key[i], "a source is reported with another key");
            check(want[i], "a source is reported that is not ready or not registered");
            check(e.readable & !e.writable, "a source is reported wrongly");
            seen[i] = true;
        }
    }
    let mut i = 0;
    while i < MANY {
        check(seen[i] == want[i], "a ready source is not reported");
        i += 1;
    }
}

//# fn=c20_sources covers=done configs=epoll-big,poll-big cost=20 | 70 sources, any one of which is deleted, another
//#   one given another key and another one not ready; then two waits
#[no_mangle]
pub extern "C" fn c20_sources() {
    let p = poller();
    let fds = sources();
    let mut want = [true; MANY];
    let mut key = [0; MANY];
    let mut i = 0;
    while i < MANY {
        key[i] = i;
        check(add(&p, fds[i], Event::readable(i), PollMode::Oneshot).is_ok(), "add() fails");
        i += 1;
    }
    let gone = pick("deleted", MANY);
    let named = (gone + 1 + pick("renamed", 2) * 23) % MANY;
    let cold = (named + 1 + pick("not ready", 2) * 29) % MANY;
    check(delete(&p, fds[gone]).is_ok(), "delete() of a registered source fails");
    want[gone] = false;
    if named != gone {
        key[named] = named + 1000;
        let r = modify(&p, fds[named], Event::readable(named + 1000), PollMode::Oneshot);
        check(r.is_ok(), "modify() of a registered source fails");
    }
    want[cold] = false;
    let mut i = 0;
    while i < MANY {
        if i != cold {
            vkern::set_ready(fds[i], IN);
        }
        i += 1;
    }
    let mut ev = events(MANY);
    wait(&p, &mut ev, None);
    expect(&ev, &want, &key);
    check(wait(&p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    cover("done");
    ignore(p);
}

//# fn=c20_batches covers=done configs=epoll-big cost=10 | 70 ready sources and a container with any room from 1 to 70:
//#   as many waits as needed deliver each exactly once
#[no_mangle]
pub extern "C" fn c20_batches() {
    let p = poller();
    let fds = sources();
    let mut i = 0;
    while i < MANY {
        vkern::set_ready(fds[i], IN);
        check(add(&p, fds[i], Event::readable(i), PollMode::Oneshot).is_ok(), "add() fails");
        i += 1;
    }
    let room = 1 + pick("room", MANY);
    let mut ev = events(room);
    let mut seen = [false; MANY];
    let mut total = 0;
    while total < MANY {
        let n = wait(&p, &mut ev, ZERO);
        check(n > 0, "ready sources that did not fit are not delivered");
        check(n <= room, "more events than the container has room for");
        for e in ev.iter() {
            check(e.key < MANY && !seen[e.key], "a one-shot source is reported twice");
            seen[e.key] = true;
        }
        total += n;
        if n == 0 {
            return;
        }
    }
    check(wait(&p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    cover("done");
    ignore(p);
}

//# fn=c20_signals covers=event;timeout cost=10 | any number of signals up to 300 during a wait with any timeout, a
//#   source that becomes ready at any moment or never
#[no_mangle]
pub extern "C" fn c20_signals() {
    let p = poller();
    let fd = source();
    check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    k().eintrs = pick("signals", 301) as u32;
    k().storm = 4_000_000;
    let ready = vx::bool("ready");
    if ready {
        later(0, Duration::from_millis(1500), fd, IN);
    }
    let t0 = vkern::now_exact();
    let n = wait(&p, &mut ev, Some(Duration::from_secs(2)));
    k().eintrs = 0;
    k().storm = 0;
    check(n == ready as usize, "signals make wait() report nothing or something else");
    let e = elapsed(t0);
    if ready {
        cover("event");
        check(e == Duration::from_millis(1500), "a wait() does not end when its source becomes ready");
    } else {
        cover("timeout");
        check(e >= Duration::from_secs(2), "an interrupted wait() returns before its timeout");
        check(e < Duration::from_secs(2) + MS, "an interrupted wait() starts its timeout again");
    }
    finish(p);
}

//# fn=c20_notifications covers=woken cost=10 | any number of notifications from 1 to 300, then a wait: one wait and
//#   only one is ended by them
#[no_mangle]
pub extern "C" fn c20_notifications() {
    let p = any_poller();
    let n = 1 + pick("notifications", 300);
    let mut i = 0;
    while i < n {
        check(p.notify().is_ok(), "notify() fails");
        i += 1;
    }
    let mut ev = events(4);
    k().slept = false;
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    cover("woken");
    idle(&p, &mut ev);
    ignore(p);
}

//# fn=c20_cycles covers=done cost=10 | 300 rounds of notification, re-armed source, delivery, time-out and change of
//#   another source; in round 0, 1, 127, 128, 255 or 299 they begin with any of them
#[no_mangle]
pub extern "C" fn c20_cycles() {
    let p = any_poller();
    let fd = source();
    let other = source();
    check(add(&p, fd, Event::none(0), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    let odd = [0, 1, 127, 128, 255, 299][pick("round", 6)];
    let mut i = 0;
    while i < 300 {
        let first = if i == odd { pick("first", 4) } else { 0 };
        let mut j = 0;
        while j < 4 {
            match (first + j) % 4 {
                0 => {
                    check(p.notify().is_ok(), "notify() fails");
                    k().slept = false;
                    check(wait(&p, &mut ev, None) == 0, "events without a source");
                    check(!k().slept, "wait() sleeps although a notification is pending");
                }
                1 => {
                    vkern::set_ready(fd, IN);
                    let r = modify(&p, fd, Event::readable(i as usize), PollMode::Oneshot);
                    check(r.is_ok(), "modify() of a registered source fails");
                    check(wait(&p, &mut ev, None) == 1, "a ready source is not reported");
                    let e = ev.iter().next().unwrap();
                    check(e.key == i as usize, "a source is reported with another key");
                }
                2 => {
                    k().slept = false;
                    check(wait(&p, &mut ev, Some(MS)) == 0, "a one-shot source is reported twice");
                    check(k().slept, "wait() does not sleep although nothing is ready or pending");
                }
                _ => {
                    let r = add(&p, other, Event::readable(1000), PollMode::Level);
                    check(r.is_ok(), "add() of a source that is not registered fails");
                    check(delete(&p, other).is_ok(), "delete() of a registered source fails");
                }
            }
            j += 1;
        }
        i += 1;
    }
    cover("done");
    finish(p);
}

const THOUSAND: usize = 1100;

//# fn=c20_thousand covers=done configs=epoll-huge,poll-huge cost=30 | 1100 ready sources and a container of default
//#   size, with a notification pending or not: each is delivered exactly once by the next waits
#[no_mangle]
pub extern "C" fn c20_thousand() {
    let p = poller();
    let mut fds = [-1; THOUSAND];
    let mut i = 0;
    while i < THOUSAND {
        fds[i] = source();
        vkern::set_ready(fds[i], IN);
        check(add(&p, fds[i], Event::readable(i), PollMode::Oneshot).is_ok(), "add() fails");
        i += 1;
    }
    let mut notified = vx::bool("notified");
    if notified {
        check(p.notify().is_ok(), "notify() fails");
    }
    let mut ev = Events::new();
    let mut seen = [false; THOUSAND];
    let mut total = 0;
    while total < THOUSAND {
        let n = wait(&p, &mut ev, ZERO);
        if POLL & notified {
            // A notification may end a wait before it looks at the sources.
            notified = false;
            if n == 0 {
                continue;
            }
        }
        check(n > 0, "ready sources that did not fit are not delivered");
        check(POLL | (n <= 1024), "more events than the container has room for");
        for e in ev.iter() {
            check(e.key < THOUSAND && !seen[e.key], "a one-shot source is reported twice");
            seen[e.key] = true;
        }
        total += n;
        if n == 0 {
            return;
        }
    }
    wait(&p, &mut ev, ZERO);
    idle(&p, &mut ev);
    let mut i = 0;
    while i < THOUSAND {
        check(delete(&p, fds[i]).is_ok(), "delete() of a registered source fails");
        i += 1;
    }
    cover("done");
    ignore(p);
}
