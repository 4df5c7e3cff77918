#[path = "common.rs"]
mod common;
use common::*;

const N: usize = 3;

/// Three sources of which any are ready; keys 10, 11, 12.
fn three(p: &Poller, mode: PollMode) -> ([RawFd; N], u32) {
    let mut fds = [0; N];
    let mut ready = 0;
    let mut i = 0;
    while i < N {
        fds[i] = source();
        if vx::bool("ready") {
            vkern::set_ready(fds[i], IN);
            ready |= 1 << i;
        }
        check(add(p, fds[i], Event::readable(10 + i), mode).is_ok(), "add() fails");
        i += 1;
    }
    (fds, ready)
}

fn mark(ev: &Events, seen: &mut u32, once: bool) {
    for e in ev.iter() {
        check((e.key >= 10) & (e.key < 10 + N), "an event with a key nobody used");
        let b = 1 << (e.key - 10);
        check(!once | (*seen & b == 0), "a source is reported twice");
        *seen |= b;
    }
}

//# fn=c15_batches covers=full;batches configs=epoll,pipe cost=10 | three one-shot or edge-triggered sources of which any are
//#   ready, a container for 1, 2 or 3 events: never more than fit, every event in one of the next waits, each
//#   exactly once
#[no_mangle]
pub extern "C" fn c15_batches() {
    streams();
    let p = any_poller();
    let c = 1 + vx::below("capacity", 3) as usize;
    let mut ev = events(c);
    let mode = if vx::bool("edge") { PollMode::Edge } else { PollMode::Oneshot };
    let (_, ready) = three(&p, mode);
    let mut seen = 0;
    let mut i = 0;
    while i <= N {
        let n = wait(&p, &mut ev, ZERO);
        check(n <= c, "more events than the container has room for");
        check((n > 0) | (seen == ready), "a ready source is not reported");
        mark(&ev, &mut seen, true);
        if n == c {
            cover("full");
        }
        if (i > 0) & (n > 0) {
            cover("batches");
        }
        i += 1;
    }
    check(seen == ready, "an event is lost");
    check(ev.capacity().get() == c, "the capacity changes");
    finish(p);
}

//# fn=c15_batches_poll covers=all configs=poll cost=10 | the same on the poll backend, which makes room
#[no_mangle]
pub extern "C" fn c15_batches_poll() {
    let p = any_poller();
    let c = 1 + vx::below("capacity", 3) as usize;
    let mut ev = events(c);
    check(ev.capacity().get() >= c, "the capacity is smaller than requested");
    let (_, ready) = three(&p, PollMode::Oneshot);
    let mut seen = 0;
    let mut i = 0;
    while i <= N {
        let n = wait(&p, &mut ev, ZERO);
        check((n > 0) | (seen == ready), "a ready source is not reported");
        check(n <= ev.capacity().get(), "more events than the container has room for");
        mark(&ev, &mut seen, true);
        i += 1;
    }
    check(seen == ready, "an event is lost");
    cover("all");
    finish(p);
}

//# fn=c15_notified covers=all cost=10 | the same with a notification pending and waits without a timeout: none
//#   sleeps until everything is delivered, and the notification takes up no place in the count
#[no_mangle]
pub extern "C" fn c15_notified() {
    let p = any_poller();
    let c = 1 + vx::below("capacity", 3) as usize;
    let mut ev = events(c);
    let (_, ready) = three(&p, PollMode::Oneshot);
    check(p.notify().is_ok(), "notify() fails");
    // The first wait consumes the notification, whatever else it finds.
    let mut seen = 0;
    k().slept = false;
    let n = wait(&p, &mut ev, None);
    check(!k().slept, "wait() sleeps although there is something to report");
    check(POLL | (n <= c), "more events than the container has room for");
    mark(&ev, &mut seen, true);
    while seen != ready {
        k().slept = false;
        let n = wait(&p, &mut ev, None);
        check(!k().slept, "wait() sleeps although there is something to report");
        check(n > 0, "a notification wakes up more than one wait()");
        check(POLL | (n <= c), "more events than the container has room for");
        mark(&ev, &mut seen, true);
    }
    cover("all");
    k().slept = false;
    check(wait(&p, &mut ev, Some(MS)) == 0, "an event without a source");
    check(k().slept, "a notification wakes up more than one wait()");
    finish(p);
}

//# fn=c15_timer covers=all configs=epoll,pipe cost=5 | three ready sources, a container for one event and a timeout that the
//#   kernel's timer reaches: neither the events nor the time-out are lost
#[no_mangle]
pub extern "C" fn c15_timer() {
    let p = any_poller();
    let mut ev = events(1);
    let (_, ready) = three(&p, PollMode::Oneshot);
    let t = any_timeout();
    let mut seen = 0;
    while seen != ready {
        k().slept = false;
        check(wait(&p, &mut ev, Some(t)) == 1, "a ready source is not reported");
        check(!k().slept, "wait() sleeps although a source is ready");
        mark(&ev, &mut seen, true);
    }
    let t0 = vkern::now_exact();
    check(wait(&p, &mut ev, Some(t)) == 0, "an event without a source");
    let e = elapsed(t0);
    check((e >= least(t)) & (e < t + MS), "wait() does not last as long as its timeout");
    cover("all");
    finish(p);
}

//# fn=c15_container covers=empty;filled cost=5 | the container itself: length, iteration, emptiness and capacity
//#   agree before and after any wait and after clear()
#[no_mangle]
pub extern "C" fn c15_container() {
    let p = any_poller();
    let c = 1 + vx::below("capacity", 4) as usize;
    let mut ev = events(c);
    check(ev.is_empty() & (ev.len() == 0), "a new container is not empty");
    check(ev.iter().next().is_none(), "a new container is not empty");
    check(ev.capacity().get() >= c, "the capacity is smaller than requested");
    let (_, ready) = three(&p, PollMode::Level);
    if vx::bool("notify") {
        check(p.notify().is_ok(), "notify() fails");
    }
    let n = wait(&p, &mut ev, ZERO);
    check(ev.len() == n, "len() differs from the number of events");
    check(ev.is_empty() == (n == 0), "is_empty() contradicts len()");
    check(ev.capacity().get() >= n, "more events than the container has room for");
    let mut seen = 0;
    mark(&ev, &mut seen, true);
    let mut again = 0;
    mark(&ev, &mut again, true);
    check(seen == again, "a second iteration shows other events");
    check(seen & !ready == 0, "a source is reported that is not ready");
    if n > 0 {
        cover("filled");
    } else {
        cover("empty");
    }
    ev.clear();
    check(ev.is_empty() & (ev.len() == 0), "a cleared container is not empty");
    check(ev.iter().next().is_none(), "a cleared container is not empty");
    check(ev.capacity().get() >= c, "clear() shrinks the container");
    finish(p);
}

//# fn=c15_new covers=default cost=3 | the default container has room for 1024 events
#[no_mangle]
pub extern "C" fn c15_new() {
    let ev = Events::new();
    check(ev.capacity().get() >= 1024, "the default capacity is too small");
    check(ev.is_empty(), "a new container is not empty");
    let d = Events::default();
    check(d.capacity() == ev.capacity(), "default() differs from new()");
    cover("default");
}

//# fn=c15_reuse covers=second cost=5 | one container cleared and used again, with another poller too: it shows the
//#   events of the last wait only
#[no_mangle]
pub extern "C" fn c15_reuse() {
    let p = any_poller();
    let q = any_poller();
    let mut ev = events(4);
    let (_, ready) = three(&p, PollMode::Level);
    let fd = source();
    vkern::set_ready(fd, IN);
    check(add(&q, fd, Event::readable(20), PollMode::Level).is_ok(), "add() fails");
    let n = wait(&p, &mut ev, ZERO);
    check((n == 0) == (ready == 0), "a ready source is not reported");
    check(wait(&q, &mut ev, ZERO) == 1, "events of an earlier wait() are delivered again");
    check(ev.iter().next().unwrap().key == 20, "another key");
    cover("second");
    drop(q);
    finish(p);
}
