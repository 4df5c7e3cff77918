#[path = "common.rs"]
mod common;
use common::*;

//# fn=c07_deadline covers=interrupted;twice cost=5 | any timeout below 2^40 s, up to 3 signals at any
//#   moments of the wait, nothing else happens: one timeout in all
#[no_mangle]
pub extern "C" fn c07_deadline() {
    deadline(poller(), 3);
}

//# fn=c07_deadline_fallback configs=epoll covers=interrupted;twice cost=20 | the same without timer descriptors, 1 signal
#[no_mangle]
pub extern "C" fn c07_deadline_fallback() {
    deadline(timerless(), 1);
}

fn deadline(p: Poller, signals: u32) {
    let mut ev = events(4);
    let t = any_timeout();
    k().eintrs = signals;
    let t0 = vkern::now_exact();
    let n = wait(&p, &mut ev, Some(t));
    check(n == 0, "events without a source");
    if k().eintrs < signals {
        cover("interrupted");
    }
    if k().eintrs == 0 {
        cover("twice");
    }
    let e = elapsed(t0);
    check(e >= least(t), "an interrupted wait() returns before its timeout");
    check(e < t + MS, "an interrupted wait() starts its timeout again");
    finish(p);
}

//# fn=c07_late covers=interrupted cost=5 | the same with any delays at the first 6 readings, up to 2 signals of the
//#   clock: never early
#[no_mangle]
pub extern "C" fn c07_late() {
    let p = poller();
    let mut ev = events(4);
    let t = any_timeout();
    k().eintrs = 2;
    k().jitter = 6;
    let t0 = vkern::now_exact();
    let n = wait(&p, &mut ev, Some(t));
    check(n == 0, "events without a source");
    if k().eintrs < 2 {
        cover("interrupted");
    }
    check(elapsed(t0) >= least(t), "an interrupted wait() returns before its timeout");
    finish(p);
}

//# fn=c07_event covers=event;timeout;interrupted cost=5 | any timeout below 2^40 s or none, up to 3
//#   signals, a source that becomes ready at any moment
#[no_mangle]
pub extern "C" fn c07_event() {
    event(poller(), 3);
}

//# fn=c07_event_fallback configs=epoll covers=event;timeout;interrupted cost=20 | the same without timer descriptors, 1 signal
#[no_mangle]
pub extern "C" fn c07_event_fallback() {
    event(timerless(), 1);
}

fn event(p: Poller, signals: u32) {
    let fd = source();
    let w = any_want(any_key("key"));
    let m = any_conds5("conditions");
    assume(m & w.must() != 0);
    check(add(&p, fd, w.event(), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    let t = if vx::bool("timeout") { Some(any_timeout()) } else { None };
    let a = any_timeout();
    let t0 = vkern::now_exact();
    later(0, a, fd, m);
    k().eintrs = signals;
    let n = wait(&p, &mut ev, t);
    if k().eintrs < signals {
        cover("interrupted");
    }
    let e = elapsed(t0);
    if n == 1 {
        cover("event");
        let got = ev.iter().next().unwrap();
        check(got.key == w.key, "another key");
        check_decode(&got, m & w.must(), m & w.must());
        check(e == a, "an interrupted wait() does not return when the source becomes ready");
    } else {
        cover("timeout");
        match t {
            None => check(false, "an interrupted wait() without a timeout returns without an event"),
            Some(t) => {
                check(e >= least(t), "an interrupted wait() returns before its timeout");
                check(e < t + MS, "an interrupted wait() starts its timeout again");
                check(a >= e, "a source that became ready in time is not reported");
            }
        }
    }
    finish(p);
}

//# fn=c07_stale covers=second cost=5 | a wait that delivered any event, then a wait interrupted up to 2
//#   times that times out: nothing of the first is left in the container
#[no_mangle]
pub extern "C" fn c07_stale() {
    let p = any_poller();
    let fd = source();
    let m = any_conds5("conditions");
    let w = any_want(7);
    vkern::set_ready(fd, m);
    check(add(&p, fd, w.event(), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(4);
    let n = wait(&p, &mut ev, ZERO);
    check((n == 1) == (m & w.must() != 0), "a ready source is not reported");
    if n == 1 {
        k().eintrs = 2;
        let n = wait(&p, &mut ev, Some(Duration::from_secs(1)));
        check(n == 0, "an event of an earlier wait() is delivered again");
        cover("second");
    }
    finish(p);
}

//# fn=c07_notified covers=woken cost=5 | notify() before the wait and a signal pending: the wait
//#   returns at once, whatever its timeout
#[no_mangle]
pub extern "C" fn c07_notified() {
    let p = any_poller();
    let mut ev = events(4);
    check(p.notify().is_ok(), "notify() fails");
    k().eintrs = 2;
    k().slept = false;
    let t = if vx::bool("timeout") { Some(any_timeout()) } else { None };
    let n = wait(&p, &mut ev, t);
    check(n == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    cover("woken");
    finish(p);
}

static DONE: Cell = Cell::new();

extern "C" fn notifier(_: usize) {
    DONE.set(1);
    mt_notify();
}

//# fn=c07_race covers=woken cost=10 | every schedule of wait() against notify() with up to 2 signals:
//#   the notification is not lost
#[no_mangle]
pub extern "C" fn c07_race() {
    let p = share_with_signal();
    let mut ev = events(2);
    k().eintrs = 2;
    let t = vx::spawn(notifier, 0);
    while DONE.get() == 0 {
        check(wait(p, &mut ev, None) == 0, "events without a source");
    }
    vx::join(t);
    cover("woken");
    finish_shared();
}

extern "C" fn activity(fd: usize) {
    vx::sched(90);
    vkern::set_ready(fd as RawFd, IN);
}

//# fn=c07_race_event covers=event cost=10 | every schedule of wait() against a source that becomes
//#   ready with up to 2 signals: exactly one event
#[no_mangle]
pub extern "C" fn c07_race_event() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    check(add(p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), "add() fails");
    k().eintrs = 2;
    let t = vx::spawn(activity, fd as usize);
    while wait(p, &mut ev, None) == 0 {}
    check(ev.iter().next().unwrap().key == 7, "another key");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported again");
    cover("event");
    finish_shared();
}
