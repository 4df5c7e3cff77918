#[path = "common.rs"]
mod common;
use common::*;

/// What is left in the wake-up channel.
fn left() -> u64 {
    let mut n = vkern::pipe_fill() as u64;
    let mut i = 0;
    while i < k().nevs as usize {
        n += k().evs[i];
        i += 1;
    }
    n
}

//# fn=c14_many covers=many cost=5 | 6 notifications in a row into a channel that holds a single one: no call
//#   fails or blocks, one wait() consumes them all
#[no_mangle]
pub extern "C" fn c14_many() {
    let p = any_poller();
    k().pipe_cap = 1;
    let mut i = 0;
    while i < 6 {
        check(p.notify().is_ok(), "notify() fails");
        i += 1;
    }
    let mut ev = events(2);
    k().slept = false;
    check(wait(&p, &mut ev, None) == 0, "events without a source");
    check(!k().slept, "wait() sleeps although a notification is pending");
    check(wait(&p, &mut ev, Some(MS)) == 0, "events without a source");
    check(k().slept, "several notifications wake up more than one wait()");
    check(left() == 0, "notifications pile up in the wake-up channel");
    cover("many");
    finish(p);
}

fn history(steps: usize) {
    let p = any_poller();
    // One notification and one operation in progress have to fit.
    k().pipe_cap = 2;
    let mut ev = events(2);
    let fd = source();
    let mut reg = false;
    let mut i = 0;
    while i < steps {
        i += 1;
        match vx::below("operation", 5) {
            0 => check(p.notify().is_ok(), "notify() fails"),
            1 => {
                let r = if reg { delete(&p, fd) } else { add(&p, fd, Event::readable(7), PollMode::Level) };
                check(r.is_ok(), "an operation fails although no system call does");
                reg = !reg;
            }
            2 => {
                let r = modify(&p, fd, Event::writable(8), PollMode::Oneshot);
                check(r.is_ok() == reg, "modify() succeeds or fails wrongly");
            }
            x => {
                check(wait(&p, &mut ev, if x == 3 { ZERO } else { Some(MS) }) == 0, "an event without a source");
                check(left() == 0, "notifications pile up in the wake-up channel");
                cover("emptied");
            }
        }
        check(left() <= 1, "notifications pile up in the wake-up channel");
    }
    finish(p);
}

//# fn=c14_history covers=emptied cost=10 | every history of 8 steps out of {notify, add/delete, modify, wait
//#   with timeout zero, with a timeout}: after every step at most one wake-up is left in the channel, after every
//#   wait none (so none ever accumulate)
#[no_mangle]
pub extern "C" fn c14_history() {
    history(8);
}

//# fn=c14_history_deep covers=emptied cost=200 tier=thorough | the same with 11 steps
#[no_mangle]
pub extern "C" fn c14_history_deep() {
    history(11);
}

extern "C" fn notify_twice(_: usize) {
    mt_notify();
    mt_notify();
}

fn threads(ops: bool) {
    let p = share_with_signal();
    k().pipe_cap = 4;
    let mut ev = events(2);
    let fd = source();
    let t = vx::spawn(notify_twice, 0);
    let u = if ops { vx::spawn(operate, fd as usize) } else { vx::spawn(notify_twice, 0) };
    let mut i = 0;
    while i < 2 {
        check(wait(p, &mut ev, Some(MS)) == 0, "an event without a source");
        i += 1;
    }
    vx::join(t);
    vx::join(u);
    check(wait(p, &mut ev, ZERO) == 0, "an event without a source");
    check(wait(p, &mut ev, ZERO) == 0, "an event without a source");
    check(left() == 0, "notifications pile up in the wake-up channel");
    cover("empty");
    finish_shared();
}

//# fn=c14_threads covers=empty cost=30 | two threads notify twice each while a third calls wait() twice, with
//#   room for 4 wake-ups: nobody blocks, two more waits empty the channel
#[no_mangle]
pub extern "C" fn c14_threads() {
    threads(false);
}

extern "C" fn operate(fd: usize) {
    check(
        add(shared(), fd as RawFd, Event::readable(7), PollMode::Level).is_ok(),
        "an operation fails although no system call does",
    );
    check(delete(shared(), fd as RawFd).is_ok(), "an operation fails although no system call does");
}

//# fn=c14_threads_operate covers=empty cost=30 | the same with one of the threads adding and deleting a source
#[no_mangle]
pub extern "C" fn c14_threads_operate() {
    threads(true);
}

extern "C" fn chatter(_: usize) {
    let mut ev = events(2);
    for _ in 0..3 {
        check(shared().notify().is_ok(), "notify() fails for want of room in the wake-up channel");
        wait(shared(), &mut ev, ZERO);
    }
    check(shared().notify().is_ok(), "notify() fails for want of room in the wake-up channel");
}

//# fn=c14_contended covers=empty cost=5 | one thread waits without a timeout while another notifies and waits in turn, four times: never
//#   more than two wake-ups are in the channel, and one more wait empties it
#[no_mangle]
pub extern "C" fn c14_contended() {
    let p = share();
    k().pipe_cap = 4;
    let t = vx::spawn(chatter, 0);
    let mut ev = events(2);
    wait(p, &mut ev, None);
    vx::join(t);
    wait(p, &mut ev, ZERO);
    wait(p, &mut ev, ZERO);
    check(left() == 0, "notifications pile up in the wake-up channel");
    let mut i = 0;
    while i < k().npipes as usize {
        check(k().pipes[i].high <= 2, "notifications pile up in the wake-up channel");
        i += 1;
    }
    cover("empty");
    finish_shared();
}
