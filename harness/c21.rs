#[path = "common.rs"]
mod common;
use common::*;

/// What is known of a poller.
#[derive(Clone, Copy)]
struct State {
    pending: bool,
    armed: bool,
}

static mut TARGET: *const Poller = core::ptr::null();

fn notify_target(_: i32) {
    check(unsafe { (*TARGET).notify() }.is_ok(), "notify() fails although no system call does");
}

/// Two pollers that watch the same source with different keys, used in any order.
fn history(steps: usize) {
    let mut p = [Some(any_poller()), Some(poller())];
    let fd = source();
    let mut s = [State { pending: false, armed: false }; 2];
    let mut ready = false;
    for i in 0..2 {
        let r = add(p[i].as_ref().unwrap(), fd, Event::none(i), PollMode::Oneshot);
        check(r.is_ok(), "a source cannot be added to a second poller");
    }
    let mut ev = events(4);
    let mut i = 0;
    while i < steps {
        i += 1;
        let op = vx::below("op", 6);
        if op == 5 {
            // The source changes.
            ready = !ready;
            if ready {
                vkern::set_ready(fd, IN);
            } else {
                vkern::clear_ready(fd, IN);
            }
            continue;
        }
        let w = vx::below("poller", 2) as usize;
        let q = p[w].as_ref().unwrap();
        match op {
            0 => {
                check(q.notify().is_ok(), "notify() fails although no system call does");
                s[w].pending = true;
            }
            1 => {
                let r = modify(q, fd, Event::readable(w * 10 + 10), PollMode::Oneshot);
                check(r.is_ok(), "modify() of a registered source fails");
                s[w].armed = true;
            }
            2 => {
                // Without a timeout; if nothing is due a notification comes later.
                let due = s[w].armed & ready | s[w].pending;
                let t0 = vkern::now_exact();
                if !due {
                    unsafe { TARGET = q };
                    k().env_hook = Some(notify_target);
                    k().env[0] = EnvEv { at: t0.plus(0, 20_000_000), what: Env::Hook, arg: 0, mask: 0 };
                }
                k().slept = false;
                let n = wait(q, &mut ev, None);
                check(k().slept != due, "a wait() without timeout sleeps although it should not, or does not");
                check(
                    due | (elapsed(t0) >= Duration::from_millis(20)),
                    "a wait() without timeout is ended by something that concerns another poller",
                );
                check(n <= (s[w].armed & ready) as usize, "an event that concerns another poller");
                s[w].pending = false;
                if n == 1 {
                    s[w].armed = false;
                }
            }
            _ => {
                let due = s[w].armed & ready;
                k().slept = false;
                let n = wait(q, &mut ev, if op == 3 { ZERO } else { Some(MS) });
                if op == 4 {
                    check(
                        k().slept != (due | s[w].pending),
                        "a wait() is ended by something that concerns another poller, or not by its own",
                    );
                }
                if s[w].pending {
                    cover("notified");
                }
                check(n <= due as usize, "an event that concerns another poller");
                // A notification may end a wait before it looks at the sources.
                check((n == 1) | !due | s[w].pending & POLL, "a ready source is not reported");
                s[w].pending = false;
                if n == 1 {
                    cover("event");
                    let e = ev.iter().next().unwrap();
                    check(e.key == w * 10 + 10, "an event with the key of another poller");
                    check(e.readable & !e.writable, "a source is reported wrongly");
                    s[w].armed = false;
                }
            }
        }
    }
    // One goes, the other one still has all it had.
    let gone = vx::below("dropped", 2) as usize;
    drop(p[gone].take());
    let w = 1 - gone;
    let q = p[w].as_ref().unwrap();
    k().slept = false;
    let n = wait(q, &mut ev, Some(MS));
    let due = s[w].armed & ready;
    check(
        k().slept != (due | s[w].pending),
        "dropping a poller changes what another one has to report",
    );
    check(n <= due as usize, "an event that concerns another poller");
    check((n == 1) | !due | s[w].pending & POLL, "a ready source is not reported");
    if n == 0 {
        wait(q, &mut ev, ZERO);
    }
    check(delete(q, fd).is_ok(), "delete() of a registered source fails");
    finish(p[w].take().unwrap());
}

//# fn=c21_history covers=notified;event cost=20 states=8000000 | two pollers that watch the same source: every history of 4 steps
//#   out of {notify, arm, wait with timeout zero, with a timeout, without} on either and {source changes};
//#   then either is dropped
#[no_mangle]
pub extern "C" fn c21_history() {
    history(4);
}

//# fn=c21_history_deep covers=notified;event cost=200 tier=thorough states=30000000 | the same with 5 steps
#[no_mangle]
pub extern "C" fn c21_history_deep() {
    history(5);
}

static mut OTHER: Option<Poller> = None;

fn other() -> &'static Poller {
    unsafe { OTHER.as_ref().unwrap() }
}

fn share_two() -> (&'static Poller, &'static Poller) {
    let p = share();
    unsafe { OTHER = Some(poller()) };
    (p, other())
}

/// Both are done.
fn finish_two() {
    works(other());
    works(shared());
    ignore(unsafe { OTHER.take() });
    finish_shared();
}

static A: Cell = Cell::new();
static B: Cell = Cell::new();

extern "C" fn wait_on_shared(_: usize) {
    let mut ev = events(2);
    while A.get() == 0 {
        check(mt_wait(&mut ev, None) == 0, "events without a source");
    }
}

extern "C" fn wait_on_other(_: usize) {
    let mut ev = events(2);
    while B.get() == 0 {
        check(wait(other(), &mut ev, None) == 0, "events without a source");
    }
}

//# fn=c21_threads covers=done cost=10 | one thread waits on each of two pollers without a timeout, a third one
//#   notifies both, in either order: every schedule
#[no_mangle]
pub extern "C" fn c21_threads() {
    let (p, q) = share_two();
    let a = vx::spawn(wait_on_shared, 0);
    let b = vx::spawn(wait_on_other, 0);
    if vx::bool("order") {
        A.set(1);
        check(p.notify().is_ok(), "notify() fails although no system call does");
        B.set(1);
        check(q.notify().is_ok(), "notify() fails although no system call does");
    } else {
        B.set(1);
        check(q.notify().is_ok(), "notify() fails although no system call does");
        A.set(1);
        check(p.notify().is_ok(), "notify() fails although no system call does");
    }
    vx::join(a);
    vx::join(b);
    cover("done");
    finish_two();
}

//# fn=c21_busy covers=done cost=10 | while one thread waits on a poller without a timeout, another poller is used
//#   in every way and behaves as if it were alone: every schedule
#[no_mangle]
pub extern "C" fn c21_busy() {
    let (p, q) = share_two();
    let a = vx::spawn(wait_on_shared, 0);
    let mut ev = events(2);
    let fd = source();
    check(add(q, fd, Event::none(1), PollMode::Oneshot).is_ok(), "add() fails");
    let t0 = vkern::now_exact();
    check(wait(q, &mut ev, Some(MS)) == 0, "events without a source");
    check(elapsed(t0) >= MS, "a wait() on one poller disturbs the other one");
    vkern::set_ready(fd, IN);
    check(modify(q, fd, Event::readable(2), PollMode::Oneshot).is_ok(), "modify() fails");
    check(wait(q, &mut ev, Some(MS)) == 1, "a ready source is not reported");
    check(q.notify().is_ok(), "notify() fails");
    check(wait(q, &mut ev, None) == 0, "a one-shot source is reported twice");
    check(delete(q, fd).is_ok(), "delete() fails");
    A.set(1);
    check(p.notify().is_ok(), "notify() fails");
    vx::join(a);
    cover("done");
    finish_two();
}

extern "C" fn drop_other(_: usize) {
    ignore(unsafe { OTHER.take() });
}

//# fn=c21_drop covers=done cost=10 | a poller is dropped while a thread waits on another one that watches the same
//#   source, which then becomes ready: every schedule
#[no_mangle]
pub extern "C" fn c21_drop() {
    let (p, q) = share_two();
    let fd = source();
    check(add(p, fd, Event::readable(1), PollMode::Oneshot).is_ok(), "add() fails");
    check(add(q, fd, Event::readable(2), PollMode::Level).is_ok(), "add() fails");
    let a = vx::spawn(drop_other, 0);
    let b = vx::spawn(source_ready, fd as usize);
    let mut ev = events(2);
    check(wait(p, &mut ev, None) == 1, "a ready source is not reported");
    let e = ev.iter().next().unwrap();
    check(e.key == 1, "an event with the key of another poller");
    vx::join(a);
    vx::join(b);
    check(delete(p, fd).is_ok(), "delete() fails");
    cover("done");
    finish_shared();
}

extern "C" fn source_ready(fd: usize) {
    vx::sched(90);
    vkern::set_ready(fd as RawFd, IN);
}
