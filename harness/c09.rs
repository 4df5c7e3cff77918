#[path = "common.rs"]
mod common;
use common::*;

static GO: Cell = Cell::new();
static DONE: Cell = Cell::new();
static GOT: Cell = Cell::new();

fn ok(r: io::Result<()>) {
    check(r.is_ok(), "an operation fails although no system call does");
}

extern "C" fn add_ready(fd: usize) {
    ok(add(shared(), fd as RawFd, Event::readable(fd), PollMode::Oneshot));
}

/// Waits without a timeout until `n` events were delivered; every key at most once.
fn collect(p: &Poller, ev: &mut Events, n: usize) -> u32 {
    let mut seen = 0u32;
    let mut got = 0;
    while got < n {
        got += wait(p, ev, None);
        for e in ev.iter() {
            check(e.key < 32, "an event with a key nobody used");
            check(seen & (1 << e.key) == 0, "a one-shot source is reported twice");
            seen |= 1 << e.key;
        }
    }
    seen
}

//# fn=c09_add covers=event cost=5 | a ready source is added by another thread, in every schedule with a thread
//#   that waits without a timeout: the event is delivered, exactly once
#[no_mangle]
pub extern "C" fn c09_add() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    vkern::set_ready(fd, IN);
    let t = vx::spawn(add_ready, fd as usize);
    let s = collect(p, &mut ev, 1);
    check(s == 1 << fd, "another key");
    cover("event");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    ok(delete(p, fd));
    finish_shared();
}

extern "C" fn add_late(fd: usize) {
    ok(add(shared(), fd as RawFd, Event::readable(fd), PollMode::Oneshot));
    vx::sched(90);
    vkern::set_ready(fd as RawFd, IN);
}

//# fn=c09_add_late covers=event cost=5 | the same with a source that becomes ready after it was added
#[no_mangle]
pub extern "C" fn c09_add_late() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    let t = vx::spawn(add_late, fd as usize);
    let s = collect(p, &mut ev, 1);
    check(s == 1 << fd, "another key");
    cover("event");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    ok(delete(p, fd));
    finish_shared();
}

extern "C" fn modify_to_readable(fd: usize) {
    ok(modify(shared(), fd as RawFd, Event::readable(fd), PollMode::Oneshot));
}

//# fn=c09_modify covers=event cost=5 | the interest in a ready source is changed by another thread so that it
//#   counts, in every schedule with a waiting thread
#[no_mangle]
pub extern "C" fn c09_modify() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    vkern::set_ready(fd, IN);
    ok(add(p, fd, Event::writable(20), PollMode::Oneshot));
    let t = vx::spawn(modify_to_readable, fd as usize);
    let s = collect(p, &mut ev, 1);
    check(s == 1 << fd, "another key");
    cover("event");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    ok(delete(p, fd));
    finish_shared();
}

extern "C" fn rearm(fd: usize) {
    let mut i = 1;
    while i < 3 {
        GOT.await_(i);
        ok(modify(shared(), fd as RawFd, Event::readable(i as usize), PollMode::Oneshot));
        i += 1;
    }
}

//# fn=c09_rearm covers=three cost=5 | a one-shot source is re-armed by another thread twice while the first
//#   waits: delivered once per arming, with the key of that arming
#[no_mangle]
pub extern "C" fn c09_rearm() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    vkern::set_ready(fd, IN);
    ok(add(p, fd, Event::readable(0), PollMode::Oneshot));
    let t = vx::spawn(rearm, fd as usize);
    let mut got = 0;
    while got < 3 {
        if wait(p, &mut ev, None) == 1 {
            check(ev.iter().next().unwrap().key == got, "an event with an outdated key");
            got += 1;
            GOT.set(got as u32);
        }
    }
    cover("three");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    finish_shared();
}

extern "C" fn delete_then_notify(fd: usize) {
    ok(delete(shared(), fd as RawFd));
    DONE.set(1);
    vkern::set_ready(fd as RawFd, IN);
    GO.set(1);
    mt_notify();
}

//# fn=c09_delete covers=deleted;before cost=10 | a source is deleted by another thread, in every schedule with a
//#   waiting thread: the call returns, and no wait that begins afterwards reports the source
#[no_mangle]
pub extern "C" fn c09_delete() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    let level = vx::bool("level");
    let early = vx::bool("ready before");
    if early {
        vkern::set_ready(fd, IN);
    }
    ok(add(p, fd, Event::readable(7), if level { PollMode::Level } else { PollMode::Oneshot }));
    let t = vx::spawn(delete_then_notify, fd as usize);
    while GO.get() == 0 {
        let done = DONE.get() != 0;
        let n = wait(p, &mut ev, None);
        check((n == 0) | !done, "a source is reported after delete() returned");
        check((n == 0) | early, "a source that became ready after delete() returned is reported");
        if n > 0 {
            cover("before");
        }
    }
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a source is reported after delete() returned");
    check(kind(&delete(p, fd)) == Some(io::ErrorKind::NotFound), "a deleted source is still registered");
    cover("deleted");
    finish_shared();
}

extern "C" fn rename(fd: usize) {
    ok(modify(shared(), fd as RawFd, Event::readable(8), PollMode::Level));
    DONE.set(1);
}

//# fn=c09_rename covers=old;new cost=10 | the key of a ready level-triggered source is changed by another
//#   thread: no wait that begins after modify() returned reports the old key, none before it the new one
#[no_mangle]
pub extern "C" fn c09_rename() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    vkern::set_ready(fd, IN);
    ok(add(p, fd, Event::readable(7), PollMode::Level));
    let t = vx::spawn(rename, fd as usize);
    let mut new = false;
    while !new {
        let done = DONE.get() != 0;
        if wait(p, &mut ev, None) == 1 {
            let key = ev.iter().next().unwrap().key;
            check((key == 7) | (key == 8), "an event with a key nobody used");
            check((key == 8) | !done, "an event with an outdated key");
            new = key == 8;
            if !new {
                cover("old");
            }
        }
    }
    cover("new");
    vx::join(t);
    finish_shared();
}

//# fn=c09_two covers=both cost=30 | two threads add a ready source each while a third waits: both are delivered
#[no_mangle]
pub extern "C" fn c09_two() {
    let p = share_with_signal();
    let mut ev = events(2);
    let (a, b) = (source(), source());
    vkern::set_ready(a, IN);
    vkern::set_ready(b, IN);
    let t = vx::spawn(add_ready, a as usize);
    let u = vx::spawn(add_ready, b as usize);
    let s = collect(p, &mut ev, 2);
    check(s == 1 << a | 1 << b, "another key");
    cover("both");
    vx::join(t);
    vx::join(u);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    finish_shared();
}

static ADDED: Cell = Cell::new();

extern "C" fn try_add(fd: usize) {
    match add(shared(), fd as RawFd, Event::readable(fd), PollMode::Oneshot) {
        Ok(()) => ADDED.add(1),
        Err(e) => check(e.kind() == io::ErrorKind::AlreadyExists, "add() reports another error"),
    }
}

extern "C" fn try_delete(fd: usize) {
    match delete(shared(), fd as RawFd) {
        Ok(()) => ADDED.add(10),
        Err(e) => check(e.kind() == io::ErrorKind::NotFound, "delete() reports another error"),
    }
}

//# fn=c09_same covers=one;gone cost=30 | two threads add and a third deletes the same source, with a waiting
//#   thread: one of the orders of the calls explains all results
#[no_mangle]
pub extern "C" fn c09_same() {
    let p = share_with_signal();
    let mut ev = events(2);
    let a = source();
    let t = vx::spawn(try_add, a as usize);
    let u = vx::spawn(try_add, a as usize);
    let v = vx::spawn(try_delete, a as usize);
    if vx::bool("wait") {
        check(wait(p, &mut ev, Some(MS)) == 0, "an event without a source");
    }
    vx::join(t);
    vx::join(u);
    vx::join(v);
    vkern::set_ready(a, IN);
    let n = wait(p, &mut ev, ZERO);
    match ADDED.get() {
        1 | 12 => {
            check(n == 1, "a source is registered but not reported");
            cover("one");
        }
        11 => {
            check(n == 0, "a source is reported after delete() returned");
            cover("gone");
        }
        _ => check(false, "the results of concurrent operations contradict each other"),
    }
    finish_shared();
}

extern "C" fn history(fds: usize) {
    let (a, b) = ((fds & 0xff) as RawFd, (fds >> 8) as RawFd);
    let mut reg = [false; 2];
    let mut i = 0;
    while i < 3 {
        i += 1;
        let x = vx::below("source", 2);
        let fd = if x == 0 { a } else { b };
        match vx::below("operation", 3) {
            0 => {
                let r = add(shared(), fd, Event::readable(fd as usize), PollMode::Oneshot);
                check(r.is_ok() == !reg[x as usize], "add() succeeds or fails wrongly");
                reg[x as usize] = true;
            }
            1 => {
                let r = modify(shared(), fd, Event::readable(fd as usize), PollMode::Oneshot);
                check(r.is_ok() == reg[x as usize], "modify() succeeds or fails wrongly");
            }
            _ => {
                let r = delete(shared(), fd);
                check(r.is_ok() == reg[x as usize], "delete() succeeds or fails wrongly");
                reg[x as usize] = false;
            }
        }
    }
    ADDED.set(reg[0] as u32 | (reg[1] as u32) << 1);
    GO.set(1);
    mt_notify();
}

//# fn=c09_history covers=both;none cost=60 | every history of 3 operations on two sources by one thread, in
//#   every schedule with a waiting thread: all calls succeed or fail as without it and return
#[no_mangle]
pub extern "C" fn c09_history() {
    let p = share_with_signal();
    let mut ev = events(2);
    let (a, b) = (source(), source());
    let t = vx::spawn(history, a as usize | (b as usize) << 8);
    while GO.get() == 0 {
        check(wait(p, &mut ev, None) == 0, "an event without a source");
    }
    vx::join(t);
    vkern::set_ready(a, IN);
    vkern::set_ready(b, IN);
    wait(p, &mut ev, ZERO);
    // The notification may come first.
    let mut seen = 0u32;
    let mut i = 0;
    while i < 3 {
        for e in ev.iter() {
            seen |= 1 << e.key;
        }
        wait(p, &mut ev, ZERO);
        i += 1;
    }
    let reg = ADDED.get();
    check((seen & (1 << a) != 0) == (reg & 1 != 0), "the registered sources are not the reported ones");
    check((seen & (1 << b) != 0) == (reg & 2 != 0), "the registered sources are not the reported ones");
    if reg == 3 {
        cover("both");
    }
    if reg == 0 {
        cover("none");
    }
    finish_shared();
}

extern "C" fn churn(fd: usize) {
    let p = shared();
    ok(add(p, fd as RawFd, Event::readable(fd), PollMode::Oneshot));
    ok(modify(p, fd as RawFd, Event::writable(fd), PollMode::Oneshot));
    ok(delete(p, fd as RawFd));
    DONE.add(1);
    mt_notify();
}

//# fn=c09_churn covers=done cost=60 | two threads add, modify and delete a source each while a third waits:
//#   every call returns and succeeds
#[no_mangle]
pub extern "C" fn c09_churn() {
    let p = share_with_signal();
    let mut ev = events(2);
    let (a, b) = (source(), source());
    let t = vx::spawn(churn, a as usize);
    let u = vx::spawn(churn, b as usize);
    while DONE.get() < 2 {
        check(wait(p, &mut ev, None) == 0, "an event without a source");
    }
    vx::join(t);
    vx::join(u);
    cover("done");
    wait(p, &mut ev, ZERO);
    k().slept = false;
    check(wait(p, &mut ev, Some(MS)) == 0, "an event without a source");
    check(k().slept, "operations leave a wake-up behind");
    finish_shared();
}

extern "C" fn add_and_ready(fd: usize) {
    let fd = fd as RawFd;
    ok(add(shared(), fd, Event::readable(fd as usize), PollMode::Oneshot));
    DONE.set(1);
}

//# fn=c09_undisturbed covers=event cost=30 | a source that becomes ready while another one is added: the
//#   operation does not make the waiting thread miss it
#[no_mangle]
pub extern "C" fn c09_undisturbed() {
    let p = share_with_signal();
    let mut ev = events(2);
    let (a, b) = (source(), source());
    ok(add(p, a, Event::readable(a as usize), PollMode::Oneshot));
    let t = vx::spawn(add_and_ready, b as usize);
    let u = vx::spawn(activity, a as usize);
    let s = collect(p, &mut ev, 1);
    check(s == 1 << a, "an event for a source that is not ready");
    cover("event");
    vx::join(t);
    vx::join(u);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    finish_shared();
}

extern "C" fn activity(fd: usize) {
    vx::sched(90);
    vkern::set_ready(fd as RawFd, IN);
}

//# fn=c09_three covers=all cost=20 | three threads add a ready source each while a fourth waits
#[no_mangle]
pub extern "C" fn c09_three() {
    let p = share_with_signal();
    let mut ev = events(4);
    let (a, b, c) = (source(), source(), source());
    vkern::set_ready(a, IN);
    vkern::set_ready(b, IN);
    vkern::set_ready(c, IN);
    let t = vx::spawn(add_ready, a as usize);
    let u = vx::spawn(add_ready, b as usize);
    let v = vx::spawn(add_ready, c as usize);
    let s = collect(p, &mut ev, 3);
    check(s == 1 << a | 1 << b | 1 << c, "another key");
    cover("all");
    vx::join(t);
    vx::join(u);
    vx::join(v);
    finish_shared();
}

extern "C" fn delete_one(fd: usize) {
    ok(delete(shared(), fd as RawFd));
    DONE.set(1);
}

//# fn=c09_swap covers=event cost=10 | three sources, any one of which is deleted by another thread while the others
//#   become ready in any schedule with a waiting thread: these are delivered, with their keys, once
#[no_mangle]
pub extern "C" fn c09_swap() {
    let p = share_with_signal();
    let mut ev = events(4);
    let f = [source(), source(), source()];
    let mut i = 0;
    while i < 3 {
        ok(add(p, f[i], Event::readable(f[i] as usize), PollMode::Oneshot));
        i += 1;
    }
    let d = vx::below("deleted", 3) as usize;
    let (x, y) = (f[(d + 1) % 3], f[(d + 2) % 3]);
    let t = vx::spawn(delete_one, f[d] as usize);
    let u = vx::spawn(activity, x as usize);
    let s = collect(p, &mut ev, 1);
    check(s == 1 << x, "an event for a source that is not ready");
    vkern::set_ready(y, IN);
    let s = collect(p, &mut ev, 1);
    check(s == 1 << y, "an event for a source that is not ready");
    vx::join(t);
    vx::join(u);
    cover("event");
    ok(modify(p, x, Event::readable(20), PollMode::Oneshot));
    ok(modify(p, y, Event::readable(21), PollMode::Oneshot));
    check(wait(p, &mut ev, ZERO) == 2, "a re-armed source is not reported");
    ok(delete(p, x));
    ok(delete(p, y));
    finish_shared();
}

extern "C" fn recycle(fd: usize) {
    let fd = fd as RawFd;
    ok(delete(shared(), fd));
    vkern::close_source(fd);
    let n = source();
    check(n == fd, "model bound: the number is not used again");
    vkern::set_ready(n, OUT);
    ok(add(shared(), n, Event::new(8, true, true), PollMode::Oneshot));
    DONE.set(1);
}

//# fn=c09_recycle covers=new;old cost=10 | a source is deleted and closed and its number used for another one by a
//#   second thread, in every schedule with a waiting thread: only the new one is reported from then on
#[no_mangle]
pub extern "C" fn c09_recycle() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    let ready = vx::bool("ready");
    if ready {
        vkern::set_ready(fd, IN);
    }
    ok(add(p, fd, Event::readable(7), PollMode::Oneshot));
    let t = vx::spawn(recycle, fd as usize);
    let mut new = false;
    while !new {
        let done = DONE.get() != 0;
        for e in {
            wait(p, &mut ev, None);
            ev.iter()
        } {
            if e.key == 7 {
                check(ready & !done, "a deleted source is reported");
                cover("old");
            } else {
                check((e.key == 8) & e.writable & !e.readable, "a source is reported wrongly");
                new = true;
            }
        }
    }
    cover("new");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 0, "a one-shot source is reported twice");
    ok(delete(p, fd));
    finish_shared();
}

extern "C" fn change_level(fd: usize) {
    let fd = fd as RawFd;
    ok(modify(shared(), fd, Event::none(8), PollMode::Level));
    DONE.set(1);
    vkern::clear_ready(fd, IN);
    vkern::set_ready(fd, OUT);
    ok(modify(shared(), fd, Event::writable(9), PollMode::Level));
}

//# fn=c09_interest covers=before;after cost=10 | the interest in a ready level-triggered source is removed and another
//#   one given by a second thread, in every schedule with a waiting thread: what is reported is what was asked for
#[no_mangle]
pub extern "C" fn c09_interest() {
    let p = share_with_signal();
    let mut ev = events(2);
    let fd = source();
    vkern::set_ready(fd, IN);
    ok(add(p, fd, Event::readable(7), PollMode::Level));
    let t = vx::spawn(change_level, fd as usize);
    let mut after = false;
    while !after {
        let done = DONE.get() != 0;
        if wait(p, &mut ev, None) == 1 {
            let e = ev.iter().next().unwrap();
            match e.key {
                7 => {
                    check(!done & e.readable & !e.writable, "a source is reported wrongly");
                    cover("before");
                }
                9 => {
                    check(e.writable & !e.readable, "a source is reported wrongly");
                    after = true;
                }
                _ => check(false, "a source without an interest is reported"),
            }
        }
    }
    cover("after");
    vx::join(t);
    check(wait(p, &mut ev, ZERO) == 1, "a level-triggered source is not reported");
    ok(delete(p, fd));
    finish_shared();
}
