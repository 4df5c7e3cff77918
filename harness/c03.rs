#[path = "common.rs"]
mod common;
use common::*;

//# fn=c03_add covers=rejected;accepted | every key, interest and mode given to add() and
//#   add_with_mode()
#[no_mangle]
pub extern "C" fn c03_add() {
    let p = any_poller();
    let fd = source();
    let want = any_want(vx::usize("key"));
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    let r = if vx::bool("default mode") {
        unsafe { p.add(fd, want.event()) }
    } else {
        add(&p, fd, want.event(), any_mode())
    };
    let bad = want.key == usize::MAX;
    check(r.is_ok() == !bad, "add() does not accept exactly the keys below usize::MAX");
    let mut ev = events(4);
    let n = wait(&p, &mut ev, ZERO);
    if bad {
        cover("rejected");
        check(kind(&r) == Some(io::ErrorKind::InvalidInput), "the reserved key gives another error");
        check(n == 0, "a rejected registration is active");
        check(
            kind(&modify(&p, fd, Event::all(1), PollMode::Oneshot)) == Some(io::ErrorKind::NotFound),
            "a rejected registration is present",
        );
        check(add(&p, fd, Event::all(1), PollMode::Oneshot).is_ok(), "add() after a rejected add() fails");
    } else {
        cover("accepted");
        check((n == 1) == (m & want.must() != 0), "the accepted registration is not in force");
        if n == 1 {
            check(ev.iter().next().unwrap().key == want.key, "the event carries another key");
        }
    }
    finish(p);
}

//# fn=c03_modify covers=rejected;accepted | every registration, then modify()/modify_with_mode()
//#   with every key, interest and mode
#[no_mangle]
pub extern "C" fn c03_modify() {
    let p = any_poller();
    let fd = source();
    let w1 = any_want(any_key("key"));
    let w2 = any_want(vx::usize("key"));
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    check(add(&p, fd, w1.event(), any_mode()).is_ok(), "add() fails");
    let r = if vx::bool("default mode") {
        p.modify(bfd(fd), w2.event())
    } else {
        modify(&p, fd, w2.event(), any_mode())
    };
    let bad = w2.key == usize::MAX;
    check(r.is_ok() == !bad, "modify() does not accept exactly the keys below usize::MAX");
    let w = if bad {
        cover("rejected");
        check(kind(&r) == Some(io::ErrorKind::InvalidInput), "the reserved key gives another error");
        w1
    } else {
        cover("accepted");
        w2
    };
    let mut ev = events(4);
    let n = wait(&p, &mut ev, ZERO);
    check((n == 1) == (m & w.must() != 0), "a rejected modify() changes the registration");
    if n == 1 {
        let e = ev.iter().next().unwrap();
        check(e.key == w.key, "the event carries another key");
        check_decode(&e, m & w.must(), m & w.must());
    }
    finish(p);
}

//# fn=c03_internal covers=notified;timeout | notifications and timeouts (every duration below 12
//#   days) around an I/O event: nothing but the user's event is visible
#[no_mangle]
pub extern "C" fn c03_internal() {
    let p = any_poller();
    let fd = source();
    let key = any_key("key");
    check(add(&p, fd, Event::readable(key), PollMode::Level).is_ok(), "add() fails");
    let mut ev = events(4);
    let t = any_timeout();
    let io = vx::bool("ready");
    if io {
        vkern::set_ready(fd, IN);
    }
    let note = vx::bool("notify");
    if note {
        cover("notified");
        check(p.notify().is_ok(), "notify() fails");
    }
    let mut i = 0;
    while i < 2 {
        let n = wait(&p, &mut ev, Some(t));
        check(n <= io as usize, "something other than the user's event is reported");
        check(ev.is_empty() == (n == 0), "is_empty() disagrees with the events delivered");
        check(ev.len() == n, "len() disagrees with the events delivered");
        for e in ev.iter() {
            check(e.key == key, "the event carries another key");
        }
        i += 1;
    }
    if k().slept {
        cover("timeout");
    }
    finish(p);
}
