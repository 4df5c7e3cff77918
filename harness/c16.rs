#[path = "common.rs"]
mod common;
use common::*;

fn fields(e: &Event, w: Want) {
    check(e.key == w.key, "key is wrong");
    check(e.readable == w.r, "readable is wrong");
    check(e.writable == w.w, "writable is wrong");
    check(e.is_priority() == w.pri, "is_priority() is wrong");
    check(e.is_interrupt() == w.hup, "is_interrupt() is wrong");
    check(e.is_err() == Some(false), "is_err() of an interest is wrong");
}

//# fn=c16_build covers=built cost=3 | every key, interest and combination of the extra flags, however they are set
#[no_mangle]
pub extern "C" fn c16_build() {
    let key = vx::usize("key");
    let w = any_want(key);
    let e = Event::new(key, w.r, w.w);
    fields(&e, Want { pri: false, hup: false, ..w });
    fields(&w.event(), w);
    let mut e = e;
    if w.pri {
        e = e.with_priority();
    }
    if w.hup {
        e = e.with_interrupt();
    }
    fields(&e, w);
    check(e == w.event(), "the same event built differently is not equal");
    // Setting twice, in the other order, and taking back.
    let mut f = Event::new(key, w.r, w.w);
    f.set_interrupt(!w.hup);
    f.set_priority(!w.pri);
    fields(&f, Want { pri: !w.pri, hup: !w.hup, ..w });
    f.set_interrupt(w.hup);
    f.set_priority(w.pri);
    fields(&f, w);
    check(e == f, "the same event built differently is not equal");
    cover("built");
}

//# fn=c16_named covers=named cost=3 | every key: the named constructors
#[no_mangle]
pub extern "C" fn c16_named() {
    let key = vx::usize("key");
    let none = Want { key, r: false, w: false, pri: false, hup: false };
    fields(&Event::none(key), none);
    fields(&Event::readable(key), Want { r: true, ..none });
    fields(&Event::writable(key), Want { w: true, ..none });
    fields(&Event::all(key), Want { r: true, w: true, ..none });
    cover("named");
}

//# fn=c16_equal covers=equal;different cost=3 | every pair of events: equal exactly if all fields are
#[no_mangle]
pub extern "C" fn c16_equal() {
    let a = any_want(vx::usize("key"));
    let b = any_want(vx::usize("key"));
    let same = a == b;
    check((a.event() == b.event()) == same, "== does not compare all of an event");
    if same {
        cover("equal");
    } else {
        cover("different");
    }
    let c = a.event();
    check(c == a.event(), "an event differs from its copy");
    let plain = (a.key == b.key) & (a.r == b.r) & (a.w == b.w);
    check(
        (a.event().with_no_extra() == b.event().with_no_extra()) == plain,
        "with_no_extra() leaves something or removes too much",
    );
}

//# fn=c16_clear covers=interest;delivered cost=5 | clearing the extra information of any interest and of an event
//#   delivered for any conditions: only that is removed
#[no_mangle]
pub extern "C" fn c16_clear() {
    let w = any_want(any_key("key"));
    let mut e = w.event();
    e.clear_extra();
    fields(&e, Want { pri: false, hup: false, ..w });
    check(e == Event::new(w.key, w.r, w.w), "clear_extra() leaves something");
    check(w.event().with_no_extra() == e, "with_no_extra() differs from clear_extra()");
    cover("interest");

    let p = poller();
    let fd = source();
    let m = any_conds("conditions");
    vkern::set_ready(fd, m);
    check(add(&p, fd, w.event(), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(2);
    if wait(&p, &mut ev, ZERO) == 1 {
        let got = ev.iter().next().unwrap();
        let plain = Event::new(got.key, got.readable, got.writable);
        check(got.with_no_extra() == plain, "with_no_extra() leaves something");
        let mut c = got;
        c.clear_extra();
        check(c == plain, "clear_extra() leaves something");
        check(c.is_err() == Some(false), "clear_extra() leaves something");
        cover("delivered");
    }
    finish(p);
}

//# fn=c16_connect covers=failed;fine cost=5 | is_connect_failed() for any conditions: true if the source has an error and
//#   a hang-up, false if neither
#[no_mangle]
pub extern "C" fn c16_connect() {
    let p = poller();
    let fd = source();
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    check(add(&p, fd, Event::writable(7), PollMode::Oneshot).is_ok(), "add() fails");
    let mut ev = events(2);
    if wait(&p, &mut ev, ZERO) == 1 {
        let got = ev.iter().next().unwrap();
        #[allow(deprecated)]
        let f = got.is_connect_failed();
        check(f.is_some(), "is_connect_failed() is not supported");
        if m & (ERR | HUP) == ERR | HUP {
            check(f == Some(true), "is_connect_failed() misses a failure");
            cover("failed");
        }
        if m & (ERR | HUP) == 0 {
            check(f == Some(false), "is_connect_failed() reports a failure without one");
            cover("fine");
        }
    }
    finish(p);
}
