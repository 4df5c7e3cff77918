#[path = "common.rs"]
mod common;
use common::*;

//# fn=c02_modify covers=delivered | every first registration (interest, mode, extra flags), every
//#   set of conditions while it is active, optionally a wait(), then every new interest, mode and
//#   conditions: what is delivered depends on the last registration only
#[no_mangle]
pub extern "C" fn c02_modify() {
    let p = any_poller();
    let fd = source();
    let w1 = any_want(any_key("key"));
    let w2 = any_want(any_key("key"));
    check(add(&p, fd, w1.event(), any_mode()).is_ok(), "add() fails");
    let mut ev = events(4);
    if vx::bool("wait first") {
        vkern::set_ready(fd, any_conds5("conditions"));
        wait(&p, &mut ev, ZERO);
    }
    check(modify(&p, fd, w2.event(), any_mode()).is_ok(), "modify() fails");
    let m = any_conds("conditions");
    vkern::set_ready(fd, m);
    let n = wait(&p, &mut ev, ZERO);
    observe(n as u64);
    check(n <= 1, "one source gives several events");
    check(!(m & w2.must() != 0) | (n == 1), "a ready source is not reported after modify()");
    check(!(n == 1) | (m & w2.may() != 0), "an interest replaced by modify() is still reported");
    if n == 1 {
        cover("delivered");
        let e = ev.iter().next().unwrap();
        check(e.key == w2.key, "the event does not carry the key of the last registration");
        check_decode(&e, m & w2.must(), m & w2.may());
    }
    finish(p);
}

//# fn=c02_default covers=oneshot | add() and modify() without a mode: one-shot delivery
#[no_mangle]
pub extern "C" fn c02_default() {
    let p = any_poller();
    let fd = source();
    let w1 = any_want(any_key("key"));
    let w2 = any_want(any_key("key"));
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    let again = vx::bool("modify");
    unsafe { check(p.add(fd, w1.event()).is_ok(), "add() fails") };
    if again {
        check(p.modify(bfd(fd), w2.event()).is_ok(), "modify() fails");
    }
    let w = if again { w2 } else { w1 };
    let mut ev = events(4);
    let n = wait(&p, &mut ev, ZERO);
    check((n == 1) == (m & w.must() != 0), "a ready source is not reported, or one that is not ready is");
    if n == 1 {
        let e = ev.iter().next().unwrap();
        check(e.key == w.key, "the event does not carry the key of the last registration");
        cover("oneshot");
        check(wait(&p, &mut ev, ZERO) == 0, "a source in the default mode is reported twice");
    }
    finish(p);
}

//# fn=c02_reuse covers=delivered | every registration, deleted, then every new registration of the
//#   same source (or of a new source that got the same descriptor)
#[no_mangle]
pub extern "C" fn c02_reuse() {
    let p = any_poller();
    let fd = source();
    let w1 = any_want(any_key("key"));
    let w2 = any_want(any_key("key"));
    check(add(&p, fd, w1.event(), any_mode()).is_ok(), "add() fails");
    let mut ev = events(4);
    if vx::bool("wait first") {
        vkern::set_ready(fd, any_conds5("conditions"));
        wait(&p, &mut ev, ZERO);
    }
    check(delete(&p, fd).is_ok(), "delete() fails");
    if vx::bool("reopen") {
        vkern::close_source(fd);
        check(source() == fd, "model: descriptor is not reused");
    }
    let m = any_conds("conditions");
    vkern::set_ready(fd, m);
    check(wait(&p, &mut ev, ZERO) == 0, "a deleted source is reported");
    check(add(&p, fd, w2.event(), any_mode()).is_ok(), "add() after delete() fails");
    let n = wait(&p, &mut ev, ZERO);
    check(!(m & w2.must() != 0) | (n == 1), "a ready source is not reported after delete() and add()");
    check(!(n == 1) | (m & w2.may() != 0), "a deleted interest is still reported");
    if n == 1 {
        cover("delivered");
        let e = ev.iter().next().unwrap();
        check(e.key == w2.key, "the event does not carry the key of the last registration");
        check_decode(&e, m & w2.must(), m & w2.may());
    }
    finish(p);
}

fn history(steps: usize) {
    let p = any_poller();
    let mut ev = events(4);
    let fd = source();
    let wants = [any_rw(1), any_rw(2)];
    let mut w = 0;
    check(add(&p, fd, wants[0].event(), any_mode()).is_ok(), "add() fails");
    let mut on = true;
    let mut i = 0;
    while i < steps {
        i += 1;
        match vx::below("operation", 4) {
            0 => {
                // The source is ready for a moment.
                vkern::set_ready(fd, IN | OUT);
                wait(&p, &mut ev, ZERO);
                vkern::clear_ready(fd, IN | OUT);
            }
            1 => {
                assume(on);
                check(delete(&p, fd).is_ok(), "delete() fails");
                on = false;
            }
            _ => {
                w = vx::below("interest", 2) as usize;
                let r = if on {
                    modify(&p, fd, wants[w].event(), any_mode())
                } else {
                    add(&p, fd, wants[w].event(), any_mode())
                };
                check(r.is_ok(), "add() or modify() fails");
                on = true;
            }
        }
    }
    // One more change of the interest, so that the source is armed.
    assume(on);
    w = vx::below("interest", 2) as usize;
    check(modify(&p, fd, wants[w].event(), any_mode()).is_ok(), "modify() fails");
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    let n = wait(&p, &mut ev, ZERO);
    check((n == 1) == (m & wants[w].must() != 0), "a ready source is not reported, or one that is not ready is");
    if n == 1 {
        cover("delivered");
        let e = ev.iter().next().unwrap();
        check(e.key == wants[w].key, "the event does not carry the key of the last registration");
        check_decode(&e, m & wants[w].must(), m & wants[w].may());
    }
    finish(p);
}

//# fn=c02_history covers=delivered cost=20 | every history of 3 steps out of {modify, delete, add again, wait}
//#   that goes back and forth between two interests, in any modes
#[no_mangle]
pub extern "C" fn c02_history() {
    history(3);
}

//# fn=c02_history_deep covers=delivered cost=100 tier=thorough | the same with 4 steps
#[no_mangle]
pub extern "C" fn c02_history_deep() {
    history(4);
}
