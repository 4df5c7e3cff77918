#[path = "common.rs"]
mod common;
use common::*;

//# fn=c01_add covers=delivered;none | one source, every interest (readable, writable, priority,
//#   interrupt), mode, key and set of conditions; one wait()
#[no_mangle]
pub extern "C" fn c01_add() {
    let p = any_poller();
    streams();
    let fd = source();
    let want = any_want(any_key("key"));
    let mode = any_mode();
    check(add(&p, fd, want.event(), mode).is_ok(), "add() fails");
    let m = any_conds("conditions");
    vkern::set_ready(fd, m);
    let mut ev = events(4);
    let n = wait(&p, &mut ev, ZERO);
    observe(n as u64);
    check(n <= 1, "one source gives several events");
    check(!(m & want.must() != 0) | (n == 1), "a ready source is not reported");
    check(!(n == 1) | (m & want.may() != 0), "a source is reported without being ready");
    if n == 1 {
        cover("delivered");
        let e = ev.iter().next().unwrap();
        check(e.key == want.key, "the event carries another key");
        check_decode(&e, m & want.must(), m & want.may());
    } else {
        cover("none");
    }
    finish(p);
}

//# fn=c01_two covers=both | two sources with different keys, every interest, mode and set of
//#   conditions; container of default size; one wait()
#[no_mangle]
pub extern "C" fn c01_two() {
    let p = any_poller();
    let (a, b) = (source(), source());
    let wa = any_want(any_key("key"));
    let wb = any_want(any_key("key"));
    assume(wa.key != wb.key);
    let mode = any_mode();
    check(add(&p, a, wa.event(), mode).is_ok(), "add() fails");
    check(add(&p, b, wb.event(), mode).is_ok(), "add() fails");
    let (ma, mb) = (any_conds5("conditions"), any_conds5("conditions"));
    vkern::set_ready(a, ma);
    vkern::set_ready(b, mb);
    let mut ev = Events::new();
    let n = wait(&p, &mut ev, ZERO);
    let (ra, rb) = (ma & wa.must(), mb & wb.must());
    check(n as u32 == (ra != 0) as u32 + (rb != 0) as u32, "not exactly the ready sources are reported");
    let mut seen_a = 0;
    let mut seen_b = 0;
    for e in ev.iter() {
        if e.key == wa.key {
            seen_a += 1;
            check_decode(&e, ra, ra);
        } else {
            check(e.key == wb.key, "the event carries a key nobody registered");
            seen_b += 1;
            check_decode(&e, rb, rb);
        }
    }
    check(seen_a <= 1 && seen_b <= 1, "one source gives several events");
    if n == 2 {
        cover("both");
    }
    finish(p);
}
