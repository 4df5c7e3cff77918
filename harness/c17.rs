#[path = "common.rs"]
mod common;
use common::*;

/// Any call with any arguments; returns whether it blocked forever.
fn step(p: &Poller, ev: &mut Events, fds: [RawFd; 2]) {
    let own = k().fds[3].kind != Kind::Free;
    let fd = match vx::below("descriptor", 4) {
        0 => fds[0],
        1 => fds[1],
        2 if own => 3,
        2 => 4,
        _ => {
            let n = vx::u32("number") & 0x7fff_ffff;
            assume(n >= vkern::NFD as u32);
            n as RawFd
        }
    };
    let w = any_want(vx::usize("key"));
    match vx::below("operation", 5) {
        0 => ignore(add(p, fd, w.event(), any_any_mode())),
        1 => ignore(modify(p, fd, w.event(), any_any_mode())),
        2 => ignore(delete(p, fd)),
        3 => ignore(p.notify()),
        _ => {
            let t = if vx::bool("timeout") {
                let ns = vx::u32("timeout_ns");
                assume(ns < 1_000_000_000);
                Some(Duration::new(vx::u64("timeout_s"), ns))
            } else {
                None
            };
            vkern::set_ready(fds[0], any_conds("conditions"));
            if vx::bool("clear") {
                ev.clear();
            }
            if let Ok(n) = p.wait(ev, t) {
                let mut c = 0;
                for e in ev.iter() {
                    check(e.key != usize::MAX, "an internal event is visible to the user");
                    c += 1;
                }
                check(c == n, "wait() returns a number different from the events delivered");
            }
        }
    }
}

fn any_any_mode() -> PollMode {
    match vx::below("mode", 4) {
        0 => PollMode::Oneshot,
        1 => PollMode::Level,
        2 => PollMode::Edge,
        _ => PollMode::EdgeOneshot,
    }
}

fn history(steps: usize) {
    let p = any_poller();
    k().on_hang = Hang::Stop;
    let mut ev = events(1);
    let fds = [source(), source()];
    let mut i = 0;
    while i < steps {
        i += 1;
        step(&p, &mut ev, fds);
    }
    cover("done");
    release(p);
}

//# fn=c17_any covers=done cost=60 | every history of 3 calls with any arguments: any key, interest, mode, any of two
//#   sources, an internal or a closed descriptor, any timeout at all, any conditions, container cleared or not
#[no_mangle]
pub extern "C" fn c17_any() {
    history(3);
}

//# fn=c17_any_deep covers=done cost=300 tier=thorough | the same with 4 calls
#[no_mangle]
pub extern "C" fn c17_any_deep() {
    history(4);
}

//# fn=c17_timeouts covers=sleeps;huge cost=10 | any timeout a Duration can hold, any time of the clock from 0 to 2^62 s
//#   since boot, with or without a notification pending: no panic, never early
#[no_mangle]
pub extern "C" fn c17_timeouts() {
    let now = vx::u64("now_s");
    let ns = vx::u32("now_ns");
    assume(now < 1 << 62);
    assume(ns < 1_000_000_000);
    k().clock = Ts::new(now as i64, ns);
    let p = any_poller();
    let mut ev = events(1);
    let ns = vx::u32("timeout_ns");
    assume(ns < 1_000_000_000);
    let t = Duration::new(vx::u64("timeout_s"), ns);
    k().on_hang = Hang::Stop;
    if t.as_secs() > 1 << 62 {
        cover("huge");
    }
    let woken = vx::bool("notified");
    if woken {
        check(p.notify().is_ok(), "notify() fails");
    }
    k().slept = false;
    let t0 = vkern::now_exact();
    check(wait(&p, &mut ev, Some(t)) == 0, "events without a source");
    if woken {
        check(!k().slept, "wait() sleeps although a notification is pending");
    } else {
        check(elapsed(t0) >= least(t), "wait() returns before its timeout");
        cover("sleeps");
    }
    release(p);
}
