#[path = "common.rs"]
mod common;
use common::*;

#[derive(Clone, Copy)]
struct Reg {
    on: bool,
    want: Want,
    level: bool,
    armed: bool,
}

const NONE: Reg = Reg {
    on: false,
    want: Want { key: 0, r: false, w: false, pri: false, hup: false },
    level: false,
    armed: false,
};

/// Everything is ready for reading and writing; what is delivered shows what is registered.
fn compare(p: &Poller, ev: &mut Events, regs: &mut [Reg], sleep: bool) {
    let n = wait(p, ev, ZERO);
    let mut total = 0;
    for r in regs.iter_mut() {
        let m = sel(r.on && r.armed, IN | OUT) & r.want.must();
        let mut c = 0;
        for e in ev.iter() {
            if r.on && e.key == r.want.key {
                c += 1;
                check(
                    e.readable == r.want.r && e.writable == r.want.w,
                    "the interest in force is not the one of the last successful call",
                );
            }
        }
        check(c <= 1, "one source gives several events");
        check(!(c == 1) | r.armed, "a disarmed source is reported");
        check(!(m != 0) | (c == 1), "a registered source that is ready is not reported");
        check(!(c == 1) | (m != 0), "a source is reported without interest");
        total += c;
        if c == 1 && !r.level {
            r.armed = false;
        }
    }
    check(total == n, "an event for a source that is not registered");
    if sleep && n == 0 {
        // Nothing that is ready is registered and armed, so nothing may end a wait.
        idle(p, ev);
    }
}

fn history(nsrc: usize, steps: u32, waits: bool) {
    let p = any_poller();
    let mut ev = events(4);
    let mut fds = [0; 3];
    let fds = &mut fds[..nsrc];
    let mut regs = [NONE; 3];
    let regs = &mut regs[..nsrc];
    for f in fds.iter_mut() {
        *f = source();
        vkern::set_ready(*f, IN | OUT);
    }
    let mut i = 0;
    while i < steps {
        i += 1;
        let level = vx::bool("level");
        let edge = POLL && waits && vx::bool("edge");
        let mode = match (edge, level) {
            (false, true) => PollMode::Level,
            (false, false) => PollMode::Oneshot,
            (true, true) => PollMode::Edge,
            (true, false) => PollMode::EdgeOneshot,
        };
        let op = vx::below("operation", if waits { 4 } else { 3 });
        let j = if op < 3 { vx::below("source", nsrc as u32) as usize } else { 0 };
        // An event shows which source it belongs to; registrations may be repeated.
        let want = any_rw(2 * j + vx::bool("key") as usize);
        match op {
            0 => {
                let r = add(&p, fds[j], want.event(), mode);
                if regs[j].on {
                    check(
                        kind(&r) == Some(io::ErrorKind::AlreadyExists),
                        "add() of a registered source does not fail with AlreadyExists",
                    );
                } else if edge {
                    check(kind(&r) == Some(io::ErrorKind::Unsupported), "an unsupported mode is accepted");
                } else {
                    check(r.is_ok(), "add() of a new source fails");
                    regs[j] = Reg { on: true, want, level, armed: true };
                }
            }
            1 => {
                let r = modify(&p, fds[j], want.event(), mode);
                if regs[j].on & edge {
                    check(kind(&r) == Some(io::ErrorKind::Unsupported), "an unsupported mode is accepted");
                } else if regs[j].on {
                    check(r.is_ok(), "modify() of a registered source fails");
                    regs[j] = Reg { on: true, want, level, armed: true };
                } else {
                    check(
                        kind(&r) == Some(io::ErrorKind::NotFound),
                        "modify() of an unknown source does not fail with NotFound",
                    );
                }
            }
            2 => {
                let r = delete(&p, fds[j]);
                if regs[j].on {
                    check(r.is_ok(), "delete() of a registered source fails");
                    regs[j].on = false;
                } else {
                    check(
                        kind(&r) == Some(io::ErrorKind::NotFound),
                        "delete() of an unknown source does not fail with NotFound",
                    );
                }
            }
            _ => compare(&p, &mut ev, regs, true),
        }
    }
    compare(&p, &mut ev, regs, waits);
    compare(&p, &mut ev, regs, waits);
    if waits {
        finish(p);
    } else {
        release(p);
    }
}

//# fn=c05_three cost=10 | three sources, every history of 5 operations (add, modify, delete, each
//#   with any interest, one-shot or level), then two waits
#[no_mangle]
pub extern "C" fn c05_three() {
    history(3, 5, false)
}

//# fn=c05_two cost=10 | two sources, every history of 5 operations (add, modify, delete, wait; on the
//#   poll backend in unsupported modes too), then two waits
#[no_mangle]
pub extern "C" fn c05_two() {
    history(2, 5, true)
}

//# fn=c05_three_deep states=12000000 cost=30 tier=thorough | three sources, 6 operations
#[no_mangle]
pub extern "C" fn c05_three_deep() {
    history(3, 6, false)
}

//# fn=c05_two_deep states=12000000 cost=30 tier=thorough | two sources, 7 operations
#[no_mangle]
pub extern "C" fn c05_two_deep() {
    history(2, 7, true)
}

//# fn=c05_swap cost=5 | four sources registered; every subset deleted in every order of two,
//#   then any one registered again; then two waits
#[no_mangle]
pub extern "C" fn c05_swap() {
    let p = any_poller();
    let mut ev = events(8);
    let mut fds = [0; 4];
    let mut regs = [NONE; 4];
    for j in 0..4 {
        fds[j] = source();
        vkern::set_ready(fds[j], IN | OUT);
        regs[j] = Reg { on: true, want: any_rw(j + 1), level: vx::bool("level"), armed: true };
        let mode = if regs[j].level { PollMode::Level } else { PollMode::Oneshot };
        check(add(&p, fds[j], regs[j].want.event(), mode).is_ok(), "add() of a new source fails");
    }
    if vx::bool("wait") {
        compare(&p, &mut ev, &mut regs, true);
    }
    for _ in 0..2 {
        let j = vx::below("source", 5) as usize;
        if j < 4 && regs[j].on {
            check(delete(&p, fds[j]).is_ok(), "delete() of a registered source fails");
            regs[j].on = false;
        }
    }
    let j = vx::below("source", 4) as usize;
    let want = any_rw(9);
    let r = if regs[j].on {
        modify(&p, fds[j], want.event(), PollMode::Level)
    } else {
        add(&p, fds[j], want.event(), PollMode::Level)
    };
    check(r.is_ok(), "a registration fails");
    regs[j] = Reg { on: true, want, level: true, armed: true };
    compare(&p, &mut ev, &mut regs, true);
    compare(&p, &mut ev, &mut regs, true);
    finish(p);
}

//# fn=c05_rejected covers=rejected | every registration and conditions, then one call that must be
//#   rejected: reserved key, duplicate, unsupported mode or kind of source, internal descriptor
#[no_mangle]
pub extern "C" fn c05_rejected() {
    let p = any_poller();
    let fd = source();
    let other = source();
    let file = vkern::open_source(Kind::File);
    let m = any_conds5("conditions");
    vkern::set_ready(fd, m);
    vkern::set_ready(other, IN | OUT);
    let w = any_want(any_key("key"));
    check(add(&p, fd, w.event(), PollMode::Level).is_ok(), "add() fails");
    let x = any_want(any_key("key"));
    let bad_mode = if vx::bool("oneshot") { PollMode::EdgeOneshot } else { PollMode::Edge };
    use io::ErrorKind as E;
    let (r, want) = match vx::below("case", 8) {
        0 => (add(&p, fd, x.event(), any_mode()), E::AlreadyExists),
        1 => (modify(&p, other, x.event(), any_mode()), E::NotFound),
        2 => (delete(&p, other), E::NotFound),
        3 if POLL => (modify(&p, fd, x.event(), bad_mode), E::Unsupported),
        4 if POLL => (add(&p, other, x.event(), bad_mode), E::Unsupported),
        5 if !POLL => (add(&p, file, x.event(), any_mode()), E::PermissionDenied),
        // The poller's own pipe.
        6 if POLL => {
            let i = vkern::find_fd(if vx::bool("write end") { Kind::PipeW } else { Kind::PipeR });
            match vx::below("call", 3) {
                0 => (add(&p, i, x.event(), any_mode()), E::InvalidInput),
                1 => (modify(&p, i, x.event(), any_mode()), E::InvalidInput),
                _ => (delete(&p, i), E::InvalidInput),
            }
        }
        7 => {
            let c = Want { key: usize::MAX, ..x }.event();
            match vx::below("call", 3) {
                0 => (add(&p, fd, c, any_mode()), E::InvalidInput),
                1 => (add(&p, other, c, any_mode()), E::InvalidInput),
                _ => (modify(&p, fd, c, any_mode()), E::InvalidInput),
            }
        }
        _ => vx::stop(),
    };
    check(r.is_err(), "a call that must be rejected succeeds");
    check(kind(&r) == Some(want), "a rejected call fails with another kind of error");
    cover("rejected");
    let mut ev = events(4);
    for _ in 0..2 {
        let n = wait(&p, &mut ev, ZERO);
        check((n == 1) == (m & w.must() != 0), "a rejected call changes the set of registrations");
        if n == 1 {
            let e = ev.iter().next().unwrap();
            check(e.key == w.key, "a rejected call changes a key");
            check_decode(&e, m & w.must(), m & w.must());
        } else {
            idle(&p, &mut ev);
        }
    }
    check(p.notify().is_ok(), "notify() fails");
    check(wait(&p, &mut ev, None) <= 1, "a notification after a rejected call");
    check(
        kind(&delete(&p, other)) == Some(E::NotFound),
        "a rejected call leaves a registration behind",
    );
    check(delete(&p, fd).is_ok(), "delete() of a registered source fails");
    finish(p);
}

//# fn=c05_numbers covers=zero;high configs=epoll,pipe,poll | a source and the poller's own descriptors with any numbers, 0 to 2 (closed standard
//#   streams) included, in either order: added, reported, modified, reported, deleted as any other
#[no_mangle]
pub extern "C" fn c05_numbers() {
    let first = vx::bool("source first");
    let n = vx::below("number", 8) as usize;
    let mut fd = -1;
    if first {
        k().first_fd = n;
        fd = source();
        k().first_fd = vx::below("poller's", 4) as usize;
    } else {
        k().first_fd = vx::below("poller's", 4) as usize;
    }
    let p = any_poller();
    if !first {
        k().first_fd = n;
        fd = source();
    }
    if fd == 0 {
        cover("zero");
    } else if fd > 6 {
        cover("high");
    }
    let mode = any_mode();
    vkern::set_ready(fd, IN);
    check(kind(&modify(&p, fd, Event::readable(1), mode)) == Some(io::ErrorKind::NotFound), "modify() of an unknown source");
    check(kind(&delete(&p, fd)) == Some(io::ErrorKind::NotFound), "delete() of an unknown source");
    check(add(&p, fd, Event::readable(1), mode).is_ok(), "add() fails");
    check(kind(&add(&p, fd, Event::readable(1), mode)) == Some(io::ErrorKind::AlreadyExists), "add() of a known source");
    let mut ev = events(4);
    check(wait(&p, &mut ev, ZERO) == 1, "a ready source is not reported");
    check(ev.iter().next().unwrap().key == 1, "the event is not that of the source");
    check(modify(&p, fd, Event::readable(2), mode).is_ok(), "modify() fails");
    check(wait(&p, &mut ev, ZERO) == 1, "a ready source is not reported");
    check(ev.iter().next().unwrap().key == 2, "the event is not that of the source");
    check(delete(&p, fd).is_ok(), "delete() fails");
    check(wait(&p, &mut ev, ZERO) == 0, "a deleted source is reported");
    finish(p);
}
