#[path = "common.rs"]
mod common;
use common::*;

fn mode_of(n: u32) -> PollMode {
    match n {
        0 => PollMode::Oneshot,
        1 => PollMode::Level,
        2 => PollMode::Edge,
        _ => PollMode::EdgeOneshot,
    }
}

/// What the poller says about a mode.
fn claims(p: &Poller, m: PollMode) -> bool {
    match m {
        PollMode::Oneshot => true,
        PollMode::Level => p.supports_level(),
        _ => p.supports_edge(),
    }
}

fn outcome(r: io::Result<()>, claimed: bool) -> bool {
    if claimed {
        check(r.is_ok(), "a mode the poller claims to support is refused");
        return true;
    }
    check(r.is_err(), "a mode the poller does not support is accepted");
    check(kind(&r) == Some(io::ErrorKind::Unsupported), "an unsupported mode is refused with another error");
    false
}

/// The source is ready; how often it is reported tells the mode.
fn behaves(p: &Poller, fd: RawFd, key: usize, m: PollMode) {
    let mut ev = events(4);
    check(one(p, &mut ev, key), "a ready source is not reported");
    check(
        one(p, &mut ev, key) == (m == PollMode::Level),
        "a source that stays ready is reported against its mode",
    );
    vkern::set_ready(fd, 0);
    check(!one(p, &mut ev, key), "a source is reported that is not ready");
    vkern::set_ready(fd, IN);
    check(
        one(p, &mut ev, key) == ((m == PollMode::Level) | (m == PollMode::Edge)),
        "a source that becomes ready again is reported against its mode",
    );
}

fn one(p: &Poller, ev: &mut Events, key: usize) -> bool {
    let n = wait(p, ev, ZERO);
    check(n <= 1, "a source is reported twice by one wait");
    for e in ev.iter() {
        check((e.key == key) & e.readable & !e.writable, "the event is not that of the source");
    }
    n == 1
}

//# fn=c24_add covers=accepted configs=epoll,pipe,poll,kqueue,kqueue-pipe,port | add_with_mode() in each of the four modes, any key: accepted exactly if
//#   supports_level() and supports_edge() say so, and then reported as the mode demands; otherwise
//#   Unsupported, and nothing is registered
#[no_mangle]
pub extern "C" fn c24_add() {
    let p = any_poller();
    streams();
    let level = p.supports_level();
    let edge = p.supports_edge();
    let fd = source();
    vkern::set_ready(fd, IN);
    let key = any_key("key");
    let m = mode_of(vx::below("mode", 4));
    if outcome(add(&p, fd, Event::readable(key), m), claims(&p, m)) {
        cover("accepted");
        behaves(&p, fd, key, m);
    } else {
        let mut ev = events(4);
        check(wait(&p, &mut ev, ZERO) == 0, "a refused source is reported");
        check(add(&p, fd, Event::readable(key), PollMode::Oneshot).is_ok(), "a refused source is registered");
        behaves(&p, fd, key, PollMode::Oneshot);
    }
    check((level == p.supports_level()) & (edge == p.supports_edge()), "what the poller supports changes");
    check(delete(&p, fd).is_ok(), "delete() fails");
    finish(p);
}

//# fn=c24_modify covers=accepted configs=epoll,pipe,poll,port | modify_with_mode() from any supported mode, fired or not, to each of the four
//#   modes: as add_with_mode(); a refused one leaves key, interest and mode as they were
#[no_mangle]
pub extern "C" fn c24_modify() {
    let p = any_poller();
    let fd = source();
    let old = mode_of(vx::below("old mode", 4));
    assume(claims(&p, old));
    let (a, b) = (any_key("key"), any_key("key"));
    check(add(&p, fd, Event::readable(a), old).is_ok(), "add() fails");
    let fired = vx::bool("fired");
    if fired {
        vkern::set_ready(fd, IN);
        let mut ev = events(4);
        check(one(&p, &mut ev, a), "a ready source is not reported");
        vkern::set_ready(fd, 0);
    }
    let new = mode_of(vx::below("mode", 4));
    let ok = outcome(modify(&p, fd, Event::readable(b), new), claims(&p, new));
    vkern::set_ready(fd, IN);
    if ok {
        cover("accepted");
        behaves(&p, fd, b, new);
    } else {
        let disarmed = fired & ((old == PollMode::Oneshot) | (old == PollMode::EdgeOneshot));
        if disarmed {
            let mut ev = events(4);
            check(!one(&p, &mut ev, a), "a refused modify() arms the source");
        } else {
            behaves(&p, fd, a, old);
        }
    }
    check(delete(&p, fd).is_ok(), "delete() fails");
    finish(p);
}

//# fn=c24_many covers=done configs=epoll,pipe,poll | two sources in any two supported modes, ready at the same time: each behaves as its
//#   own mode demands
#[no_mangle]
pub extern "C" fn c24_many() {
    let p = any_poller();
    let (a, b) = (source(), source());
    let (m, n) = (mode_of(vx::below("mode", 4)), mode_of(vx::below("mode", 4)));
    assume(claims(&p, m) & claims(&p, n));
    check(add(&p, a, Event::readable(1), m).is_ok(), "add() fails");
    check(add(&p, b, Event::readable(2), n).is_ok(), "add() fails");
    let mut ev = events(4);
    let repeats = |x: PollMode, again: bool| (x == PollMode::Level) | (again & (x == PollMode::Edge));
    for round in 0..3 {
        if round != 1 {
            vkern::set_ready(a, 0);
            vkern::set_ready(b, 0);
            vkern::set_ready(a, IN);
            vkern::set_ready(b, IN);
        }
        wait(&p, &mut ev, ZERO);
        let (mut x, mut y) = (0, 0);
        for e in ev.iter() {
            check(e.readable & ((e.key == 1) | (e.key == 2)), "the event is not that of a source");
            x += (e.key == 1) as u32;
            y += (e.key == 2) as u32;
        }
        let first = round == 0;
        check(x == (first | repeats(m, round == 2)) as u32, "a source is reported against its mode");
        check(y == (first | repeats(n, round == 2)) as u32, "a source is reported against its mode");
    }
    cover("done");
    check(delete(&p, a).is_ok(), "delete() fails");
    check(delete(&p, b).is_ok(), "delete() fails");
    finish(p);
}

struct Thing(RawFd);

impl AsRawFd for Thing {
    fn as_raw_fd(&self) -> RawFd {
        self.0
    }
}

impl AsFd for Thing {
    fn as_fd(&self) -> BorrowedFd<'_> {
        bfd(self.0)
    }
}

//# fn=c24_forms covers=done configs=epoll,pipe,poll,kqueue,kqueue-pipe,port | a source given as number, reference, borrowed descriptor or by value, and the same
//#   or another form in each later call, with and without a mode: all name the same source
#[no_mangle]
pub extern "C" fn c24_forms() {
    let p = any_poller();
    // The sources may have the numbers of closed standard streams.
    streams();
    let fd = source();
    let other = source();
    vkern::set_ready(other, IN);
    vkern::set_ready(fd, IN);
    let t = Thing(fd);
    let one_shot = PollMode::Oneshot;
    let e = Event::readable(3);
    let r = unsafe {
        match vx::below("add", 5) {
            0 => p.add(fd, e),
            1 => p.add(&t, e),
            2 => p.add(&bfd(fd), e),
            3 => p.add_with_mode(fd, e, one_shot),
            _ => p.add_with_mode(&t, e, one_shot),
        }
    };
    check(r.is_ok(), "add() fails");
    let mut ev = events(4);
    check(one(&p, &mut ev, 3), "a ready source is not reported");
    check(!one(&p, &mut ev, 3), "a one-shot source is reported twice");
    let e = Event::readable(4);
    let r = match vx::below("modify", 6) {
        0 => p.modify(&t, e),
        1 => p.modify(bfd(fd), e),
        2 => p.modify(&bfd(fd), e),
        3 => p.modify(Thing(fd), e),
        4 => p.modify_with_mode(&t, e, one_shot),
        _ => p.modify_with_mode(bfd(fd), e, one_shot),
    };
    check(r.is_ok(), "modify() fails");
    check(one(&p, &mut ev, 4), "a ready source is not reported");
    check(!one(&p, &mut ev, 4), "a one-shot source is reported twice");
    let again = vx::bool("modified before");
    if again {
        check(p.modify(&t, Event::readable(5)).is_ok(), "modify() fails");
    }
    let r = match vx::below("delete", 4) {
        0 => p.delete(&t),
        1 => p.delete(bfd(fd)),
        2 => p.delete(&bfd(fd)),
        _ => p.delete(Thing(fd)),
    };
    check(r.is_ok(), "delete() fails");
    check(wait(&p, &mut ev, ZERO) == 0, "a deleted source is reported");
    if !PORT {
        check(kind(&p.delete(&t)) == Some(io::ErrorKind::NotFound), "a source can be deleted twice");
    }
    cover("done");
    finish(p);
}
