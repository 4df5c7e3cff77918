// The backends for kqueue and event ports: what differs from the other harnesses.
#[path = "common.rs"]
mod common;
use common::*;
use vkern::sysno as sys;

const FAIL: &str = "an operation fails although no system call does";

/// What a wait delivered for `key`: number of events, readable, writable.
fn told(ev: &Events, key: usize) -> (u32, bool, bool) {
    let (mut n, mut r, mut w) = (0, false, false);
    for e in ev.iter() {
        if e.key == key {
            n += 1;
            r |= e.readable;
            w |= e.writable;
        }
    }
    (n, r, w)
}

#[no_mangle]
pub extern "C" fn bsd_events() {
    let p = poller();
    let mut ev = events(4);
    let fd = source();
    let key = any_key("key");
    let want = any_want(key);
    check(p.supports_level() != PORT, "supports_level() is wrong");
    check(p.supports_edge() != PORT, "supports_edge() is wrong");
    check(add(&p, fd, want.event(), any_mode()).is_ok(), FAIL);
    let c = vx::u16("conditions") as u32 & (IN | OUT | ERR | HUP | RDHUP | if PORT { PRI } else { 0 });
    vkern::set_ready(fd, c);
    let total = wait(&p, &mut ev, ZERO);
    let (n, r, w) = told(&ev, key);
    check(n as usize == total, "an event with another key");
    check(n <= if KQ { 2 } else { 1 }, "one source gives several events");
    if KQ {
        check(!(want.r & (c & IN != 0)) | r, "a readable source is not reported readable");
        check(!(want.w & (c & OUT != 0)) | w, "a writable source is not reported writable");
        check(!(want.r & (c & HUP != 0)) | r, "a hang-up is not reported to a reader");
        check(!(want.w & (c & HUP != 0)) | w, "a hang-up is not reported to a writer");
        check(!r | want.r & (c & (IN | HUP | ERR | RDHUP) != 0), "an event is readable although the source is not");
        let eof = want.r & (c & (HUP | RDHUP) != 0);
        check(!w | want.w & (c & (OUT | HUP | ERR) != 0) | eof, "an event is writable although the source is not");
    } else {
        let got = c & (sel(want.r, IN | PRI) | sel(want.w, OUT) | ERR | HUP);
        check((n == 1) == (got != 0), "a ready source is not reported, or one that is not ready is");
        if let Some(e) = ev.iter().next() {
            check_decode(&e, got, got);
            check(e.is_connect_failed() == Some(got & (ERR | HUP) == ERR | HUP), "is_connect_failed() is wrong");
        }
    }
    if n > 0 {
        cover("event");
    }
    check(delete(&p, fd).is_ok(), FAIL);
    check(wait(&p, &mut ev, ZERO) == 0, "a deleted source is reported");
    finish(p);
}

/// One direction of a source: `armed`, an `edge` of its own or of `any` kind since it was last reported.
#[derive(Clone, Copy)]
struct Dir {
    ready: bool,
    armed: bool,
    edge: bool,
    any: bool,
}

fn modes(steps: u32) {
    let p = poller();
    let mut ev = events(4);
    let fd = source();
    let mode = any_mode();
    check(add(&p, fd, Event::all(7), mode).is_ok(), FAIL);
    let new = Dir { ready: false, armed: true, edge: false, any: false };
    let mut d = [new; 2];
    let mut i = 0;
    while i < steps {
        i += 1;
        match vx::below("step", 6) {
            x @ (0 | 1) => {
                let x = x as usize;
                d[x].ready = true;
                vkern::set_ready(fd, sel(d[0].ready, IN) | sel(d[1].ready, OUT));
                d[x].edge = true;
                d[0].any = true;
                d[1].any = true;
            }
            x @ (2 | 3) => {
                let x = x as usize - 2;
                vkern::clear_ready(fd, [IN, OUT][x]);
                d[x].ready = false;
            }
            4 => {
                check(modify(&p, fd, Event::all(7), mode).is_ok(), FAIL);
                for x in d.iter_mut() {
                    *x = Dir { ready: x.ready, armed: true, edge: true, any: true };
                }
                cover("again");
            }
            _ => look(&p, &mut ev, &mut d, mode),
        }
    }
    look(&p, &mut ev, &mut d, mode);
    look(&p, &mut ev, &mut d, mode);
    check(delete(&p, fd).is_ok(), FAIL);
    finish(p);
}

fn look(p: &Poller, ev: &mut Events, d: &mut [Dir; 2], mode: PollMode) {
    let n = wait(p, ev, ZERO);
    let (c, r, w) = told(ev, 7);
    check(c as usize == n, "an event with another key");
    for (x, got) in d.iter_mut().zip([r, w]) {
        let (must, may) = match mode {
            PollMode::Level => (x.ready, x.ready),
            PollMode::Oneshot => (x.ready & x.armed, x.ready & x.armed),
            _ => (x.ready & x.edge & x.armed, x.ready & x.any & x.armed),
        };
        check(!must | got, "what is ready and armed is not reported");
        check(!got | may, "something is reported that is not ready or was reported before");
        if got {
            cover("reported");
            x.edge = false;
            x.any = false;
            x.armed = (mode == PollMode::Level) | (mode == PollMode::Edge);
        }
    }
    if PORT & (n > 0) {
        // The association ends with its first event.
        d[0].armed = false;
        d[1].armed = false;
    }
}

#[no_mangle]
pub extern "C" fn bsd_modes() {
    modes(4)
}

#[no_mangle]
pub extern "C" fn bsd_modes_deep() {
    modes(6)
}

#[derive(Clone, Copy)]
struct Reg {
    on: bool,
    want: Want,
    armed: [bool; 2],
}

fn history(steps: u32) {
    let p = poller();
    let mut ev = events(4);
    let fds = [source(), source()];
    let mode = [any_mode(), if PORT { PollMode::Oneshot } else { PollMode::Level }];
    let mut regs = [Reg { on: false, want: any_rw_none(), armed: [false; 2] }; 2];
    for f in fds {
        vkern::set_ready(f, IN | OUT);
    }
    let mut i = 0;
    while i < steps {
        i += 1;
        let op = vx::below("operation", 4);
        let j = if op < 3 { vx::below("source", 2) as usize } else { 0 };
        let want = if op < 2 { any_rw(2 * j + vx::bool("key") as usize) } else { any_rw_none() };
        match op {
            0 => {
                let r = add(&p, fds[j], want.event(), mode[j]);
                if regs[j].on & KQ {
                    check(
                        kind(&r) == Some(io::ErrorKind::AlreadyExists),
                        "add() of a registered source does not fail with AlreadyExists",
                    );
                    cover("twice");
                } else {
                    check(r.is_ok(), "add() of a new source fails");
                    regs[j] = Reg { on: true, want, armed: [true; 2] };
                }
            }
            1 => {
                let r = modify(&p, fds[j], want.event(), mode[j]);
                if regs[j].on | PORT {
                    check(r.is_ok(), "modify() of a registered source fails");
                    regs[j] = Reg { on: true, want, armed: [true; 2] };
                    cover("modified");
                } else {
                    check(
                        kind(&r) == Some(io::ErrorKind::NotFound),
                        "modify() of an unknown source does not fail with NotFound",
                    );
                }
            }
            2 => {
                let r = delete(&p, fds[j]);
                if regs[j].on | PORT {
                    check(r.is_ok(), "delete() of a registered source fails");
                    cover("deleted");
                } else {
                    check(
                        kind(&r) == Some(io::ErrorKind::NotFound),
                        "delete() of an unknown source does not fail with NotFound",
                    );
                }
                regs[j].on = false;
            }
            _ => compare(&p, &mut ev, &mut regs, &mode),
        }
    }
    compare(&p, &mut ev, &mut regs, &mode);
    compare(&p, &mut ev, &mut regs, &mode);
    finish(p);
}

fn any_rw_none() -> Want {
    Want { key: 0, r: false, w: false, pri: false, hup: false }
}

/// Everything is ready for reading and writing; what is delivered shows what is registered.
fn compare(p: &Poller, ev: &mut Events, regs: &mut [Reg; 2], mode: &[PollMode; 2]) {
    let n = wait(p, ev, ZERO);
    let mut total = 0;
    for (x, m) in regs.iter_mut().zip(mode) {
        if !x.on {
            continue;
        }
        let (c, r, w) = told(ev, x.want.key);
        total += c;
        check(r == x.want.r & x.armed[0], "the interest in reading is not the one of the last call");
        check(w == x.want.w & x.armed[1], "the interest in writing is not the one of the last call");
        if *m != PollMode::Level {
            x.armed[0] &= !r & !(PORT & w);
            x.armed[1] &= !w & !(PORT & r);
        }
    }
    check(total as usize == n, "an event for a source that is not registered");
}

#[no_mangle]
pub extern "C" fn bsd_history() {
    history(if KQ { 3 } else { 4 })
}

#[no_mangle]
pub extern "C" fn bsd_history_deep() {
    history(if KQ { 4 } else { 6 })
}

const SOME: u32 = 1 << sys::KEV_ADD | 1 << sys::KEVENT | 1 << sys::PORT_ASSOC | 1 << sys::PORT_GETN;

fn same(r: &io::Result<()>) {
    check(r.is_err(), "an operation hides the failure of a system call");
    check(
        r.as_ref().err().and_then(|e| e.raw_os_error()) == Some(k().last_errno),
        "an operation does not report the error of the system call",
    );
}

/// add(), modify(), wait() and again, of which up to `faults` fail.
#[no_mangle]
pub extern "C" fn bsd_failures() {
    let p = poller();
    let mut ev = events(4);
    let fd = source();
    let other = source();
    check(add(&p, other, Event::readable(9), PollMode::Oneshot).is_ok(), FAIL);
    let mode = any_mode();
    vkern::set_ready(fd, IN | OUT);
    k().fault_mask = SOME;
    k().faults = 2;
    let mut want = any_rw(7);
    let r = add(&p, fd, want.event(), mode);
    let mut on = true;
    if k().failed != 0 {
        cover("add");
        same(&r);
        on = false;
        k().failed = 0;
        let f = k().faults;
        k().faults = 0;
        check(wait(&p, &mut ev, ZERO) == 0, "a failed add() registers its source");
        if KQ {
            check(kind(&modify(&p, fd, want.event(), mode)) == Some(io::ErrorKind::NotFound), "a failed add() registers its source");
            check(kind(&delete(&p, fd)) == Some(io::ErrorKind::NotFound), "a failed add() registers its source");
        }
        k().faults = f;
        let r = add(&p, fd, want.event(), mode);
        if k().failed != 0 {
            same(&r);
        } else {
            check(r.is_ok(), "a source cannot be added after an add() that failed");
            on = true;
            cover("afterwards");
        }
    } else {
        check(r.is_ok(), FAIL);
    }
    k().failed = 0;
    if on {
        ev.clear();
        k().fault_mask = 1 << sys::KEVENT | 1 << sys::PORT_GETN;
        let r = p.wait(&mut ev, ZERO).map(|_| ());
        k().fault_mask = SOME;
        if k().failed != 0 {
            cover("wait");
            same(&r);
            check(ev.is_empty(), "a failed wait() delivers events");
            k().failed = 0;
            k().faults = 0;
            wait(&p, &mut ev, ZERO);
        }
        let (_, r, w) = told(&ev, 7);
        check((r == want.r) & (w == want.w), "a ready source is not reported");
        want = any_rw(8);
        let r = modify(&p, fd, want.event(), mode);
        if k().failed != 0 {
            cover("modify");
            same(&r);
        } else {
            check(r.is_ok(), FAIL);
            k().faults = 0;
            wait(&p, &mut ev, ZERO);
            let (_, r, w) = told(&ev, 8);
            check((r == want.r) & (w == want.w), "a ready source is not reported");
        }
        k().faults = 0;
        check(delete(&p, fd).is_ok(), FAIL);
    }
    k().faults = 0;
    check(wait(&p, &mut ev, ZERO) == 0, "an event for a source that is not registered");
    vkern::set_ready(other, IN);
    check(wait(&p, &mut ev, ZERO) == 1, "a failure disturbs another source");
    check(ev.iter().next().unwrap().key == 9, "a failure disturbs another source");
    finish(p);
}

/// Any failures of the system calls of Poller::new().
#[no_mangle]
pub extern "C" fn bsd_new() {
    k().faults = 2;
    k().fault_mask = !0;
    let r = Poller::new();
    k().faults = 0;
    k().fault_mask = 0;
    match r {
        Ok(p) => {
            check(k().failed == 0, "Poller::new() hides the failure of a system call");
            check(vkern::inheritable() == 0, "a descriptor of the poller leaks into child processes");
            cover("new");
            finish(p);
        }
        Err(e) => {
            cover("failed");
            check(k().failed != 0, "Poller::new() fails although no system call does");
            check(e.raw_os_error() == Some(k().last_errno), "Poller::new() does not report the error of the system call");
            check(vkern::open_fds() == 0, "a failed Poller::new() leaves descriptors open");
        }
    }
}

/// Modes that are not supported are refused and change nothing.
#[no_mangle]
pub extern "C" fn bsd_unsupported() {
    let p = poller();
    let mut ev = events(4);
    let fd = source();
    vkern::set_ready(fd, IN | OUT);
    let mode = match vx::below("mode", 3) {
        0 => PollMode::Level,
        1 => PollMode::Edge,
        _ => PollMode::EdgeOneshot,
    };
    let on = vx::bool("registered");
    if on {
        check(add(&p, fd, Event::readable(7), PollMode::Oneshot).is_ok(), FAIL);
    }
    let r = if vx::bool("modify") {
        modify(&p, fd, any_rw(8).event(), mode)
    } else {
        add(&p, fd, any_rw(8).event(), mode)
    };
    check(kind(&r) == Some(io::ErrorKind::Unsupported), "an unsupported mode is accepted");
    check(wait(&p, &mut ev, ZERO) == on as usize, "a refused call changes a registration");
    if on {
        cover("refused");
        check(told(&ev, 7) == (1, true, false), "a refused call changes a registration");
    }
    finish(p);
}

#[cfg(config = "kqueue")]
mod filters {
    use super::*;
    use polling::os::kqueue::{Filter, PollerKqueueExt, Process, ProcessOps, Signal, Timer};
    use vkern::bsd;

    /// Any history on one filter, of something that happens when `fire` is called.
    fn history<F: Filter>(p: &Poller, f: impl Fn() -> F, fire: impl Fn(), steps: u32)
    where
        Poller: PollerKqueueExt<F>,
    {
        let mut ev = events(4);
        let mode = any_mode();
        let once = (mode == PollMode::Oneshot) | (mode == PollMode::EdgeOneshot);
        let (mut on, mut armed, mut fired, mut key) = (false, false, false, 0);
        let mut i = 0;
        while i < steps {
            i += 1;
            match vx::below("operation", 5) {
                0 => {
                    let r = p.add_filter(f(), 10 + i as usize, mode);
                    if on {
                        check(kind(&r) == Some(io::ErrorKind::AlreadyExists), "a filter is added twice");
                    } else {
                        check(r.is_ok(), "add_filter() fails");
                        on = true;
                        armed = true;
                        fired = false;
                        key = 10 + i as usize;
                    }
                }
                1 => {
                    let r = p.modify_filter(f(), 10 + i as usize, mode);
                    if on {
                        check(r.is_ok(), "modify_filter() fails");
                        fired &= armed;
                        armed = true;
                        key = 10 + i as usize;
                    } else {
                        check(kind(&r) == Some(io::ErrorKind::NotFound), "an unknown filter is modified");
                    }
                }
                2 => {
                    let r = p.delete_filter(f());
                    if on {
                        check(r.is_ok(), "delete_filter() fails");
                    } else {
                        check(kind(&r) == Some(io::ErrorKind::NotFound), "an unknown filter is deleted");
                    }
                    on = false;
                    armed = false;
                }
                3 => {
                    fire();
                    fired = true;
                }
                _ => {
                    let n = wait(p, &mut ev, ZERO);
                    check(n == (armed & fired) as usize, "a filter is not reported, or wrongly");
                    if n == 1 {
                        cover("fired");
                        check(told(&ev, key) == (1, true, false), "a filter is reported wrongly");
                        fired = false;
                        armed &= !once;
                    }
                }
            }
        }
    }

    #[no_mangle]
    pub extern "C" fn bsd_signal() {
        let p = poller();
        history(&p, || Signal(2), || bsd::happen(bsd::Filter::Signal, 2, 0), 5);
        works(&p);
    }

    #[no_mangle]
    pub extern "C" fn bsd_process() {
        let p = poller();
        let (op, f) = match vx::below("operation", 3) {
            0 => (ProcessOps::Exit, bsd::NOTE_EXIT),
            1 => (ProcessOps::Fork, bsd::NOTE_FORK),
            _ => (ProcessOps::Exec, bsd::NOTE_EXEC),
        };
        let pid = core::num::NonZeroI32::new(77).unwrap();
        let g = || unsafe { Process::from_pid(pid, op) };
        let fire = || {
            // Others happen too.
            bsd::happen(bsd::Filter::Proc, 78, f);
            bsd::happen(bsd::Filter::Proc, 77, f ^ 0xe000_0000);
        };
        fire();
        history(&p, g, || bsd::happen(bsd::Filter::Proc, 77, f), 4);
        works(&p);
    }

    #[no_mangle]
    pub extern "C" fn bsd_others() {
        let p = poller();
        let mut ev = events(4);
        let (op, f) = match vx::below("operation", 3) {
            0 => (ProcessOps::Exit, bsd::NOTE_EXIT),
            1 => (ProcessOps::Fork, bsd::NOTE_FORK),
            _ => (ProcessOps::Exec, bsd::NOTE_EXEC),
        };
        let pid = core::num::NonZeroI32::new(77).unwrap();
        check(p.add_filter(unsafe { Process::from_pid(pid, op) }, 1, any_mode()).is_ok(), FAIL);
        check(p.add_filter(Signal(2), 2, any_mode()).is_ok(), FAIL);
        bsd::happen(bsd::Filter::Proc, 78, f);
        bsd::happen(bsd::Filter::Proc, 77, f ^ 0xe000_0000);
        bsd::happen(bsd::Filter::Signal, 3, 0);
        bsd::happen(bsd::Filter::Signal, 77, 0);
        check(wait(&p, &mut ev, ZERO) == 0, "a filter reports something else");
        bsd::happen(bsd::Filter::Signal, 2, 0);
        bsd::happen(bsd::Filter::Proc, 77, f);
        check(wait(&p, &mut ev, None) == 2, "a filter is not reported");
        check((told(&ev, 1).0 == 1) & (told(&ev, 2).0 == 1), "a filter is not reported");
        cover("both");
        finish(p);
    }

    /// A timer goes off once, not before its time, also when it is set again.
    #[no_mangle]
    pub extern "C" fn bsd_timer() {
        let p = poller();
        let mut ev = events(4);
        let key = any_key("key");
        let mut t = any_timeout();
        let mut t0 = vkern::now_exact();
        check(p.add_filter(Timer { id: 5, timeout: t }, key, PollMode::Oneshot).is_ok(), FAIL);
        let again = Timer { id: 5, timeout: t };
        check(kind(&p.add_filter(again, key, PollMode::Oneshot)) == Some(io::ErrorKind::AlreadyExists), "a timer is added twice");
        if vx::bool("modify") {
            t = any_timeout();
            t0 = vkern::now_exact();
            check(p.modify_filter(Timer { id: 5, timeout: t }, key, PollMode::Oneshot).is_ok(), FAIL);
            cover("modified");
        }
        check(wait(&p, &mut ev, None) == 1, "a timer does not go off");
        check(told(&ev, key) == (1, true, false), "a timer is reported wrongly");
        check(elapsed(t0) >= t, "a timer goes off too early");
        check(elapsed(t0) < t + MS, "a timer goes off too late");
        check(p.delete_filter(Timer { id: 5, timeout: t }).is_ok(), FAIL);
        check(kind(&p.delete_filter(Timer { id: 5, timeout: t })) == Some(io::ErrorKind::NotFound), "an unknown filter is deleted");
        finish(p);
    }
}
