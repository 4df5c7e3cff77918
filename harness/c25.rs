#[path = "common.rs"]
mod common;
use common::*;

/// What the documentation promises for one source.
#[derive(Clone, Copy)]
struct Source {
    fd: RawFd,
    /// Whether it is registered.
    reg: bool,
    want: Want,
    mode: PollMode,
    armed: bool,
    edge: bool,
    conds: u32,
}

impl Source {
    fn edged(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
    fn due(&self) -> u32 {
        if self.reg && self.armed && (self.edge || !self.edged()) {
            self.conds & self.want.must()
        } else {
            0
        }
    }
    fn delivered(&mut self) {
        self.edge = false;
        if matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot) {
            self.armed = false;
        }
    }
    fn arm(&mut self, want: Want, mode: PollMode) {
        self.reg = true;
        self.want = want;
        self.mode = mode;
        self.armed = true;
        self.edge = true;
    }
}

/// The whole poller.
struct Model {
    src: [Source; 2],
    /// A notification has not been seen by a wait.
    notified: bool,
    next: usize,
}

impl Model {
    fn want(&mut self) -> Want {
        self.next += 1;
        let r = vx::bool("readable");
        Want { key: self.next, r, w: !r | vx::bool("both"), pri: false, hup: false }
    }

    /// One wait with a container for `cap` events.
    fn wait(&mut self, p: &Poller, ev: &mut Events, cap: usize, t: Option<Duration>) {
        let due = self.src.iter().filter(|s| s.due() != 0).count();
        let t0 = vkern::now_exact();
        k().slept = false;
        let n = wait(p, ev, t);
        if (due > 0) | self.notified {
            check(!k().slept, "wait() sleeps although there is something to return for");
        } else {
            check(n == 0, "wait() reports events although no source is due");
            check(t == ZERO || elapsed(t0) >= t.unwrap(), "wait() returns before its timeout");
        }
        check(n <= due, "wait() reports more events than there are");
        // A notification may take up room, or end a wait before anything else is looked at.
        let room = match (POLL, self.notified) {
            (true, true) => 0,
            (true, false) => due,
            (false, x) => cap - x as usize,
        };
        check(n >= due.min(room), "wait() reports less than there is room for");
        check(POLL | (n <= cap), "wait() reports more events than there is room for");
        self.notified = false;
        for s in self.src.iter_mut() {
            let mut c = 0;
            for e in ev.iter() {
                if e.key == s.want.key {
                    c += 1;
                    check(s.reg, "a deleted source is reported");
                    check_decode(&e, s.conds & s.want.must(), s.conds & s.want.must());
                }
            }
            check(c <= 1, "one source gives several events in one wait()");
            if c == 1 {
                check(s.due() != 0, "a source is reported that is not due");
                s.delivered();
                cover("delivered");
            }
        }
        let keys = [self.src[0].want.key, self.src[1].want.key];
        for e in ev.iter() {
            check(keys.contains(&e.key), "an event has the key of no source");
        }
    }
}

fn history(steps: usize, caps: u32) {
    let p = any_poller();
    let w0 = Want { key: 0, r: false, w: false, pri: false, hup: false };
    let s0 = Source { fd: -1, reg: false, want: w0, mode: PollMode::Oneshot, armed: false, edge: false, conds: 0 };
    let mut m = Model { src: [s0; 2], notified: false, next: 0 };
    for s in m.src.iter_mut() {
        s.fd = source();
    }
    // One source in any mode, another one that stays level-triggered.
    let w = Want { key: 100, r: true, w: false, pri: false, hup: false };
    m.src[1].arm(w, PollMode::Level);
    check(add(&p, m.src[1].fd, w.event(), PollMode::Level).is_ok(), "add() fails");
    let w = m.want();
    let mode = any_mode();
    m.src[0].arm(w, mode);
    check(add(&p, m.src[0].fd, w.event(), mode).is_ok(), "add() fails");
    let cap = 1 + vx::below("capacity", caps) as usize;
    let mut ev = events(cap);
    for _ in 0..steps {
        match vx::below("operation", 8) {
            0 => {
                // Registered or not, add() and modify() do what fits.
                let w = m.want();
                let mode = any_mode();
                let s = &mut m.src[0];
                let r = if vx::bool("add") {
                    let r = add(&p, s.fd, w.event(), mode);
                    check(r.is_ok() != s.reg, "add() succeeds or fails wrongly");
                    r
                } else {
                    let r = modify(&p, s.fd, w.event(), mode);
                    check(r.is_ok() == s.reg, "modify() succeeds or fails wrongly");
                    r
                };
                if r.is_ok() {
                    s.arm(w, mode);
                }
            }
            1 => {
                let s = &mut m.src[0];
                check(delete(&p, s.fd).is_ok() == s.reg, "delete() succeeds or fails wrongly");
                s.reg = false;
            }
            2 => {
                let c = match vx::below("conditions", 4) {
                    0 => 0,
                    1 => IN,
                    2 => OUT,
                    _ => HUP,
                };
                let s = &mut m.src[0];
                vkern::set_ready(s.fd, c);
                s.conds = c;
                s.edge = true;
            }
            3 => {
                let s = &mut m.src[1];
                let c = if s.conds == 0 { IN } else { 0 };
                vkern::set_ready(s.fd, c);
                s.conds = c;
            }
            4 => {
                // The level-triggered source gets another key.
                m.next += 1;
                let s = &mut m.src[1];
                s.want.key = 100 + m.next;
                check(modify(&p, s.fd, s.want.event(), PollMode::Level).is_ok(), "modify() fails");
            }
            5 => {
                check(p.notify().is_ok(), "notify() fails");
                m.notified = true;
            }
            6 => m.wait(&p, &mut ev, cap, ZERO),
            _ => m.wait(&p, &mut ev, cap, Some(MS)),
        }
    }
    m.wait(&p, &mut ev, cap, ZERO);
    m.wait(&p, &mut ev, cap, ZERO);
    finish(p);
}

//# fn=c25_history covers=delivered configs=epoll,pipe,poll cost=60 | two sources, one in any mode and one level-triggered, a container for one or two
//#   events, every history of 3 steps out of {add, modify (to any mode and interest), delete, any condition of either source, a
//#   new key, notify, wait with timeout 0, with 1 ms}, then two waits
#[no_mangle]
pub extern "C" fn c25_history() {
    history(3, 2);
}

//# fn=c25_history_deep covers=delivered tier=thorough states=20000000 cost=300 | the same with 4 steps
#[no_mangle]
pub extern "C" fn c25_history_deep() {
    history(4, 2);
}
