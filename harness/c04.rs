#[path = "common.rs"]
mod common;
use common::*;

/// What the documentation of the four modes promises for one source.
#[derive(Clone, Copy)]
struct Model {
    fd: RawFd,
    want: Want,
    mode: PollMode,
    /// Still to be delivered in this arming (one-shot modes).
    armed: bool,
    /// New edge since the last delivery (edge modes).
    edge: bool,
    conds: u32,
}

impl Model {
    fn oneshot(&self) -> bool {
        matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
    }
    fn edged(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
    fn due(&self) -> u32 {
        if self.armed && (self.edge || !self.edged()) {
            self.conds & self.want.must()
        } else {
            0
        }
    }
    fn delivered(&mut self) {
        self.edge = false;
        if self.oneshot() {
            self.armed = false;
        }
    }
    fn arm(&mut self, want: Want, mode: PollMode) {
        self.want = want;
        self.mode = mode;
        self.armed = true;
        self.edge = true;
    }
}

fn wait_and_compare(p: &Poller, ev: &mut Events, ms: &mut [Model]) {
    wait(p, ev, ZERO);
    for s in ms.iter_mut() {
        let due = s.due();
        let mut c = 0;
        for e in ev.iter() {
            if e.key == s.want.key {
                c += 1;
                check_decode(&e, s.conds & s.want.must(), s.conds & s.want.must());
            }
        }
        check(c <= 1, "one source gives several events in one wait()");
        check(
            !(c == 1) | s.armed,
            "a one-shot source is reported again before it was re-armed",
        );
        check(
            !(c == 1) | s.edge | !s.edged(),
            "an edge-triggered source is reported again without a new edge",
        );
        check(!(c == 1) | (due != 0), "a source is reported that is not ready");
        check(!(due != 0) | (c == 1), "a source that is due is not reported");
        if c == 1 {
            s.delivered();
            cover("delivered");
        }
    }
}

fn history(nsrc: usize, steps: u32, extra: bool) {
    let p = any_poller();
    let mut ev = events(4);
    let w0 = Want { key: 0, r: false, w: false, pri: false, hup: false };
    let mut ms = [Model { fd: -1, want: w0, mode: PollMode::Oneshot, armed: false, edge: false, conds: 0 }; 2];
    let ms = &mut ms[..nsrc];
    let mut next = 1;
    for s in ms.iter_mut() {
        s.fd = source();
        let w = if extra { any_want(next) } else { any_rw(next) };
        s.arm(w, any_mode());
        next += 1;
        check(add(&p, s.fd, s.want.event(), s.mode).is_ok(), "add() fails");
    }
    let mut i = 0;
    while i < steps {
        i += 1;
        let j = if nsrc == 2 && vx::bool("which") { 1 } else { 0 };
        match vx::below("step", 4) {
            0 => {
                // New activity on the source.
                let c = any_conds5("conditions");
                assume(c != 0);
                ms[j].conds = c;
                ms[j].edge = true;
                vkern::set_ready(ms[j].fd, c);
            }
            1 => {
                // The user drains it.
                vkern::clear_ready(ms[j].fd, !0);
                ms[j].conds = 0;
            }
            2 => {
                let w = if extra { any_want(next) } else { any_rw(next) };
                next += 1;
                ms[j].arm(w, any_mode());
                check(modify(&p, ms[j].fd, w.event(), ms[j].mode).is_ok(), "modify() fails");
            }
            _ => {
                wait_and_compare(&p, &mut ev, ms);
            }
        }
    }
    wait_and_compare(&p, &mut ev, ms);
    wait_and_compare(&p, &mut ev, ms);
    release(p);
}

//# fn=c04_one covers=delivered cost=5 | one source, every mode, every history of 4 steps (new
//#   conditions, drained, modify() with any interest and mode, wait()) followed by two waits
#[no_mangle]
pub extern "C" fn c04_one() {
    history(1, 4, true)
}

//# fn=c04_two covers=delivered cost=10 | two sources, every mode, every history of 3 steps followed
//#   by two waits
#[no_mangle]
pub extern "C" fn c04_two() {
    history(2, 3, false)
}

//# fn=c04_deep covers=delivered cost=20 tier=thorough | one source, every history of 6 steps
//#   followed by two waits
#[no_mangle]
pub extern "C" fn c04_deep() {
    history(1, 6, true)
}

//# fn=c04_two_deep covers=delivered cost=20 tier=thorough | two sources, every history of 5 steps
//#   followed by two waits
#[no_mangle]
pub extern "C" fn c04_two_deep() {
    history(2, 5, false)
}
