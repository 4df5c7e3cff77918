//! kqueue and event ports, as their manual pages describe them.
//!
//! What the manual pages leave open: adding an event again changes its key and its parameters and looks at the
//! condition again, but EV_ONESHOT and EV_CLEAR stay as they were first given (as in the BSD kernels).

use super::*;

// ---------------------------------------------------------------- kqueue

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Filter {
    Read,
    Write,
    User,
    Timer,
    Signal,
    Proc,
}

pub const ADD: u16 = 0x1;
pub const DELETE: u16 = 0x2;
pub const ENABLE: u16 = 0x4;
pub const DISABLE: u16 = 0x8;
pub const EV_ONESHOT: u16 = 0x10;
pub const CLEAR: u16 = 0x20;
pub const RECEIPT: u16 = 0x40;
pub const NOTE_EXIT: u32 = 0x8000_0000;
pub const NOTE_FORK: u32 = 0x4000_0000;
pub const NOTE_EXEC: u32 = 0x2000_0000;
pub const ERROR: u16 = 0x4000;
pub const EOF: u16 = 0x8000;

/// A change or an event.
#[derive(Clone, Copy, Debug)]
pub struct Kev {
    pub filter: Filter,
    pub ident: u64,
    pub flags: u16,
    /// User: the event is triggered.  Proc: the operations.
    pub fflags: u32,
    pub data: i64,
    pub udata: i64,
    /// Timer: the period.
    pub every: (u64, u32),
}

const NOKEV: Kev =
    Kev { filter: Filter::Read, ident: 0, flags: 0, fflags: 0, data: 0, udata: 0, every: (0, 0) };

#[derive(Clone, Copy)]
struct Knote {
    used: bool,
    off: bool,
    /// User, Signal, Proc: happened so many times.
    hits: u32,
    timer: i8,
    k: Kev,
}

const NNOTES: usize = 12;

#[derive(Clone, Copy)]
struct Kq {
    notes: [Knote; NNOTES],
    /// Activated notes, in that order.
    nl: usize,
    list: [i8; NNOTES],
}

static mut KQS: [Kq; 2] = [Kq {
    notes: [Knote { used: false, off: false, hits: 0, timer: -1, k: NOKEV }; NNOTES],
    nl: 0,
    list: [-1; NNOTES],
}; 2];
static mut NKQS: u8 = 0;

fn kq(i: usize) -> &'static mut Kq {
    unsafe { &mut (*core::ptr::addr_of_mut!(KQS))[i] }
}

fn on_fd(f: Filter) -> bool {
    (f == Filter::Read) | (f == Filter::Write)
}

/// Whether the condition of the note holds.
fn holds(n: &Knote) -> bool {
    match n.k.filter {
        Filter::Read => ready(n.k.ident as i32) & (IN | RDNORM | RDHUP | HUP | ERR) != 0,
        Filter::Write => ready(n.k.ident as i32) & (OUT | WRNORM | HUP | ERR) != 0,
        Filter::Timer => k().timers[n.timer as usize].expired,
        _ => n.hits > 0,
    }
}

fn eof(n: &Knote) -> u16 {
    let m = match n.k.filter {
        Filter::Read => RDHUP | HUP,
        Filter::Write => HUP,
        _ => 0,
    };
    if m == 0 {
        return 0;
    }
    EOF & 0u16.wrapping_sub((ready(n.k.ident as i32) & m != 0) as u16)
}

/// Something `q` can report?
pub fn kq_ready(q: usize) -> bool {
    let q = kq(q);
    let mut i = 0;
    while i < q.nl {
        let n = &q.notes[q.list[i] as usize];
        if !n.off && holds(n) {
            return true;
        }
        i += 1;
    }
    false
}

fn activate(q: usize, i: usize) {
    let x = kq(q);
    let mut on = false;
    let mut j = 0;
    while j < x.nl {
        on |= x.list[j] == i as i8;
        j += 1;
    }
    if !on {
        x.list[x.nl] = i as i8;
        x.nl += 1;
    }
    edge_peer(Kind::Kqueue, q, IN);
    vx::wake();
}

fn deactivate(q: &mut Kq, i: usize) {
    let mut j = 0;
    while j < q.nl {
        if q.list[j] == i as i8 {
            while j + 1 < q.nl {
                q.list[j] = q.list[j + 1];
                j += 1;
            }
            q.nl -= 1;
            q.list[q.nl] = -1;
            return;
        }
        j += 1;
    }
}

fn drop_note(q: &mut Kq, i: usize) {
    deactivate(q, i);
    let t = q.notes[i].timer;
    if t >= 0 {
        k().timers[t as usize].armed = false;
    }
    q.notes[i] = Knote { used: false, off: false, hits: 0, timer: -1, k: NOKEV };
}

/// `fd` got a wake-up.
pub fn edge_fd(fd: i32) {
    let mut q = 0;
    while q < unsafe { NKQS } as usize {
        let mut i = 0;
        while i < NNOTES {
            let n = &kq(q).notes[i];
            if n.used && on_fd(n.k.filter) && n.k.ident == fd as u64 && !n.off && holds(n) {
                activate(q, i);
            }
            i += 1;
        }
        q += 1;
    }
    edge_ports(fd);
}

/// Timer `t` went off.
pub fn edge_timer(t: usize) {
    let mut q = 0;
    while q < unsafe { NKQS } as usize {
        let mut i = 0;
        while i < NNOTES {
            let n = &kq(q).notes[i];
            if n.used && n.timer == t as i8 && !n.off {
                activate(q, i);
            }
            i += 1;
        }
        q += 1;
    }
}

/// A signal arrives or a process does something.
pub fn happen(f: Filter, ident: u64, fflags: u32) {
    let mut q = 0;
    while q < unsafe { NKQS } as usize {
        let mut i = 0;
        while i < NNOTES {
            let n = &mut kq(q).notes[i];
            if n.used && n.k.filter == f && n.k.ident == ident && (f == Filter::Signal || n.k.fflags & fflags != 0)
            {
                n.hits += 1;
                if !n.off {
                    activate(q, i);
                }
            }
            i += 1;
        }
        q += 1;
    }
}

/// `fd` is closed.
pub fn forget_fd(fd: i32) {
    let mut q = 0;
    while q < unsafe { NKQS } as usize {
        let mut i = 0;
        while i < NNOTES {
            let n = &kq(q).notes[i];
            if n.used && on_fd(n.k.filter) && n.k.ident == fd as u64 {
                drop_note(kq(q), i);
            }
            i += 1;
        }
        q += 1;
    }
    let mut p = 0;
    while p < unsafe { NPORTS } as usize {
        dissociate(p, fd);
        p += 1;
    }
}

/// The queue itself is closed.
pub fn reset_kq(q: usize) {
    let mut i = 0;
    while i < NNOTES {
        if kq(q).notes[i].used {
            drop_note(kq(q), i);
        }
        i += 1;
    }
}

pub fn sys_kqueue() -> R<i32> {
    enter(sysno::KQUEUE, &[EMFILE, ENOMEM])?;
    let ix = unsafe { NKQS };
    unsafe { NKQS += 1 };
    install(Kind::Kqueue, ix, false, false)
}

fn change(q: usize, kqfd: i32, c: &Kev) -> R<()> {
    if c.flags & DELETE != 0 {
        enter(sysno::KEV_DELETE, &[])?;
    } else {
        enter(sysno::KEV_ADD, &[ENOMEM])?;
    }
    if on_fd(c.filter) {
        let f = get(c.ident as i32)?;
        if c.ident == kqfd as u64 || f.kind == Kind::File {
            return Err(EINVAL);
        }
    }
    let x = kq(q);
    let mut at = NNOTES;
    let mut free = NNOTES;
    let mut i = NNOTES;
    while i > 0 {
        i -= 1;
        if !x.notes[i].used {
            free = i;
        } else if x.notes[i].k.filter == c.filter && x.notes[i].k.ident == c.ident {
            at = i;
        }
    }
    if c.flags & ADD != 0 {
        if at == NNOTES {
            if free == NNOTES {
                vx::check(false, "model bound: too many kqueue events");
                return Err(ENOMEM);
            }
            at = free;
            x.notes[at] = Knote { used: true, off: false, hits: 0, timer: -1, k: *c };
        }
        let keep = x.notes[at].k.flags & (EV_ONESHOT | CLEAR);
        x.notes[at].k = *c;
        x.notes[at].k.flags = keep;
    } else if at == NNOTES {
        return Err(ENOENT);
    }
    if c.flags & DELETE != 0 {
        drop_note(x, at);
        return Ok(());
    }
    let n = &mut x.notes[at];
    if c.flags & ADD != 0 && c.filter == Filter::Timer {
        if n.timer < 0 {
            let k = k();
            vx::check(k.ntimers < 3, "model bound: too many timers");
            n.timer = k.ntimers as i8;
            k.ntimers += 1;
        }
        k().timers[n.timer as usize] =
            Timer { armed: true, at: now_exact().plus(c.every.0, c.every.1), expired: false };
        deactivate(x, at);
    }
    let n = &mut x.notes[at];
    if c.filter == Filter::User && c.fflags & 0x0100_0000 != 0 {
        n.hits = 1;
    }
    if c.flags & DISABLE != 0 {
        n.off = true;
    }
    if c.flags & ENABLE != 0 {
        n.off = false;
    }
    if !n.off {
        let src = on_fd(n.k.filter) && get(n.k.ident as i32).map_or(false, |f| f.kind == Kind::Source);
        // (The conditions of a source may be symbolic; what is not ready is left out later.)
        if if src { k().hot[n.k.ident as usize] } else { holds(n) } {
            activate(q, at);
        }
    }
    Ok(())
}

/// `timeout`: none or seconds and nanoseconds.
pub fn sys_kevent(
    kqfd: i32,
    changes: usize,
    list: impl Fn(usize) -> Kev,
    max: usize,
    timeout: Option<(i64, i64)>,
    mut out: impl FnMut(usize, Kev),
) -> R<usize> {
    let f = get(kqfd)?;
    if f.kind != Kind::Kqueue {
        return Err(EBADF);
    }
    let q = f.ix as usize;
    let mut n = 0;
    let mut i = 0;
    while i < changes {
        let c = list(i);
        let r = change(q, kqfd, &c);
        if r.is_err() || c.flags & RECEIPT != 0 {
            if n < max {
                let e = match r {
                    Ok(()) => 0,
                    Err(e) => e as i64,
                };
                out(n, Kev { flags: c.flags | ERROR, data: e, ..c });
                n += 1;
            } else if r.is_err() {
                return r.map(|()| 0);
            }
        }
        i += 1;
    }
    if n > 0 || max == 0 {
        return Ok(n);
    }
    enter(sysno::KEVENT, &[ENOMEM])?;
    let deadline = match timeout {
        None => None,
        Some((s, ns)) => {
            if s < 0 || ns < 0 || ns >= 1_000_000_000 {
                return Err(EINVAL);
            }
            Some(now_exact().plus(s as u64, ns as u32))
        }
    };
    let zero = timeout.map_or(false, |t| (t.0 == 0) & (t.1 == 0));
    loop {
        tick();
        let x = kq(q);
        let mut left = x.nl;
        while left > 0 && n < max {
            left -= 1;
            let i = x.list[0] as usize;
            deactivate(x, i);
            let note = x.notes[i];
            if note.off || !holds(&note) {
                continue;
            }
            let mut e = note.k;
            e.flags = (e.flags & (EV_ONESHOT | CLEAR)) | eof(&note);
            e.data = note.hits as i64;
            out(n, e);
            n += 1;
            if e.flags & EV_ONESHOT != 0 {
                drop_note(x, i);
                continue;
            }
            match e.filter {
                Filter::Timer => {
                    // Periodic.
                    let t = &mut k().timers[note.timer as usize];
                    t.expired = false;
                    t.at = t.at.plus(note.k.every.0, note.k.every.1);
                }
                Filter::Signal | Filter::Proc => x.notes[i].hits = 0,
                _ => {
                    if e.flags & CLEAR != 0 {
                        x.notes[i].hits = 0;
                    } else {
                        x.list[x.nl] = i as i8;
                        x.nl += 1;
                    }
                }
            }
        }
        if n > 0 || zero {
            return Ok(n);
        }
        match idle(deadline) {
            Idle::Recheck => {}
            Idle::Timeout => return Ok(0),
            Idle::Intr => return Err(EINTR),
        }
    }
}

// ---------------------------------------------------------------- event ports

#[derive(Clone, Copy)]
struct Assoc {
    used: bool,
    fd: i32,
    events: u32,
    user: u64,
}

const NASSOC: usize = 8;
const NSENT: usize = 8;

#[derive(Clone, Copy)]
struct Port {
    assocs: [Assoc; NASSOC],
    /// What happened, in that order: an association, or -2 for an event that was sent.
    nl: usize,
    list: [i8; NASSOC + NSENT],
    sent: u8,
    user: u64,
}

static mut PORTS: [Port; 2] = [Port {
    assocs: [Assoc { used: false, fd: -1, events: 0, user: 0 }; NASSOC],
    nl: 0,
    list: [-1; NASSOC + NSENT],
    sent: 0,
    user: 0,
}; 2];
static mut NPORTS: u8 = 0;

fn port(i: usize) -> &'static mut Port {
    unsafe { &mut (*core::ptr::addr_of_mut!(PORTS))[i] }
}

fn met(a: &Assoc) -> u32 {
    ready(a.fd) & (a.events | ERR | HUP) & 0xffff
}

fn take(p: &mut Port, mut j: usize) {
    while j + 1 < p.nl {
        p.list[j] = p.list[j + 1];
        j += 1;
    }
    p.nl -= 1;
    p.list[p.nl] = -1;
}

fn put(p: usize, i: i8) {
    let x = port(p);
    let mut on = false;
    let mut j = 0;
    while j < x.nl {
        on |= i >= 0 && x.list[j] == i;
        j += 1;
    }
    if !on {
        x.list[x.nl] = i;
        x.nl += 1;
    }
    edge_peer(Kind::Port, p, IN);
    vx::wake();
}

fn edge_ports(fd: i32) {
    let mut p = 0;
    while p < unsafe { NPORTS } as usize {
        let mut i = 0;
        while i < NASSOC {
            let a = &port(p).assocs[i];
            if a.used && a.fd == fd && met(a) != 0 {
                put(p, i as i8);
            }
            i += 1;
        }
        p += 1;
    }
}

pub fn port_ready(p: usize) -> bool {
    let x = port(p);
    let mut j = 0;
    while j < x.nl {
        if x.list[j] < 0 || met(&x.assocs[x.list[j] as usize]) != 0 {
            return true;
        }
        j += 1;
    }
    false
}

fn drop_assoc(x: &mut Port, i: usize) {
    x.assocs[i] = Assoc { used: false, fd: -1, events: 0, user: 0 };
    let mut j = 0;
    while j < x.nl {
        if x.list[j] == i as i8 {
            take(x, j);
            return;
        }
        j += 1;
    }
}

fn dissociate(p: usize, fd: i32) -> bool {
    let x = port(p);
    let mut i = 0;
    while i < NASSOC {
        if x.assocs[i].used && x.assocs[i].fd == fd {
            drop_assoc(x, i);
            return true;
        }
        i += 1;
    }
    false
}

pub fn reset_port(p: usize) {
    let x = port(p);
    let mut i = 0;
    while i < NASSOC {
        if x.assocs[i].used {
            drop_assoc(x, i);
        }
        i += 1;
    }
    while x.nl > 0 {
        take(x, 0);
    }
}

fn get_port(fd: i32) -> R<usize> {
    let f = get(fd)?;
    if f.kind == Kind::Port {
        Ok(f.ix as usize)
    } else {
        Err(EBADF)
    }
}

pub fn sys_port_create() -> R<i32> {
    enter(sysno::PORT_CREATE, &[EMFILE, ENOMEM])?;
    let ix = unsafe { NPORTS };
    unsafe { NPORTS += 1 };
    install(Kind::Port, ix, false, false)
}

pub fn sys_port_associate(pfd: i32, fd: i32, events: u32, user: u64) -> R<()> {
    enter(sysno::PORT_ASSOC, &[ENOMEM])?;
    let p = get_port(pfd)?;
    let f = get(fd)?;
    if f.kind == Kind::Port {
        return Err(EINVAL);
    }
    let x = port(p);
    let mut at = NASSOC;
    let mut i = NASSOC;
    while i > 0 {
        i -= 1;
        if !x.assocs[i].used {
            at = i;
        }
    }
    let mut i = 0;
    while i < NASSOC {
        if x.assocs[i].used && x.assocs[i].fd == fd {
            at = i;
        }
        i += 1;
    }
    if at == NASSOC {
        vx::check(false, "model bound: too many associations");
        return Err(ENOMEM);
    }
    drop_assoc(x, at);
    x.assocs[at] = Assoc { used: true, fd, events, user };
    let src = f.kind == Kind::Source;
    if if src { k().hot[fd as usize] } else { met(&x.assocs[at]) != 0 } {
        put(p, at as i8);
    }
    Ok(())
}

pub fn sys_port_dissociate(pfd: i32, fd: i32) -> R<()> {
    enter(sysno::PORT_DISSOC, &[])?;
    let p = get_port(pfd)?;
    if fd < 0 {
        return Err(EBADFD);
    }
    if dissociate(p, fd) {
        Ok(())
    } else {
        Err(ENOENT)
    }
}

pub fn sys_port_send(pfd: i32, user: u64) -> R<()> {
    enter(sysno::PORT_SEND, &[])?;
    let p = get_port(pfd)?;
    let x = port(p);
    if x.sent as usize == NSENT {
        return Err(EAGAIN);
    }
    x.sent += 1;
    x.user = user;
    put(p, -2);
    Ok(())
}

/// Events sent and not taken yet.
pub fn sent(p: usize) -> u8 {
    port(p).sent
}

/// Reports `out(i, events, user)`; fails with ETIME and no events when the timeout has elapsed.
pub fn sys_port_getn(
    pfd: i32,
    max: usize,
    timeout: Option<(i64, i64)>,
    mut out: impl FnMut(usize, u32, u64),
) -> R<usize> {
    enter(sysno::PORT_GETN, &[ENOMEM])?;
    let p = get_port(pfd)?;
    let deadline = match timeout {
        None => None,
        Some((s, ns)) => {
            if s < 0 || ns < 0 || ns >= 1_000_000_000 {
                return Err(EINVAL);
            }
            Some(now_exact().plus(s as u64, ns as u32))
        }
    };
    let zero = timeout.map_or(false, |t| (t.0 == 0) & (t.1 == 0));
    loop {
        tick();
        let x = port(p);
        let mut n = 0;
        let mut left = x.nl;
        while left > 0 && n < max {
            left -= 1;
            let i = x.list[0];
            take(x, 0);
            if i < 0 {
                x.sent -= 1;
                out(n, 0, x.user);
                n += 1;
                continue;
            }
            let a = x.assocs[i as usize];
            let r = met(&a);
            if r != 0 {
                out(n, r, a.user);
                n += 1;
                drop_assoc(x, i as usize);
            }
        }
        if n > 0 {
            return Ok(n);
        }
        if zero {
            return Err(ETIME);
        }
        match idle(deadline) {
            Idle::Recheck => {}
            Idle::Timeout => return Err(ETIME),
            Idle::Intr => return Err(EINTR),
        }
    }
}
