//! Compares the model kernel with the kernel of this machine: the same sequences of system calls on
//! both, all short ones and random long ones, must give the same results.
extern crate vkern;
use std::os::raw::{c_int, c_long, c_void};
use vkern as m;

// What the model needs from the engine: one thread, nothing chosen, never asleep.
#[no_mangle] extern "C" fn vx_sym(_: *const u8, _: usize, _: u32) -> u64 { 0 }
#[no_mangle] extern "C" fn vx_assume(c: u32) { assert!(c != 0) }
#[no_mangle] extern "C" fn vx_assert(c: u32, p: *const u8, n: usize) {
    assert!(c != 0, "{}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }))
}
#[no_mangle] extern "C" fn vx_cover(_: *const u8, _: usize) {}
#[no_mangle] extern "C" fn vx_observe(_: u64) {}
#[no_mangle] extern "C" fn vx_yield(_: u32) {}
#[no_mangle] extern "C" fn vx_block(_: u32) -> u32 { panic!("asleep") }
#[no_mangle] extern "C" fn vx_wake() {}
#[no_mangle] extern "C" fn vx_spawn(_: extern "C" fn(usize), _: usize) -> u32 { panic!() }
#[no_mangle] extern "C" fn vx_join(_: u32) { panic!() }
#[no_mangle] extern "C" fn vx_tid() -> u32 { 0 }
#[no_mangle] extern "C" fn vx_stop() -> ! { panic!() }

#[repr(C, packed)]
#[derive(Clone, Copy)]
struct EpEv { events: u32, data: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
struct PollFd { fd: c_int, events: i16, revents: i16 }
extern "C" {
    fn epoll_create1(f: c_int) -> c_int;
    fn epoll_ctl(e: c_int, op: c_int, fd: c_int, ev: *mut EpEv) -> c_int;
    fn epoll_wait(e: c_int, ev: *mut EpEv, n: c_int, t: c_int) -> c_int;
    fn eventfd(i: u32, f: c_int) -> c_int;
    fn pipe2(p: *mut c_int, f: c_int) -> c_int;
    fn fcntl(fd: c_int, c: c_int, ...) -> c_int;
    fn timerfd_create(c: c_int, f: c_int) -> c_int;
    fn timerfd_settime(fd: c_int, f: c_int, n: *const [c_long; 4], o: *mut [c_long; 4]) -> c_int;
    fn read(fd: c_int, p: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, p: *const c_void, n: usize) -> isize;
    fn poll(p: *mut PollFd, n: u64, t: c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
}
fn errno() -> i64 { -(std::io::Error::last_os_error().raw_os_error().unwrap() as i64) }
const NB: c_int = 0o4000;
const PAGE: usize = 4096;

/// Objects: 0 = epoll, 1 = second epoll, 2 = eventfd, 3 = pipe (read), 4 = pipe (write), 5 = timer, 6 = not open.
const A: usize = 0;
const B: usize = 1;
const E: usize = 2;
const R: usize = 3;
const W: usize = 4;
const T: usize = 5;

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize, usize, u32),
    Mod(usize, usize, u32),
    Del(usize, usize),
    Wait(usize, usize),
    Poll(u32),
    Read(usize, usize),
    Write(usize, usize),
    Arm(i64),
    Close(usize),
}
use Op::*;

type Out = (i64, Vec<(u64, u32)>);

fn real(f: &mut [c_int; 7], op: Op) -> Out {
    unsafe {
        let e = |r: i64| if r < 0 { errno() } else { r };
        let ctl = |o, p: usize, x: usize, ev| {
            let mut s = EpEv { events: ev, data: x as u64 };
            e(epoll_ctl(f[p], o, f[x], &mut s) as i64)
        };
        match op {
            Add(p, x, ev) => (ctl(1, p, x, ev), vec![]),
            Mod(p, x, ev) => (ctl(3, p, x, ev), vec![]),
            Del(p, x) => (ctl(2, p, x, 0), vec![]),
            Wait(p, max) => {
                let mut b = [EpEv { events: 0, data: 0 }; 8];
                let n = e(epoll_wait(f[p], b.as_mut_ptr(), max as c_int, 0) as i64);
                (n, (0..n.max(0) as usize).map(|i| (b[i].data, b[i].events)).collect())
            }
            Poll(ev) => {
                let mut p: Vec<PollFd> = f.iter().map(|&fd| PollFd { fd, events: ev as i16, revents: 0 }).collect();
                let n = e(poll(p.as_mut_ptr(), 7, 0) as i64);
                (n, p.iter().enumerate().map(|(i, p)| (i as u64, p.revents as u16 as u32)).collect())
            }
            Read(x, n) => {
                let mut b = [0u8; PAGE];
                (e(read(f[x], b.as_mut_ptr().cast(), n) as i64), vec![])
            }
            Write(x, n) => {
                let mut b = [0u8; PAGE];
                b[0] = 1;
                (e(write(f[x], b.as_ptr().cast(), n) as i64), vec![])
            }
            Arm(ns) => {
                let v = [0, 0, 0, ns];
                (e(timerfd_settime(f[T], 1, &v, std::ptr::null_mut()) as i64), vec![])
            }
            Close(x) => {
                if f[x] >= 0 { close(f[x]); f[x] = -1; }
                (0, vec![])
            }
        }
    }
}

fn model(f: &mut [i32; 7], op: Op) -> Out {
    let e = |r: Result<i64, i32>| match r { Ok(v) => v, Err(e) => -(e as i64) };
    let ctl = |o, p: usize, x: usize, ev| e(m::sys_epoll_ctl(f[p], o, f[x], ev, x as u64).map(|_| 0));
    match op {
        Add(p, x, ev) => (ctl(m::Op::Add, p, x, ev), vec![]),
        Mod(p, x, ev) => (ctl(m::Op::Mod, p, x, ev), vec![]),
        Del(p, x) => (ctl(m::Op::Del, p, x, 0), vec![]),
        Wait(p, max) => {
            let mut v = vec![];
            let n = e(m::sys_epoll_wait(f[p], max, 0, |_, ev, d| v.push((d, ev))).map(|n| n as i64));
            (n, v)
        }
        Poll(ev) => {
            let fds = *f;
            match m::sys_poll(7, 0, |i| (fds[i], ev as u16)) {
                Ok((n, r)) => (n as i64, (0..7).map(|i| (i as u64, r[i] as u32)).collect()),
                Err(e) => (-(e as i64), vec![]),
            }
        }
        Read(x, n) => (e(m::sys_read(f[x], n).map(|v| v.0 as i64)), vec![]),
        Write(x, n) => (e(m::sys_write(f[x], n, 1).map(|v| v as i64)), vec![]),
        Arm(ns) => (e(m::sys_timerfd_settime(f[T], 0, ns, true).map(|_| 0)), vec![]),
        Close(x) => {
            if f[x] >= 0 { m::sys_close(f[x]); f[x] = -1; }
            (0, vec![])
        }
    }
}

fn setup() -> ([c_int; 7], [i32; 7]) {
    unsafe {
        let mut p = [0; 2];
        assert_eq!(pipe2(p.as_mut_ptr(), NB), 0);
        fcntl(p[0], 1031, PAGE as c_int);
        let r = [epoll_create1(0), epoll_create1(0), eventfd(0, NB), p[0], p[1], timerfd_create(1, NB), -1];
        m::k().pipe_cap = PAGE as u32;
        let a = m::sys_epoll_create(true).unwrap();
        let b = m::sys_epoll_create(true).unwrap();
        let ev = m::sys_eventfd(0, true, true).unwrap();
        let (pr, pw) = m::sys_pipe(true, true, true).unwrap();
        (r, [a, b, ev, pr, pw, m::sys_timerfd_create(true, true).unwrap(), -1])
    }
}

fn run(fresh: &m::Kernel, seq: &[Op]) {
    unsafe { std::ptr::copy_nonoverlapping(fresh, m::k(), 1) };
    let (mut r, mut f) = setup();
    for i in 0..seq.len() {
        let mut a = real(&mut r, seq[i]);
        let mut b = model(&mut f, seq[i]);
        if seq.iter().any(|o| matches!(o, Add(A, B, _) | Poll(_))) {
            // The order of the ready list is not modelled where one event arrives at two nested
            // pollers, and where poll() on a poller takes items off the list that are no longer ready.
            if matches!(seq[i], Wait(A, 1)) {
                break;
            }
            a.1.sort();
            b.1.sort();
        }
        if a != b {
            println!("DIFFERENT: {:?}\n  kernel {:x?}\n  model  {:x?}", &seq[..=i], a, b);
            std::process::exit(1);
        }
    }
    for x in r { if x >= 0 { unsafe { close(x); } } }
}

fn main() {
    let depth: usize = std::env::args().nth(1).map_or(3, |s| s.parse().unwrap());
    let random: usize = std::env::args().nth(2).map_or(100_000, |s| s.parse().unwrap());
    let fresh = unsafe { std::ptr::read(m::k()) };
    let mut ops = vec![];
    const FLAGS: [u32; 7] = [m::IN, m::OUT, 0, m::IN | m::OUT | m::ONESHOT, m::IN | m::OUT | m::RDNORM | m::ET,
        m::IN | m::ET | m::ONESHOT, m::RDNORM | m::RDHUP];
    for x in [E, R, W, T, B, 6] {
        for (i, ev) in FLAGS.iter().enumerate() {
            ops.push(Add(A, x, *ev));
            if i % 2 == 1 { ops.push(Mod(A, x, *ev)); }
        }
        ops.push(Del(A, x));
    }
    ops.extend([Add(B, E, m::IN), Add(B, R, m::IN | m::ET), Mod(B, E, m::IN | m::ONESHOT), Del(B, E)]);
    ops.extend([Wait(A, 1), Wait(A, 8), Wait(B, 8), Wait(E, 8), Wait(A, 0)]);
    ops.extend([Poll(m::IN | m::OUT), Poll(0), Poll(0xffff & !m::NVAL)]);
    ops.extend([Read(E, 8), Read(E, 4), Write(E, 8), Read(R, PAGE), Write(W, PAGE), Read(T, 8), Read(6, 8), Write(6, 1)]);
    ops.extend([Arm(1), Arm(0), Arm(-1), Close(E), Close(W), Close(R), Close(T), Close(B)]);
    let n = ops.len();
    let mut seqs = 0u64;
    for d in 1..=depth {
        let mut ix = vec![0; d];
        'all: loop {
            let seq: Vec<Op> = ix.iter().map(|&i| ops[i]).collect();
            run(&fresh, &seq);
            seqs += 1;
            let mut j = d;
            loop {
                if j == 0 { break 'all; }
                j -= 1;
                ix[j] += 1;
                if ix[j] < n { break; }
                ix[j] = 0;
            }
        }
    }
    let mut s = 0x9e3779b97f4a7c15u64;
    for _ in 0..random {
        let seq: Vec<Op> = (0..16).map(|_| {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            ops[(s >> 20) as usize % n]
        }).collect();
        run(&fresh, &seq);
        seqs += 1;
    }
    println!("{} sequences of system calls agree ({} operations)", seqs, n);
}
