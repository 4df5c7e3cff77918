//! The part of rustix 0.38 the crate can reach on Linux, over the model kernel.
#![allow(non_camel_case_types)]

/// A flag set with the interface of `bitflags` 2 (`const _ = !0`: all bits are known).
macro_rules! flags {
    ($(pub struct $name:ident: $t:ty { $($(#[$m:meta])* const $f:ident = $v:expr;)* })*) => { $(
        #[repr(transparent)]
        #[derive(Copy, Clone, Eq, PartialEq, Hash, Default)]
        pub struct $name($t);
        #[allow(dead_code)]
        impl $name {
            $($(#[$m])* pub const $f: $name = $name($v as $t);)*
            pub const fn empty() -> Self { $name(0) }
            pub const fn all() -> Self { $name(!0) }
            pub const fn bits(&self) -> $t { self.0 }
            pub const fn from_bits(b: $t) -> Option<Self> { Some($name(b)) }
            pub const fn from_bits_truncate(b: $t) -> Self { $name(b) }
            pub const fn from_bits_retain(b: $t) -> Self { $name(b) }
            pub const fn is_empty(&self) -> bool { self.0 == 0 }
            pub const fn is_all(&self) -> bool { self.0 == !0 }
            pub const fn intersects(&self, o: Self) -> bool { self.0 & o.0 != 0 }
            pub const fn contains(&self, o: Self) -> bool { self.0 & o.0 == o.0 }
            pub fn insert(&mut self, o: Self) { self.0 |= o.0 }
            pub fn remove(&mut self, o: Self) { self.0 &= !o.0 }
            pub fn toggle(&mut self, o: Self) { self.0 ^= o.0 }
            pub fn set(&mut self, o: Self, v: bool) { if v { self.insert(o) } else { self.remove(o) } }
            pub const fn intersection(self, o: Self) -> Self { $name(self.0 & o.0) }
            pub const fn union(self, o: Self) -> Self { $name(self.0 | o.0) }
            pub const fn difference(self, o: Self) -> Self { $name(self.0 & !o.0) }
            pub const fn symmetric_difference(self, o: Self) -> Self { $name(self.0 ^ o.0) }
            pub const fn complement(self) -> Self { $name(!self.0) }
        }
        impl core::ops::BitOr for $name { type Output = Self; fn bitor(self, o: Self) -> Self { $name(self.0 | o.0) } }
        impl core::ops::BitAnd for $name { type Output = Self; fn bitand(self, o: Self) -> Self { $name(self.0 & o.0) } }
        impl core::ops::BitXor for $name { type Output = Self; fn bitxor(self, o: Self) -> Self { $name(self.0 ^ o.0) } }
        impl core::ops::Sub for $name { type Output = Self; fn sub(self, o: Self) -> Self { $name(self.0 & !o.0) } }
        impl core::ops::Not for $name { type Output = Self; fn not(self) -> Self { $name(!self.0) } }
        impl core::ops::BitOrAssign for $name { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
        impl core::ops::BitAndAssign for $name { fn bitand_assign(&mut self, o: Self) { self.0 &= o.0 } }
        impl core::ops::BitXorAssign for $name { fn bitxor_assign(&mut self, o: Self) { self.0 ^= o.0 } }
        impl core::ops::SubAssign for $name { fn sub_assign(&mut self, o: Self) { self.0 &= !o.0 } }
        impl core::iter::FromIterator<$name> for $name {
            fn from_iter<I: IntoIterator<Item = $name>>(it: I) -> Self {
                let mut r = $name(0);
                for x in it { r |= x }
                r
            }
        }
        impl Extend<$name> for $name {
            fn extend<I: IntoIterator<Item = $name>>(&mut self, it: I) { for x in it { *self |= x } }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(stringify!($name)) }
        }
    )* };
}

pub mod fd {
    pub use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd};
    pub use vkern::OwnedFd;
}

pub mod io {
    use crate::fd::*;

    #[derive(Copy, Clone, Eq, PartialEq, Hash)]
    pub struct Errno(pub(crate) i32);
    pub type Result<T> = core::result::Result<T, Errno>;
    impl Errno {
        pub const PERM: Errno = Errno(1);
        pub const NOENT: Errno = Errno(2);
        pub const INTR: Errno = Errno(4);
        pub const IO: Errno = Errno(5);
        pub const BADF: Errno = Errno(9);
        pub const AGAIN: Errno = Errno(11);
        pub const WOULDBLOCK: Errno = Errno(11);
        pub const NOMEM: Errno = Errno(12);
        pub const ACCESS: Errno = Errno(13);
        pub const ACCES: Errno = Errno(13);
        pub const EXIST: Errno = Errno(17);
        pub const INVAL: Errno = Errno(22);
        pub const NFILE: Errno = Errno(23);
        pub const MFILE: Errno = Errno(24);
        pub const NOSPC: Errno = Errno(28);
        pub const PIPE: Errno = Errno(32);
        pub const NOSYS: Errno = Errno(38);
        pub const OPNOTSUPP: Errno = Errno(95);
        pub const NOTSUP: Errno = Errno(95);
        pub const TIME: Errno = Errno(62);
        pub const TIMEDOUT: Errno = Errno(110);
        pub const SRCH: Errno = Errno(3);
        pub const fn raw_os_error(self) -> i32 {
            self.0
        }
        pub const fn from_raw_os_error(e: i32) -> Errno {
            Errno(e)
        }
        pub fn from_io_error(e: &std::io::Error) -> Option<Errno> {
            e.raw_os_error().map(Errno)
        }
        pub fn kind(self) -> std::io::ErrorKind {
            std::io::Error::from(self).kind()
        }
    }
    impl From<Errno> for std::io::Error {
        fn from(e: Errno) -> std::io::Error {
            std::io::Error::from_raw_os_error(e.0)
        }
    }
    impl core::fmt::Debug for Errno {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Errno")
        }
    }
    impl core::fmt::Display for Errno {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Errno")
        }
    }
    impl std::error::Error for Errno {}

    flags! {
        pub struct FdFlags: u32 { const CLOEXEC = 1; }
    }
    pub fn fcntl_getfd<Fd: AsFd>(fd: Fd) -> Result<FdFlags> {
        match vkern::sys_getfd(fd.as_fd().as_raw_fd()) {
            Ok(c) => Ok(if c { FdFlags::CLOEXEC } else { FdFlags::empty() }),
            Err(e) => Err(Errno(e)),
        }
    }
    pub fn fcntl_setfd<Fd: AsFd>(fd: Fd, f: FdFlags) -> Result<()> {
        vkern::sys_setfd(fd.as_fd().as_raw_fd(), f.contains(FdFlags::CLOEXEC)).map_err(Errno)
    }
    pub fn read<Fd: AsFd>(fd: Fd, buf: &mut [u8]) -> Result<usize> {
        let (n, v) = vkern::sys_read(fd.as_fd().as_raw_fd(), buf.len()).map_err(Errno)?;
        if n == 8 && buf.len() >= 8 {
            buf[..8].copy_from_slice(&v.to_ne_bytes());
        }
        Ok(n)
    }
    pub fn write<Fd: AsFd>(fd: Fd, buf: &[u8]) -> Result<usize> {
        let mut v = [0u8; 8];
        if buf.len() >= 8 {
            v.copy_from_slice(&buf[..8]);
        }
        vkern::sys_write(fd.as_fd().as_raw_fd(), buf.len(), u64::from_ne_bytes(v)).map_err(Errno)
    }
    pub fn ioctl_fionbio<Fd: AsFd>(fd: Fd, v: bool) -> Result<()> {
        vkern::sys_setfl(fd.as_fd().as_raw_fd(), v).map_err(Errno)
    }
    pub fn ioctl_fioclex<Fd: AsFd>(fd: Fd) -> Result<()> {
        vkern::sys_setfd(fd.as_fd().as_raw_fd(), true).map_err(Errno)
    }
    pub unsafe fn close(fd: RawFd) {
        vkern::sys_close(fd)
    }
    pub fn retry_on_intr<T, F: FnMut() -> Result<T>>(mut f: F) -> Result<T> {
        loop {
            match f() {
                Err(Errno::INTR) => (),
                r => return r,
            }
        }
    }
}

pub mod fs {
    use crate::fd::*;
    use crate::io::{Errno, Result};
    flags! {
        pub struct OFlags: u32 { const NONBLOCK = 0o4000; const CLOEXEC = 0o2000000; const APPEND = 0o2000;
            const RDWR = 2; const WRONLY = 1; const DIRECT = 0o40000; }
    }
    pub fn fcntl_getfl<Fd: AsFd>(fd: Fd) -> Result<OFlags> {
        match vkern::sys_getfl(fd.as_fd().as_raw_fd()) {
            Ok(c) => Ok(if c { OFlags::NONBLOCK } else { OFlags::empty() }),
            Err(e) => Err(Errno(e)),
        }
    }
    pub fn fcntl_setfl<Fd: AsFd>(fd: Fd, f: OFlags) -> Result<()> {
        vkern::sys_setfl(fd.as_fd().as_raw_fd(), f.contains(OFlags::NONBLOCK)).map_err(Errno)
    }
}

pub mod pipe {
    use crate::fd::*;
    use crate::io::{Errno, Result};
    flags! {
        pub struct PipeFlags: u32 { const CLOEXEC = 0o2000000; const DIRECT = 0o40000; const NONBLOCK = 0o4000; }
    }
    fn own(p: core::result::Result<(i32, i32), i32>) -> Result<(OwnedFd, OwnedFd)> {
        let (r, w) = p.map_err(Errno)?;
        unsafe { Ok((OwnedFd::from_raw_fd(r), OwnedFd::from_raw_fd(w))) }
    }
    pub fn pipe() -> Result<(OwnedFd, OwnedFd)> {
        own(vkern::sys_pipe(false, false, false))
    }
    pub fn pipe_with(f: PipeFlags) -> Result<(OwnedFd, OwnedFd)> {
        own(vkern::sys_pipe(f.contains(PipeFlags::CLOEXEC), f.contains(PipeFlags::NONBLOCK), true))
    }
}

pub mod time {
    use crate::fd::*;
    use crate::io::{Errno, Result};
    flags! {
        pub struct TimerfdFlags: u32 { const NONBLOCK = 0o4000; const CLOEXEC = 0o2000000; }
        pub struct TimerfdTimerFlags: u32 { const ABSTIME = 1; const CANCEL_ON_SET = 2; }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(u32)]
    pub enum TimerfdClockId {
        Realtime = 0,
        Monotonic = 1,
        Boottime = 7,
        RealtimeAlarm = 8,
        BoottimeAlarm = 9,
    }
    #[derive(Copy, Clone, Debug)]
    pub enum ClockId {
        Realtime = 0,
        Monotonic = 1,
    }
    #[repr(C)]
    #[derive(Copy, Clone, Debug)]
    pub struct Timespec {
        pub tv_sec: i64,
        pub tv_nsec: i64,
    }
    #[repr(C)]
    #[derive(Copy, Clone, Debug)]
    pub struct Itimerspec {
        pub it_interval: Timespec,
        pub it_value: Timespec,
    }
    pub type Secs = i64;
    pub type Nsecs = i64;
    pub fn clock_gettime(_: ClockId) -> Timespec {
        let t = vkern::now();
        Timespec { tv_sec: t.s, tv_nsec: t.ns as i64 }
    }
    pub fn timerfd_create(clock: TimerfdClockId, f: TimerfdFlags) -> Result<OwnedFd> {
        vx::check(clock == TimerfdClockId::Monotonic || clock == TimerfdClockId::Boottime,
            "timeouts must be measured on a clock that cannot be set");
        let fd = vkern::sys_timerfd_create(
            f.contains(TimerfdFlags::CLOEXEC),
            f.contains(TimerfdFlags::NONBLOCK),
        )
        .map_err(Errno)?;
        unsafe { Ok(OwnedFd::from_raw_fd(fd)) }
    }
    pub fn timerfd_settime<Fd: AsFd>(
        fd: Fd,
        f: TimerfdTimerFlags,
        v: &Itimerspec,
    ) -> Result<Itimerspec> {
        vkern::sys_timerfd_settime(
            fd.as_fd().as_raw_fd(),
            v.it_value.tv_sec,
            v.it_value.tv_nsec,
            f.contains(TimerfdTimerFlags::ABSTIME),
        )
        .map_err(Errno)?;
        vx::check(v.it_interval.tv_sec == 0 && v.it_interval.tv_nsec == 0, "model bound: periodic timers");
        let z = Timespec { tv_sec: 0, tv_nsec: 0 };
        Ok(Itimerspec { it_interval: z, it_value: z })
    }
    pub fn timerfd_gettime<Fd: AsFd>(fd: Fd) -> Result<Itimerspec> {
        let (s, ns) = vkern::sys_timerfd_gettime(fd.as_fd().as_raw_fd()).map_err(Errno)?;
        Ok(Itimerspec {
            it_interval: Timespec { tv_sec: 0, tv_nsec: 0 },
            it_value: Timespec { tv_sec: s as i64, tv_nsec: ns as i64 },
        })
    }
}

pub mod process {
    pub fn getpid() -> u32 {
        1
    }
    #[derive(Copy, Clone, Eq, PartialEq, Debug, Hash)]
    pub struct Pid(core::num::NonZeroI32);
    impl Pid {
        pub fn from_child(c: &std::process::Child) -> Pid {
            Pid(core::num::NonZeroI32::new(c.id() as i32).unwrap())
        }
        pub const fn from_raw(p: i32) -> Option<Pid> {
            match core::num::NonZeroI32::new(p) {
                Some(p) => Some(Pid(p)),
                None => None,
            }
        }
        pub const unsafe fn from_raw_unchecked(p: i32) -> Pid {
            Pid(core::num::NonZeroI32::new_unchecked(p))
        }
        pub const fn as_raw_nonzero(self) -> core::num::NonZeroI32 {
            self.0
        }
        pub const fn as_raw(p: Option<Pid>) -> i32 {
            match p {
                Some(p) => p.0.get(),
                None => 0,
            }
        }
    }
    #[derive(Copy, Clone, Eq, PartialEq, Debug, Hash)]
    pub struct Signal(i32);
    impl Signal {
        pub fn from_raw(s: i32) -> Option<Signal> {
            if s >= 1 && s < 32 {
                Some(Signal(s))
            } else {
                None
            }
        }
        pub const fn as_raw(self) -> i32 {
            self.0
        }
    }
}

pub mod event {
    use crate::fd::*;
    use crate::io::{Errno, Result};
    flags! {
        pub struct EventfdFlags: u32 { const CLOEXEC = 0o2000000; const NONBLOCK = 0o4000; const SEMAPHORE = 1; }
        pub struct PollFlags: u16 {
            const IN = vkern::IN; const PRI = vkern::PRI; const OUT = vkern::OUT; const RDNORM = vkern::RDNORM;
            const WRNORM = vkern::WRNORM; const RDBAND = vkern::RDBAND; const WRBAND = vkern::WRBAND;
            const ERR = vkern::ERR; const HUP = vkern::HUP; const NVAL = vkern::NVAL; const RDHUP = vkern::RDHUP;
        }
    }
    pub fn eventfd(init: u32, f: EventfdFlags) -> Result<OwnedFd> {
        vx::check(!f.contains(EventfdFlags::SEMAPHORE), "model bound: semaphore eventfd");
        let fd = vkern::sys_eventfd(
            init,
            f.contains(EventfdFlags::CLOEXEC),
            f.contains(EventfdFlags::NONBLOCK),
        )
        .map_err(Errno)?;
        unsafe { Ok(OwnedFd::from_raw_fd(fd)) }
    }

    #[derive(Debug, Clone)]
    #[repr(C)]
    pub struct PollFd<'fd> {
        fd: BorrowedFd<'fd>,
        events: u16,
        revents: u16,
    }
    impl<'fd> PollFd<'fd> {
        pub fn new<Fd: AsFd>(fd: &'fd Fd, events: PollFlags) -> Self {
            Self::from_borrowed_fd(fd.as_fd(), events)
        }
        pub fn set_fd<Fd: AsFd>(&mut self, fd: &'fd Fd) {
            self.fd = fd.as_fd();
        }
        pub fn clear_revents(&mut self) {
            self.revents = 0;
        }
        pub fn from_borrowed_fd(fd: BorrowedFd<'fd>, events: PollFlags) -> Self {
            PollFd { fd, events: events.bits(), revents: 0 }
        }
        pub fn revents(&self) -> PollFlags {
            PollFlags::from_bits(self.revents).unwrap()
        }
    }
    impl AsFd for PollFd<'_> {
        fn as_fd(&self) -> BorrowedFd<'_> {
            self.fd.as_fd()
        }
    }
    pub fn poll(fds: &mut [PollFd<'_>], timeout: i32) -> Result<usize> {
        let (c, rev) = vkern::sys_poll(fds.len(), timeout, |i| (fds[i].fd.as_raw_fd(), fds[i].events))
            .map_err(Errno)?;
        let mut i = 0;
        while i < fds.len() {
            fds[i].revents = rev[i];
            i += 1;
        }
        Ok(c)
    }

    pub mod kqueue {
        use crate::fd::*;
        use crate::io::{Errno, Result};
        use crate::process::{Pid, Signal};
        use core::mem::MaybeUninit;
        use std::time::Duration;
        use vkern::bsd::{self, Filter, Kev};
        flags! {
            pub struct EventFlags: u16 {
                const ADD = bsd::ADD; const ENABLE = bsd::ENABLE; const DISABLE = bsd::DISABLE; const DELETE = bsd::DELETE;
                const RECEIPT = bsd::RECEIPT; const ONESHOT = bsd::EV_ONESHOT; const CLEAR = bsd::CLEAR;
                const EOF = bsd::EOF; const ERROR = bsd::ERROR;
            }
            pub struct VnodeEvents: u32 { const DELETE = 1; const WRITE = 2; }
            pub struct ProcessEvents: u32 { const EXIT = bsd::NOTE_EXIT; const FORK = bsd::NOTE_FORK; const EXEC = bsd::NOTE_EXEC; }
            pub struct UserFlags: u32 {
                const NOINPUT = 0; const AND = 0x40000000; const OR = 0x80000000u32; const COPY = 0xc0000000u32;
                const TRIGGER = 0x01000000;
            }
        }
        #[derive(Clone, Copy, Debug, Eq, PartialEq)]
        pub struct UserDefinedFlags(u32);
        impl UserDefinedFlags {
            pub fn new(f: u32) -> Self {
                UserDefinedFlags(f & 0xff_ffff)
            }
            pub fn get(self) -> u32 {
                self.0
            }
        }
        #[non_exhaustive]
        pub enum EventFilter {
            Read(RawFd),
            Write(RawFd),
            Vnode { vnode: RawFd, flags: VnodeEvents },
            Proc { pid: Pid, flags: ProcessEvents },
            Signal { signal: Signal, times: usize },
            Timer { ident: isize, timer: Option<Duration> },
            User { ident: isize, flags: UserFlags, user_flags: UserDefinedFlags },
            Unknown,
        }
        #[derive(Copy, Clone)]
        pub struct Event(Kev);
        impl Event {
            pub fn new(filter: EventFilter, flags: EventFlags, udata: isize) -> Event {
                let mut every = (0, 0);
                let (filter, ident, fflags) = match filter {
                    EventFilter::Read(fd) => (Filter::Read, fd as u64, 0),
                    EventFilter::Write(fd) => (Filter::Write, fd as u64, 0),
                    EventFilter::Proc { pid, flags } => (Filter::Proc, Pid::as_raw(Some(pid)) as u64, flags.bits()),
                    EventFilter::Signal { signal, .. } => (Filter::Signal, signal.as_raw() as u64, 0),
                    EventFilter::Timer { ident, timer } => {
                        every = match timer {
                            Some(t) => (t.as_secs(), t.subsec_nanos()),
                            None => (i64::MAX as u64, 0),
                        };
                        (Filter::Timer, ident as u64, 0)
                    }
                    EventFilter::User { ident, flags, user_flags } => {
                        (Filter::User, ident as u64, flags.bits() | user_flags.0)
                    }
                    _ => {
                        vx::check(false, "model bound: this kqueue filter");
                        vx::stop()
                    }
                };
                Event(Kev { filter, ident, flags: flags.bits(), fflags, data: 0, udata: udata as i64, every })
            }
            pub fn flags(&self) -> EventFlags {
                EventFlags(self.0.flags)
            }
            pub fn udata(&self) -> isize {
                self.0.udata as isize
            }
            pub fn data(&self) -> i64 {
                self.0.data
            }
            pub fn filter(&self) -> EventFilter {
                match self.0.filter {
                    Filter::Read => EventFilter::Read(self.0.ident as i32),
                    Filter::Write => EventFilter::Write(self.0.ident as i32),
                    Filter::Proc => EventFilter::Proc {
                        pid: Pid::from_raw(self.0.ident as i32).unwrap(),
                        flags: ProcessEvents(self.0.fflags),
                    },
                    Filter::Signal => EventFilter::Signal {
                        signal: Signal::from_raw(self.0.ident as i32).unwrap(),
                        times: self.0.data as usize,
                    },
                    Filter::Timer => EventFilter::Timer { ident: self.0.ident as isize, timer: None },
                    Filter::User => EventFilter::User {
                        ident: self.0.ident as isize,
                        flags: UserFlags(self.0.fflags),
                        user_flags: UserDefinedFlags::new(self.0.fflags),
                    },
                }
            }
        }
        pub fn kqueue() -> Result<OwnedFd> {
            let fd = bsd::sys_kqueue().map_err(Errno)?;
            unsafe { Ok(OwnedFd::from_raw_fd(fd)) }
        }
        pub unsafe fn kevent(
            kqueue: impl AsFd,
            changelist: &[Event],
            eventlist: &mut Vec<Event>,
            timeout: Option<Duration>,
        ) -> Result<usize> {
            eventlist.set_len(0);
            let buf: &mut [MaybeUninit<Event>] = eventlist.spare_capacity_mut();
            let max = buf.len();
            let n = bsd::sys_kevent(
                kqueue.as_fd().as_raw_fd(),
                changelist.len(),
                |i| changelist[i].0,
                max,
                timeout.map(|t| (t.as_secs() as i64, t.subsec_nanos() as i64)),
                |i, e| {
                    buf[i] = MaybeUninit::new(Event(e));
                },
            )
            .map_err(Errno)?;
            eventlist.set_len(n);
            Ok(n)
        }
    }

    pub mod port {
        use crate::event::PollFlags;
        use crate::fd::*;
        use crate::io::{Errno, Result};
        use core::ffi::c_void;
        use core::mem::MaybeUninit;
        use std::time::Duration;
        use vkern::bsd;
        #[derive(Copy, Clone)]
        pub struct Event(u32, u64);
        impl Event {
            pub fn events(&self) -> i32 {
                self.0 as i32
            }
            pub fn userdata(&self) -> *mut c_void {
                self.1 as *mut _
            }
        }
        pub fn port_create() -> Result<OwnedFd> {
            let fd = bsd::sys_port_create().map_err(Errno)?;
            unsafe { Ok(OwnedFd::from_raw_fd(fd)) }
        }
        pub unsafe fn port_associate_fd(
            port: impl AsFd,
            object: impl AsRawFd,
            events: PollFlags,
            user: *mut c_void,
        ) -> Result<()> {
            bsd::sys_port_associate(port.as_fd().as_raw_fd(), object.as_raw_fd(), events.bits() as u32, user as u64)
                .map_err(Errno)
        }
        pub unsafe fn port_dissociate_fd(port: impl AsFd, object: impl AsRawFd) -> Result<()> {
            bsd::sys_port_dissociate(port.as_fd().as_raw_fd(), object.as_raw_fd()).map_err(Errno)
        }
        pub fn port_getn(
            port: impl AsFd,
            events: &mut Vec<Event>,
            min_events: usize,
            timeout: Option<Duration>,
        ) -> Result<()> {
            vx::check(min_events == 1, "model bound: port_getn() for several events");
            events.clear();
            let timeout = timeout.map(|t| {
                let s: i64 = t.as_secs().try_into().unwrap();
                (s, t.subsec_nanos() as i64)
            });
            if events.capacity() == 0 {
                return Ok(());
            }
            let buf: &mut [MaybeUninit<Event>] = events.spare_capacity_mut();
            let max = buf.len();
            let n = bsd::sys_port_getn(port.as_fd().as_raw_fd(), max, timeout, |i, e, u| {
                buf[i] = MaybeUninit::new(Event(e, u));
            })
            .map_err(Errno)?;
            unsafe { events.set_len(n) };
            Ok(())
        }
        pub fn port_send(port: impl AsFd, _events: i32, user: *mut c_void) -> Result<()> {
            bsd::sys_port_send(port.as_fd().as_raw_fd(), user as u64).map_err(Errno)
        }
    }

    pub mod epoll {
        use crate::fd::*;
        use crate::io::{Errno, Result};
        use core::mem::MaybeUninit;
        flags! {
            pub struct CreateFlags: u32 { const CLOEXEC = 0o2000000; }
            pub struct EventFlags: u32 {
                const IN = vkern::IN; const OUT = vkern::OUT; const PRI = vkern::PRI; const ERR = vkern::ERR;
                const HUP = vkern::HUP; const RDNORM = vkern::RDNORM; const RDBAND = vkern::RDBAND;
                const WRNORM = vkern::WRNORM; const WRBAND = vkern::WRBAND; const MSG = 0x400;
                const RDHUP = vkern::RDHUP; const ET = vkern::ET; const ONESHOT = vkern::ONESHOT;
                const WAKEUP = vkern::WAKEUP; const EXCLUSIVE = vkern::EXCLUSIVE;
            }
        }
        #[repr(C, packed)]
        #[derive(Copy, Clone, Eq, PartialEq, Hash)]
        pub struct Event {
            pub flags: EventFlags,
            pub data: EventData,
        }
        #[repr(C)]
        #[derive(Copy, Clone, Eq, PartialEq, Hash)]
        pub struct EventData(u64);
        impl EventData {
            pub const fn new_u64(v: u64) -> Self {
                EventData(v)
            }
            pub fn u64(self) -> u64 {
                self.0
            }
            pub fn new_ptr(v: *mut core::ffi::c_void) -> Self {
                EventData(v as u64)
            }
            pub fn ptr(self) -> *mut core::ffi::c_void {
                self.0 as *mut _
            }
        }
        pub struct EventVec {
            events: Vec<Event>,
        }
        impl EventVec {
            pub fn with_capacity(n: usize) -> Self {
                EventVec { events: Vec::with_capacity(n) }
            }
            pub fn capacity(&self) -> usize {
                self.events.capacity()
            }
            pub fn reserve(&mut self, n: usize) {
                self.events.reserve(n)
            }
            pub fn clear(&mut self) {
                self.events.clear()
            }
            pub fn shrink_to_fit(&mut self) {
                self.events.shrink_to_fit()
            }
            pub fn iter(&self) -> Iter<'_> {
                Iter { iter: self.events.iter().copied() }
            }
            pub fn len(&self) -> usize {
                self.events.len()
            }
            pub fn is_empty(&self) -> bool {
                self.events.is_empty()
            }
        }
        impl<'a> IntoIterator for &'a EventVec {
            type IntoIter = Iter<'a>;
            type Item = Event;
            fn into_iter(self) -> Iter<'a> {
                self.iter()
            }
        }
        pub struct Iter<'a> {
            iter: core::iter::Copied<core::slice::Iter<'a, Event>>,
        }
        impl<'a> Iterator for Iter<'a> {
            type Item = Event;
            fn next(&mut self) -> Option<Event> {
                self.iter.next()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.iter.size_hint()
            }
        }
        pub fn create(f: CreateFlags) -> Result<OwnedFd> {
            let fd = vkern::sys_epoll_create(f.contains(CreateFlags::CLOEXEC)).map_err(Errno)?;
            unsafe { Ok(OwnedFd::from_raw_fd(fd)) }
        }
        fn ctl(ep: impl AsFd, op: vkern::Op, fd: impl AsFd, d: u64, f: u32) -> Result<()> {
            vkern::sys_epoll_ctl(ep.as_fd().as_raw_fd(), op, fd.as_fd().as_raw_fd(), f, d)
                .map_err(Errno)
        }
        pub fn add(ep: impl AsFd, fd: impl AsFd, d: EventData, f: EventFlags) -> Result<()> {
            ctl(ep, vkern::Op::Add, fd, d.0, f.bits())
        }
        pub fn modify(ep: impl AsFd, fd: impl AsFd, d: EventData, f: EventFlags) -> Result<()> {
            ctl(ep, vkern::Op::Mod, fd, d.0, f.bits())
        }
        pub fn delete(ep: impl AsFd, fd: impl AsFd) -> Result<()> {
            ctl(ep, vkern::Op::Del, fd, 0, 0)
        }
        pub fn wait(ep: impl AsFd, list: &mut EventVec, timeout: i32) -> Result<()> {
            list.events.clear();
            let buf: &mut [MaybeUninit<Event>] = list.events.spare_capacity_mut();
            let max = buf.len();
            let n = vkern::sys_epoll_wait(ep.as_fd().as_raw_fd(), max, timeout, |i, f, d| {
                buf[i] = MaybeUninit::new(Event { flags: EventFlags(f), data: EventData(d) });
            })
            .map_err(Errno)?;
            unsafe { list.events.set_len(n) };
            Ok(())
        }
    }
}
