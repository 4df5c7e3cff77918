//! `std` as the crate under test sees it: everything is the real library except the parts that
//! involve other threads, time, descriptors or hashing with random keys.
#![allow(static_mut_refs)]
pub use std::*;

pub mod time {
    pub use std::time::*;
    use core::ops::{Add, AddAssign, Sub, SubAssign};
    use vkern::Ts;

    /// Model of `std::time::Instant` (Linux: signed seconds and nanoseconds).
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub struct Instant(Ts);
    impl Instant {
        pub fn now() -> Instant {
            Instant(vkern::now())
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            if self.0 >= o.0 {
                let (s, ns) = self.0.since(o.0);
                Some(Duration::new(s, ns))
            } else {
                None
            }
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.saturating_duration_since(o)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            let (s, ns) = self.0.since(o.0);
            Duration::new(s, ns)
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now() - *self
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_plus(d.as_secs(), d.subsec_nanos()).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            let mut s = self.0.s.checked_sub_unsigned(d.as_secs())?;
            let mut ns = self.0.ns as i32 - d.subsec_nanos() as i32;
            if ns < 0 {
                ns += 1_000_000_000;
                s = s.checked_sub(1)?;
            }
            Some(Instant(Ts::new(s, ns as u32)))
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            self.checked_add(d).expect("overflow when adding duration to instant")
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d;
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            self.checked_sub(d).expect("overflow when subtracting duration from instant")
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            *self = *self - d;
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
}

pub mod thread {
    pub use std::thread::*;
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
    pub struct ThreadId(u32);
    #[derive(Clone, Debug)]
    pub struct Thread(ThreadId);
    impl Thread {
        pub fn id(&self) -> ThreadId {
            self.0
        }
        pub fn name(&self) -> Option<&str> {
            None
        }
    }
    pub fn current() -> Thread {
        Thread(ThreadId(vx::tid()))
    }
    pub fn yield_now() {
        vx::sched(100);
    }
    pub fn sleep(d: std::time::Duration) {
        vx::sched(100);
        let at = vkern::now_exact().plus(d.as_secs(), d.subsec_nanos());
        if d != std::time::Duration::ZERO && (!vkern::k().mt || vx::block_timed()) && vkern::k().clock < at {
            vkern::k().clock = at;
        }
    }
}

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        vx::sched(100);
    }
}

pub mod os {
    pub use std::os::*;
    pub mod fd {
        pub use std::os::fd::*;
        pub use vkern::OwnedFd;
    }
    pub mod unix {
        pub use std::os::unix::*;
        pub mod io {
            pub use std::os::unix::io::*;
            pub use vkern::OwnedFd;
        }
        pub mod prelude {
            pub use super::io::*;
        }
        pub mod net {
            pub use std::os::unix::net::*;
            use std::io::{Error, Read, Result, Write};
            use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, RawFd};
            use vkern::OwnedFd;

            /// One end of a pair of sockets, of which only the direction from the second to the first is modelled.
            #[derive(Debug)]
            pub struct UnixStream(OwnedFd);
            impl UnixStream {
                pub fn pair() -> Result<(UnixStream, UnixStream)> {
                    let (r, w) = vkern::sys_pipe(true, false, false).map_err(Error::from_raw_os_error)?;
                    unsafe { Ok((UnixStream(OwnedFd::from_raw_fd(r)), UnixStream(OwnedFd::from_raw_fd(w)))) }
                }
                pub fn set_nonblocking(&self, v: bool) -> Result<()> {
                    vkern::sys_setfl(self.as_raw_fd(), v).map_err(Error::from_raw_os_error)
                }
            }
            impl AsFd for UnixStream {
                fn as_fd(&self) -> BorrowedFd<'_> {
                    self.0.as_fd()
                }
            }
            impl AsRawFd for UnixStream {
                fn as_raw_fd(&self) -> RawFd {
                    self.0.as_raw_fd()
                }
            }
            impl Read for &UnixStream {
                fn read(&mut self, b: &mut [u8]) -> Result<usize> {
                    let (n, _) = vkern::sys_read(self.as_raw_fd(), b.len()).map_err(Error::from_raw_os_error)?;
                    Ok(n)
                }
            }
            impl Write for &UnixStream {
                fn write(&mut self, b: &[u8]) -> Result<usize> {
                    vkern::sys_write(self.as_raw_fd(), b.len(), 1).map_err(Error::from_raw_os_error)
                }
                fn flush(&mut self) -> Result<()> {
                    Ok(())
                }
            }
            impl Read for UnixStream {
                fn read(&mut self, b: &mut [u8]) -> Result<usize> {
                    (&*self).read(b)
                }
            }
            impl Write for UnixStream {
                fn write(&mut self, b: &[u8]) -> Result<usize> {
                    (&*self).write(b)
                }
                fn flush(&mut self) -> Result<()> {
                    Ok(())
                }
            }
        }
    }
}

pub mod sync {
    pub use std::sync::*;
    use core::cell::UnsafeCell;
    use core::fmt;
    use core::ops::{Deref, DerefMut};
    use std::time::Duration;

    pub struct Mutex<T: ?Sized> {
        held: UnsafeCell<bool>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: ?Sized> panic::UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> panic::RefUnwindSafe for Mutex<T> {}
    use std::panic;

    #[must_use]
    pub struct MutexGuard<'a, T: ?Sized> {
        m: &'a Mutex<T>,
        _not_send: core::marker::PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex { held: UnsafeCell::new(false), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard(&self) -> MutexGuard<'_, T> {
            MutexGuard { m: self, _not_send: core::marker::PhantomData }
        }
        fn acquire(&self) {
            unsafe {
                while *self.held.get() {
                    vx::block();
                }
                *self.held.get() = true;
            }
        }
        fn release(&self) {
            unsafe { *self.held.get() = false }
            vx::wake();
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            vx::sched(50);
            self.acquire();
            Ok(self.guard())
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            vx::sched(51);
            unsafe {
                if *self.held.get() {
                    return Err(TryLockError::WouldBlock);
                }
                *self.held.get() = true;
            }
            Ok(self.guard())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn clear_poison(&self) {}
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(v: T) -> Self {
            Mutex::new(v)
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.m.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.m.v.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            vx::sched(52);
            self.m.release();
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    const NW: usize = 4;
    /// Waiting threads are tokens in a queue; `notify_one` may wake any of them.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }

    pub struct Condvar {
        q: UnsafeCell<[u32; NW]>,
        n: UnsafeCell<usize>,
    }
    unsafe impl Send for Condvar {}
    unsafe impl Sync for Condvar {}
    impl Condvar {
        pub const fn new() -> Condvar {
            Condvar { q: UnsafeCell::new([0; NW]), n: UnsafeCell::new(0) }
        }
        fn pos(&self, me: u32) -> Option<usize> {
            unsafe {
                let q = &*self.q.get();
                let mut i = 0;
                while i < *self.n.get() {
                    if q[i] == me {
                        return Some(i);
                    }
                    i += 1;
                }
                None
            }
        }
        fn remove(&self, mut i: usize) {
            unsafe {
                let q = &mut *self.q.get();
                let n = &mut *self.n.get();
                while i + 1 < *n {
                    q[i] = q[i + 1];
                    i += 1;
                }
                *n -= 1;
                q[*n] = 0;
            }
        }
        fn park<T: ?Sized>(&self, m: &Mutex<T>, deadline: Option<vkern::Ts>) -> WaitTimeoutResult {
            let me = vx::tid() + 1;
            unsafe {
                let n = &mut *self.n.get();
                vx::check(*n < NW, "model bound: condvar waiters");
                (*self.q.get())[*n] = me;
                *n += 1;
            }
            m.release();
            let mut timeout = false;
            while self.pos(me).is_some() {
                if vkern::k().spurious > 0 && vx::bool("spurious") {
                    vkern::k().spurious -= 1;
                    self.leave(me);
                    break;
                }
                let k = vkern::k();
                match deadline {
                    Some(d) => {
                        if !k.mt || vx::block_timed() {
                            if k.clock < d {
                                k.clock = d;
                            }
                            timeout = true;
                            self.leave(me);
                            break;
                        }
                    }
                    None => {
                        if !k.mt {
                            if k.on_hang == vkern::Hang::Violation {
                                vx::check(false, "condition variable wait blocks forever");
                            }
                            vx::stop();
                        }
                        vx::block();
                    }
                }
            }
            m.acquire();
            WaitTimeoutResult(timeout)
        }
        fn leave(&self, me: u32) {
            if let Some(i) = self.pos(me) {
                self.remove(i);
            }
        }
        pub fn wait<'a, T: ?Sized>(
            &self,
            g: MutexGuard<'a, T>,
        ) -> LockResult<MutexGuard<'a, T>> {
            vx::sched(53);
            let m = g.m;
            core::mem::forget(g);
            self.park(m, None);
            Ok(m.guard())
        }
        pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut cond: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while cond(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn wait_timeout<'a, T: ?Sized>(
            &self,
            g: MutexGuard<'a, T>,
            d: Duration,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            vx::sched(53);
            let m = g.m;
            core::mem::forget(g);
            let at = vkern::now_exact().plus(d.as_secs(), d.subsec_nanos());
            let t = self.park(m, Some(at));
            Ok((m.guard(), t))
        }
        pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            d: Duration,
            mut cond: F,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let end = vkern::now_exact().plus(d.as_secs(), d.subsec_nanos());
            loop {
                if !cond(&mut *g) {
                    return Ok((g, WaitTimeoutResult(false)));
                }
                let now = vkern::now_exact();
                if now >= end {
                    return Ok((g, WaitTimeoutResult(true)));
                }
                let (s, ns) = end.since(now);
                g = self.wait_timeout(g, Duration::new(s, ns))?.0;
            }
        }
        pub fn notify_one(&self) {
            vx::sched(54);
            unsafe {
                let n = *self.n.get();
                if n > 0 {
                    let i = if n == 1 { 0 } else { vx::below("condvar", n as u32) as usize };
                    self.remove(i);
                    vx::wake();
                }
            }
        }
        pub fn notify_all(&self) {
            vx::sched(54);
            unsafe {
                while *self.n.get() > 0 {
                    self.remove(0);
                }
            }
            vx::wake();
        }
    }
    impl Default for Condvar {
        fn default() -> Self {
            Condvar::new()
        }
    }
    impl fmt::Debug for Condvar {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Condvar")
        }
    }

    /// Readers and a writer.
    pub struct RwLock<T: ?Sized> {
        st: UnsafeCell<i32>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock { st: UnsafeCell::new(0), v: UnsafeCell::new(v) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            vx::sched(50);
            unsafe {
                while *self.st.get() < 0 {
                    vx::block();
                }
                *self.st.get() += 1;
            }
            Ok(RwLockReadGuard(self))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            vx::sched(50);
            unsafe {
                while *self.st.get() != 0 {
                    vx::block();
                }
                *self.st.get() = -1;
            }
            Ok(RwLockWriteGuard(self))
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("RwLock")
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { *self.0.st.get() -= 1 }
            vx::wake();
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { *self.0.st.get() = 0 }
            vx::wake();
        }
    }

    pub mod atomic {
        //! Sequentially consistent atomics with a scheduling point before each operation.
        pub use std::sync::atomic::{compiler_fence, fence, Ordering};
        use core::cell::UnsafeCell;
        use core::fmt;

        macro_rules! common {
            ($name:ident, $t:ty) => {
                pub struct $name(UnsafeCell<$t>);
                unsafe impl Sync for $name {}
                unsafe impl Send for $name {}
                impl std::panic::RefUnwindSafe for $name {}
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(UnsafeCell::new(v))
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn as_ptr(&self) -> *mut $t {
                        self.0.get()
                    }
                    fn rmw<F: FnOnce($t) -> $t>(&self, f: F) -> $t {
                        vx::sched(60);
                        unsafe {
                            let old = *self.0.get();
                            *self.0.get() = f(old);
                            old
                        }
                    }
                    pub fn load(&self, _: Ordering) -> $t {
                        vx::sched(61);
                        unsafe { *self.0.get() }
                    }
                    pub fn store(&self, v: $t, _: Ordering) {
                        vx::sched(62);
                        unsafe { *self.0.get() = v }
                        vx::wake();
                    }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t {
                        let r = self.rmw(|_| v);
                        vx::wake();
                        r
                    }
                    pub fn compare_exchange(
                        &self,
                        cur: $t,
                        new: $t,
                        _: Ordering,
                        _: Ordering,
                    ) -> Result<$t, $t> {
                        vx::sched(63);
                        unsafe {
                            let old = *self.0.get();
                            if old == cur {
                                *self.0.get() = new;
                                Ok(old)
                            } else {
                                Err(old)
                            }
                        }
                    }
                    pub fn compare_exchange_weak(
                        &self,
                        cur: $t,
                        new: $t,
                        a: Ordering,
                        b: Ordering,
                    ) -> Result<$t, $t> {
                        self.compare_exchange(cur, new, a, b)
                    }
                    pub fn compare_and_swap(&self, cur: $t, new: $t, a: Ordering) -> $t {
                        self.compare_exchange(cur, new, a, a).unwrap_or_else(|x| x)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        _: Ordering,
                        _: Ordering,
                        mut f: F,
                    ) -> Result<$t, $t> {
                        let mut prev = self.load(Ordering::SeqCst);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange(
                                prev,
                                next,
                                Ordering::SeqCst,
                                Ordering::SeqCst,
                            ) {
                                Ok(x) => return Ok(x),
                                Err(x) => prev = x,
                            }
                        }
                        Err(prev)
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        f.write_str("Atomic")
                    }
                }
            };
        }
        macro_rules! int {
            ($name:ident, $t:ty) => {
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| x.wrapping_add(v))
                    }
                    pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| x.wrapping_sub(v))
                    }
                    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| x & v)
                    }
                    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| x | v)
                    }
                    pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| x ^ v)
                    }
                    pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| if x > v { x } else { v })
                    }
                    pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|x| if x < v { x } else { v })
                    }
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(0)
                    }
                }
            };
        }
        int!(AtomicUsize, usize);
        int!(AtomicIsize, isize);
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicI8, i8);
        int!(AtomicI16, i16);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);
        common!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
                self.rmw(|x| x & v)
            }
            pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
                self.rmw(|x| x | v)
            }
            pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
                self.rmw(|x| x ^ v)
            }
            pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
                self.rmw(|x| !(x & v))
            }
            pub fn fetch_not(&self, _: Ordering) -> bool {
                self.rmw(|x| !x)
            }
        }
        impl Default for AtomicBool {
            fn default() -> Self {
                Self::new(false)
            }
        }
    }
}

pub mod collections {
    pub use std::collections::*;
    pub mod hash_map {
        pub use super::map::*;
    }
    pub use map::HashMap;
    pub use map::HashSet;

    mod map {
        use core::borrow::Borrow;
        use core::fmt;
        use core::hash::Hash;
        use core::ops::Index;

        /// A map with no promise about order, kept as a vector.
        #[derive(Clone)]
        pub struct HashMap<K, V> {
            v: Vec<(K, V)>,
        }
        impl<K, V> HashMap<K, V> {
            pub const fn new() -> Self {
                HashMap { v: Vec::new() }
            }
            pub fn with_capacity(n: usize) -> Self {
                HashMap { v: Vec::with_capacity(n) }
            }
            pub fn len(&self) -> usize {
                self.v.len()
            }
            pub fn is_empty(&self) -> bool {
                self.v.is_empty()
            }
            pub fn clear(&mut self) {
                self.v.clear()
            }
            pub fn capacity(&self) -> usize {
                self.v.capacity()
            }
            pub fn iter(&self) -> impl ExactSizeIterator<Item = (&K, &V)> + Clone {
                self.v.iter().map(|e| (&e.0, &e.1))
            }
            pub fn iter_mut(&mut self) -> impl ExactSizeIterator<Item = (&K, &mut V)> {
                self.v.iter_mut().map(|e| (&e.0, &mut e.1))
            }
            pub fn keys(&self) -> impl ExactSizeIterator<Item = &K> + Clone {
                self.v.iter().map(|e| &e.0)
            }
            pub fn values(&self) -> impl ExactSizeIterator<Item = &V> + Clone {
                self.v.iter().map(|e| &e.1)
            }
            pub fn values_mut(&mut self) -> impl ExactSizeIterator<Item = &mut V> {
                self.v.iter_mut().map(|e| &mut e.1)
            }
            pub fn into_keys(self) -> impl Iterator<Item = K> {
                self.v.into_iter().map(|e| e.0)
            }
            pub fn into_values(self) -> impl Iterator<Item = V> {
                self.v.into_iter().map(|e| e.1)
            }
            pub fn drain(&mut self) -> std::vec::Drain<'_, (K, V)> {
                self.v.drain(..)
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                self.v.retain_mut(|e| f(&e.0, &mut e.1))
            }
        }
        impl<K: Eq + Hash, V> HashMap<K, V> {
            fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                let mut i = 0;
                while i < self.v.len() {
                    if self.v[i].0.borrow() == k {
                        return Some(i);
                    }
                    i += 1;
                }
                None
            }
            pub fn reserve(&mut self, n: usize) {
                self.v.reserve(n)
            }
            pub fn shrink_to_fit(&mut self) {}
            pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                self.pos(k).map(|i| &self.v[i].1)
            }
            pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                self.pos(k).map(|i| (&self.v[i].0, &self.v[i].1))
            }
            pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                self.pos(k).map(|i| &mut self.v[i].1)
            }
            pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.pos(k).is_some()
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.pos(&k) {
                    Some(i) => Some(core::mem::replace(&mut self.v[i].1, v)),
                    None => {
                        self.v.push((k, v));
                        None
                    }
                }
            }
            pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                self.remove_entry(k).map(|e| e.1)
            }
            pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                match self.pos(k) {
                    Some(i) => Some(self.v.swap_remove(i)),
                    None => None,
                }
            }
            pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
                match self.pos(&key) {
                    Some(i) => Entry::Occupied(OccupiedEntry { m: self, i, key }),
                    None => Entry::Vacant(VacantEntry { m: self, key }),
                }
            }
        }
        pub enum Entry<'a, K, V> {
            Occupied(OccupiedEntry<'a, K, V>),
            Vacant(VacantEntry<'a, K, V>),
        }
        pub struct OccupiedEntry<'a, K, V> {
            m: &'a mut HashMap<K, V>,
            i: usize,
            #[allow(dead_code)]
            key: K,
        }
        pub struct VacantEntry<'a, K, V> {
            m: &'a mut HashMap<K, V>,
            key: K,
        }
        impl<'a, K, V> OccupiedEntry<'a, K, V> {
            pub fn key(&self) -> &K {
                &self.m.v[self.i].0
            }
            pub fn get(&self) -> &V {
                &self.m.v[self.i].1
            }
            pub fn get_mut(&mut self) -> &mut V {
                &mut self.m.v[self.i].1
            }
            pub fn into_mut(self) -> &'a mut V {
                &mut self.m.v[self.i].1
            }
            pub fn insert(&mut self, v: V) -> V {
                core::mem::replace(&mut self.m.v[self.i].1, v)
            }
            pub fn remove(self) -> V {
                self.m.v.swap_remove(self.i).1
            }
            pub fn remove_entry(self) -> (K, V) {
                self.m.v.swap_remove(self.i)
            }
        }
        impl<'a, K, V> VacantEntry<'a, K, V> {
            pub fn key(&self) -> &K {
                &self.key
            }
            pub fn into_key(self) -> K {
                self.key
            }
            pub fn insert(self, v: V) -> &'a mut V {
                self.m.v.push((self.key, v));
                let n = self.m.v.len();
                &mut self.m.v[n - 1].1
            }
        }
        impl<'a, K, V> Entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V {
                self.or_insert_with(|| v)
            }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
                match self {
                    Entry::Occupied(e) => e.into_mut(),
                    Entry::Vacant(e) => e.insert(f()),
                }
            }
            pub fn or_default(self) -> &'a mut V
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }
            pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
                if let Entry::Occupied(e) = &mut self {
                    f(e.get_mut())
                }
                self
            }
            pub fn key(&self) -> &K {
                match self {
                    Entry::Occupied(e) => e.key(),
                    Entry::Vacant(e) => e.key(),
                }
            }
        }
        impl<K, V> Default for HashMap<K, V> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("HashMap")
            }
        }
        impl<K, V> IntoIterator for HashMap<K, V> {
            type Item = (K, V);
            type IntoIter = std::vec::IntoIter<(K, V)>;
            fn into_iter(self) -> Self::IntoIter {
                self.v.into_iter()
            }
        }
        impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
            type Item = (&'a K, &'a V);
            type IntoIter =
                core::iter::Map<core::slice::Iter<'a, (K, V)>, fn(&'a (K, V)) -> (&'a K, &'a V)>;
            fn into_iter(self) -> Self::IntoIter {
                self.v.iter().map(|e| (&e.0, &e.1))
            }
        }
        impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = core::iter::Map<
                core::slice::IterMut<'a, (K, V)>,
                fn(&'a mut (K, V)) -> (&'a K, &'a mut V),
            >;
            fn into_iter(self) -> Self::IntoIter {
                self.v.iter_mut().map(|e| (&e.0, &mut e.1))
            }
        }
        impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut m = Self::new();
                for (k, v) in it {
                    m.insert(k, v);
                }
                m
            }
        }
        impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> Index<&Q> for HashMap<K, V> {
            type Output = V;
            fn index(&self, k: &Q) -> &V {
                self.get(k).expect("no entry found for key")
            }
        }

        #[derive(Clone)]
        pub struct HashSet<K> {
            m: HashMap<K, ()>,
        }
        impl<K: Eq + Hash> HashSet<K> {
            pub const fn new() -> Self {
                HashSet { m: HashMap::new() }
            }
            pub fn with_capacity(n: usize) -> Self {
                HashSet { m: HashMap::with_capacity(n) }
            }
            pub fn insert(&mut self, k: K) -> bool {
                self.m.insert(k, ()).is_none()
            }
            pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.m.remove(k).is_some()
            }
            pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.m.contains_key(k)
            }
            pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&K>
            where
                K: Borrow<Q>,
            {
                self.m.get_key_value(k).map(|e| e.0)
            }
            pub fn replace(&mut self, k: K) -> Option<K> {
                let old = self.m.remove_entry(&k).map(|e| e.0);
                self.m.insert(k, ());
                old
            }
            pub fn take<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<K>
            where
                K: Borrow<Q>,
            {
                self.m.remove_entry(k).map(|e| e.0)
            }
            pub fn len(&self) -> usize {
                self.m.len()
            }
            pub fn is_empty(&self) -> bool {
                self.m.is_empty()
            }
            pub fn clear(&mut self) {
                self.m.clear()
            }
            pub fn iter(&self) -> impl ExactSizeIterator<Item = &K> + Clone {
                self.m.keys()
            }
        }
        impl<K> Default for HashSet<K> {
            fn default() -> Self {
                HashSet { m: HashMap::new() }
            }
        }
        impl<K: fmt::Debug> fmt::Debug for HashSet<K> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("HashSet")
            }
        }
    }
}
