//! The standard library with scheduling points: the crates under test are compiled against this
//! in place of `std` (and `core`).  Everything is re-exported; the atomics, locks and spinning
//! hints call the scheduler of the running thread, if it has one.
#![allow(deprecated, clippy::all)]

pub use ::std::*;

/// The link to the scheduler.
pub mod verif {
    use ::std::cell::Cell;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Point {
        /// Before an operation other threads can see.
        Op(&'static str),
        /// The thread waits for something another thread does.
        Wait,
    }

    ::std::thread_local! {
        static HOOK: Cell<Option<fn(Point)>> = const { Cell::new(None) };
        static SPURIOUS: Cell<Option<fn() -> bool>> = const { Cell::new(None) };
    }

    /// Sets the scheduler of this thread.
    pub fn set_hook(f: Option<fn(Point)>) {
        HOOK.with(|h| h.set(f));
    }

    /// Sets who decides whether a weak exchange fails without a reason.
    pub fn set_spurious(f: Option<fn() -> bool>) {
        SPURIOUS.with(|h| h.set(f));
    }

    #[inline]
    pub(crate) fn spurious() -> bool {
        match SPURIOUS.try_with(|h| h.get()) {
            Ok(Some(f)) => f(),
            _ => false,
        }
    }

    #[inline]
    pub fn point(p: Point) {
        if let Ok(Some(f)) = HOOK.try_with(|h| h.get()) {
            f(p)
        }
    }
}

pub mod collections {
    pub use ::std::collections::*;

    pub mod hash_map {
        pub use ::std::collections::hash_map::*;

        /// Without randomness, so that executions can be repeated.
        #[derive(Clone, Debug, Default)]
        pub struct RandomState(());

        impl RandomState {
            pub fn new() -> Self {
                RandomState(())
            }
        }

        impl ::std::hash::BuildHasher for RandomState {
            type Hasher = ::std::collections::hash_map::DefaultHasher;
            fn build_hasher(&self) -> Self::Hasher {
                DefaultHasher::new()
            }
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        crate::verif::point(crate::verif::Point::Wait)
    }
}

pub mod thread {
    pub use ::std::thread::*;

    pub fn yield_now() {
        crate::verif::point(crate::verif::Point::Wait)
    }

    pub fn sleep(_: ::std::time::Duration) {
        crate::verif::point(crate::verif::Point::Wait)
    }
}

pub mod sync {
    pub use ::std::sync::*;

    use crate::verif::{point, Point};
    use ::std::fmt;

    /// Waits by giving way to other threads.
    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(::std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }

    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            loop {
                match self.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => point(Point::Wait),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point(Point::Op("lock"));
            self.0.try_lock()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);

    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(::std::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }

    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            loop {
                match self.try_read() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => point(Point::Wait),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            loop {
                match self.try_write() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => point(Point::Wait),
                }
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            point(Point::Op("read lock"));
            self.0.try_read()
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            point(Point::Op("write lock"));
            self.0.try_write()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }

    /// Waits by giving way to other threads.
    pub struct OnceLock<T> {
        cell: ::std::sync::OnceLock<T>,
        busy: ::std::sync::atomic::AtomicBool,
    }

    /// Whoever initialises it, until done.
    struct Busy<'a>(&'a ::std::sync::atomic::AtomicBool);

    impl Drop for Busy<'_> {
        fn drop(&mut self) {
            self.0.store(false, ::std::sync::atomic::Ordering::SeqCst);
        }
    }

    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { cell: ::std::sync::OnceLock::new(), busy: ::std::sync::atomic::AtomicBool::new(false) }
        }
        pub fn get(&self) -> Option<&T> {
            point(Point::Op("once"));
            self.cell.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.cell.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let mut t = Some(t);
            self.get_or_init(|| t.take().unwrap());
            t.map_or(Ok(()), Err)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            loop {
                point(Point::Op("once"));
                if let Some(t) = self.cell.get() {
                    return t;
                }
                if !self.busy.swap(true, ::std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                point(Point::Wait);
            }
            let _busy = Busy(&self.busy);
            let t = f();
            self.cell.get_or_init(|| t)
        }
        pub fn into_inner(self) -> Option<T> {
            self.cell.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.cell.take()
        }
    }

    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            OnceLock::new()
        }
    }

    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.cell.fmt(f)
        }
    }

    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            OnceLock { cell: t.into(), busy: ::std::sync::atomic::AtomicBool::new(false) }
        }
    }

    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            OnceLock { cell: self.cell.clone(), busy: ::std::sync::atomic::AtomicBool::new(false) }
        }
    }

    impl<T: PartialEq> PartialEq for OnceLock<T> {
        fn eq(&self, o: &Self) -> bool {
            self.cell == o.cell
        }
    }

    impl<T: Eq> Eq for OnceLock<T> {}

    /// Waits by giving way to other threads.
    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: ::std::sync::Mutex<Option<F>>,
    }

    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), init: ::std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &LazyLock<T, F>) -> &T {
            this.cell.get_or_init(|| {
                let f = this.init.lock().unwrap().take().expect("not poisoned");
                f()
            })
        }
    }

    impl<T, F: FnOnce() -> T> ::std::ops::Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            LazyLock::force(self)
        }
    }

    impl<T: Default> Default for LazyLock<T> {
        fn default() -> Self {
            LazyLock::new(T::default)
        }
    }

    impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.cell.cell.fmt(f)
        }
    }

    /// Waits by giving way to other threads.
    pub struct Once(OnceLock<()>);

    impl Once {
        pub const fn new() -> Self {
            Once(OnceLock::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.get_or_init(f);
        }
        pub fn is_completed(&self) -> bool {
            self.0.get().is_some()
        }
    }

    impl fmt::Debug for Once {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Once")
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;

        use crate::verif::{point, Point};
        use ::std::fmt;

        pub fn spin_loop_hint() {
            point(Point::Wait)
        }

        macro_rules! common {
            ($name:ident $(<$p:ident>)?, $t:ty) => {
                // Whatever is not defined here is done without a scheduling point.
                impl $(<$p>)? ::std::ops::Deref for $name $(<$p>)? {
                    type Target = ::std::sync::atomic::$name $(<$p>)?;
                    fn deref(&self) -> &Self::Target {
                        &self.0
                    }
                }

                impl $(<$p>)? $name $(<$p>)? {
                    pub const fn new(v: $t) -> Self {
                        $name(::std::sync::atomic::$name::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    #[inline]
                    pub fn load(&self, o: Ordering) -> $t {
                        point(Point::Op("load"));
                        self.0.load(o)
                    }
                    #[inline]
                    pub fn store(&self, v: $t, o: Ordering) {
                        point(Point::Op("store"));
                        self.0.store(v, o)
                    }
                    #[inline]
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point(Point::Op("swap"));
                        self.0.swap(v, o)
                    }
                    #[inline]
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point(Point::Op("compare_exchange"));
                        self.0.compare_exchange(a, b, s, f)
                    }
                    #[inline]
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point(Point::Op("compare_exchange"));
                        if crate::verif::spurious() {
                            return Err(self.0.load(f));
                        }
                        self.0.compare_exchange(a, b, s, f)
                    }
                    #[inline]
                    pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                        point(Point::Op("compare_exchange"));
                        self.0.compare_and_swap(a, b, o)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut v = self.load(l);
                        while let Some(n) = f(v) {
                            match self.compare_exchange_weak(v, n, s, l) {
                                Ok(x) => return Ok(x),
                                Err(x) => v = x,
                            }
                        }
                        Err(v)
                    }
                    pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                        self.fetch_update(s, l, f)
                    }
                    pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, l: Ordering, mut f: F) -> $t {
                        self.fetch_update(s, l, |v| Some(f(v))).unwrap()
                    }
                }

                impl $(<$p>)? fmt::Debug for $name $(<$p>)? {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }

                impl $(<$p>)? From<$t> for $name $(<$p>)? {
                    fn from(v: $t) -> Self {
                        $name::new(v)
                    }
                }
            };
        }

        macro_rules! rmw {
            ($t:ty, $($f:ident)*) => {
                $(
                    #[inline]
                    pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        point(Point::Op(stringify!($f)));
                        self.0.$f(v, o)
                    }
                )*
            };
        }

        macro_rules! int {
            ($($name:ident $t:ty;)*) => {
                $(
                    #[derive(Default)]
                    #[repr(transparent)]
                    pub struct $name(::std::sync::atomic::$name);

                    common!($name, $t);

                    impl $name {
                        rmw!($t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
                    }
                )*
            };
        }

        int! {
            AtomicI8 i8;
            AtomicI16 i16;
            AtomicI32 i32;
            AtomicI64 i64;
            AtomicIsize isize;
            AtomicU8 u8;
            AtomicU16 u16;
            AtomicU32 u32;
            AtomicU64 u64;
            AtomicUsize usize;
        }

        #[derive(Default)]
        #[repr(transparent)]
        pub struct AtomicBool(::std::sync::atomic::AtomicBool);

        common!(AtomicBool, bool);

        impl AtomicBool {
            rmw!(bool, fetch_and fetch_nand fetch_or fetch_xor);

            pub fn fetch_not(&self, o: Ordering) -> bool {
                point(Point::Op("fetch_not"));
                self.0.fetch_xor(true, o)
            }
        }

        #[derive(Default)]
        #[repr(transparent)]
        pub struct AtomicPtr<T>(::std::sync::atomic::AtomicPtr<T>);

        common!(AtomicPtr<T>, *mut T);
    }
}
