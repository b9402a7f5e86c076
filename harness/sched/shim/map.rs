//! The standard library with scheduling points, as the concurrent map sees it: its atomics are its
//! locks, and giving up a lock needs no scheduling point (the one before the next operation will
//! do, as nobody can tell the difference).
#![allow(deprecated, clippy::all)]

pub use shimstd::*;

pub mod sync {
    pub use shimstd::sync::*;

    pub mod atomic {
        pub use shimstd::sync::atomic::*;

        /// Taking a lock has scheduling points; looking at it or giving it up has none.
        #[derive(Debug, Default)]
        #[repr(transparent)]
        pub struct AtomicUsize(shimstd::sync::atomic::AtomicUsize);

        impl AtomicUsize {
            pub const fn new(v: usize) -> Self {
                AtomicUsize(shimstd::sync::atomic::AtomicUsize::new(v))
            }
            pub fn load(&self, o: Ordering) -> usize {
                (*self.0).load(o)
            }
            pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize {
                (*self.0).fetch_sub(v, o)
            }
            pub fn fetch_and(&self, v: usize, o: Ordering) -> usize {
                (*self.0).fetch_and(v, o)
            }
        }

        impl ::core::ops::Deref for AtomicUsize {
            type Target = shimstd::sync::atomic::AtomicUsize;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
    }
}
