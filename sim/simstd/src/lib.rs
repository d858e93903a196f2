//! What generated code sees as `std`: the real one, except that the primitives it may
//! synchronise with report to the simulator.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use prost_reflect::sim::{Mutex, MutexGuard, OnceLock};

    use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    use ::std::sync::atomic::{AtomicBool, Ordering};

    /// Like `std::sync::Once`: the first caller runs, the others wait, and a panic is remembered.
    pub struct Once {
        done: OnceLock<()>,
        poisoned: AtomicBool,
    }
    impl Once {
        #[allow(clippy::new_without_default)]
        pub const fn new() -> Once {
            Once { done: OnceLock::new(), poisoned: AtomicBool::new(false) }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.done.get_or_init(|| {
                if self.poisoned.load(Ordering::SeqCst) {
                    panic!("Once instance has previously been poisoned");
                }
                if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
                    self.poisoned.store(true, Ordering::SeqCst);
                    resume_unwind(e);
                }
            });
        }
        pub fn is_completed(&self) -> bool {
            self.done.get().is_some()
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: F,
    }
    impl<T, F: Fn() -> T> LazyLock<T, F> {
        pub const fn new(init: F) -> Self {
            LazyLock { cell: OnceLock::new(), init }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| (this.init)())
        }
    }
    impl<T, F: Fn() -> T> ::std::ops::Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
}
