pub mod std {
    pub use ::std::*;
    pub use loom::{hint, sync, thread};
}
/// A futex: looking at the value and going to sleep are one step.
pub mod wait {
    use loom::sync::atomic::{AtomicU32, Ordering::SeqCst};
    use loom::sync::{Condvar, Mutex};

    loom::lazy_static! {
        static ref QUEUE: Mutex<()> = Mutex::new(());
        static ref SIGNAL: Condvar = Condvar::new();
    }
    pub fn wait(a: &AtomicU32, v: u32) {
        let q = QUEUE.lock().unwrap();
        // the kernel reads the current value
        if a.fetch_add(0, SeqCst) == v {
            drop(SIGNAL.wait(q).unwrap());
        }
    }
    pub trait Target {}
    impl Target for AtomicU32 {}
    pub fn wake_one<T: Target>(_: *const T) {
        let _q = QUEUE.lock().unwrap();
        SIGNAL.notify_one();
    }
    pub fn wake_all<T: Target>(_: *const T) {
        let _q = QUEUE.lock().unwrap();
        SIGNAL.notify_all();
    }
}
