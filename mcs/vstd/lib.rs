//! Stand-in for `std` used to compile the library under exploration: everything is the
//! real `std`, except that the synchronisation primitives announce every operation to a
//! scheduler which decides, at each of them, which thread runs next.
//!
//! A thread the scheduler did not start uses the real primitives unchanged.
#![no_std]
#![allow(ambiguous_glob_reexports, clippy::all)]
extern crate std as real;
pub use real::*;
pub mod sched;
pub mod sync;
pub mod thread {
    pub use real::thread::*;
    use crate::sched;
    use real::prelude::rust_2024::*;
    use real::sync::{Arc, Mutex};

    enum J<T> {
        Real(real::thread::JoinHandle<T>),
        Model { h: real::thread::JoinHandle<()>, tid: usize, slot: Arc<Mutex<Option<real::thread::Result<T>>>> },
    }
    pub struct JoinHandle<T>(J<T>);
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if !sched::in_model() {
            return JoinHandle(J::Real(real::thread::spawn(f)));
        }
        let slot = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let (tid, h) = sched::spawn_child(real::boxed::Box::new(move || {
            let r = real::panic::catch_unwind(real::panic::AssertUnwindSafe(f));
            *s2.lock().unwrap() = Some(r);
        }));
        JoinHandle(J::Model { h, tid, slot })
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> real::thread::Result<T> {
            match self.0 {
                J::Real(h) => h.join(),
                J::Model { tid, slot, .. } => {
                    sched::join_point(tid);
                    let r = slot.lock().unwrap().take();
                    r.expect("joined thread left no result")
                },
            }
        }
        pub fn thread(&self) -> &real::thread::Thread {
            match &self.0 {
                J::Real(h) => h.thread(),
                J::Model { h, .. } => h.thread(),
            }
        }
        pub fn is_finished(&self) -> bool {
            match &self.0 {
                J::Real(h) => h.is_finished(),
                J::Model { tid, .. } => sched::is_done(*tid),
            }
        }
    }
    pub fn sleep(d: real::time::Duration) {
        if sched::in_model() { sched::local_point() } else { real::thread::sleep(d) }
    }
    pub fn yield_now() {
        if sched::in_model() { sched::yield_point() } else { real::thread::yield_now() }
    }
}
pub mod hint {
    pub use real::hint::*;
    pub fn spin_loop() {
        if crate::sched::in_model() { crate::sched::yield_point() } else { real::hint::spin_loop() }
    }
}
