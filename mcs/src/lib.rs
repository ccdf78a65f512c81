//! Shared parts of the schedule-exploring checks: histories and linearizability.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::{Arc, Mutex};

/// One completed (or pending) operation of a concurrent history.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rec<O, R> {
    pub thread: usize,
    pub op: O,
    pub inv: u32,
    pub resp: u32,
    pub ret: Option<R>,
}
/// Recorder shared by the threads of one execution (only one of them runs at a time).
pub struct Hist<O, R> {
    v: Mutex<(u32, Vec<Rec<O, R>>)>,
}
impl<O: Clone + Debug, R: Clone + Debug> Hist<O, R> {
    pub fn new() -> Arc<Self> {
        Arc::new(Hist { v: Mutex::new((0, vec![])) })
    }
    /// Runs one operation, recording when it was invoked and when it responded.
    pub fn run(&self, thread: usize, op: O, f: impl FnOnce() -> R) -> R {
        let i = vstd::sched::invoke(|| {
            let mut g = self.v.lock().unwrap();
            g.0 += 1;
            let inv = g.0;
            g.1.push(Rec { thread, op, inv, resp: u32::MAX, ret: None });
            g.1.len() - 1
        });
        let r = f();
        vstd::sched::respond(|| {
            let mut g = self.v.lock().unwrap();
            g.0 += 1;
            let t = g.0;
            g.1[i].resp = t;
            g.1[i].ret = Some(r.clone());
        });
        r
    }
    pub fn take(&self) -> Vec<Rec<O, R>> {
        self.v.lock().unwrap().1.clone()
    }
}

/// A sequential specification.
pub trait Spec<O, R>: Clone {
    /// Applies `op` and returns the result it must have had.
    fn step(&mut self, op: &O) -> R;
}
/// Whether some total order of the operations, consistent with their real-time order,
/// explains every result.
pub fn linearizable<O: Clone, R: PartialEq, S: Spec<O, R> + Eq + Hash>(init: &S, h: &[Rec<O, R>]) -> bool {
    fn go<O: Clone, R: PartialEq, S: Spec<O, R> + Eq + Hash>(
        s: &S, h: &[Rec<O, R>], done: u64, seen: &mut HashSet<(u64, S)>,
    ) -> bool {
        if done == (1u64 << h.len()) - 1 {
            return true;
        }
        if !seen.insert((done, s.clone())) {
            return false;
        }
        let first_resp =
            h.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, r)| r.resp).min().unwrap();
        for (i, r) in h.iter().enumerate() {
            if done & (1 << i) == 0 && r.inv < first_resp {
                let mut s2 = s.clone();
                let want = s2.step(&r.op);
                if r.ret.as_ref() == Some(&want) && go(&s2, h, done | (1 << i), seen) {
                    return true;
                }
            }
        }
        false
    }
    go(init, h, 0, &mut HashSet::new())
}
