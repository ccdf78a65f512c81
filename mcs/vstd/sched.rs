//! Controlled scheduler and exhaustive explorer.
//!
//! One thread runs at a time. Before each synchronisation operation a thread announces the
//! operation and hands control to the scheduler, which picks the next thread among those
//! whose announced operation can proceed. The explorer enumerates all choices depth first,
//! either completely up to commuting independent operations (sleep sets) or completely up
//! to a bound on preemptions.
use real::boxed::Box;
use real::cell::RefCell;
use real::collections::HashMap;
use real::prelude::rust_2024::*;
use real::string::String;
use real::sync::{Arc, Condvar, Mutex, MutexGuard};
use real::time::{Duration, Instant};
use real::vec::Vec;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Local,
    Read,
    Write,
    Inv,
    Resp,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub obj: u32,
    pub kind: Kind,
}
/// Whether the order of two operations of different threads can matter.
fn dependent(a: Op, b: Op) -> bool {
    use Kind::*;
    a.obj == b.obj
        && !matches!(
            (a.kind, b.kind),
            (Local, _) | (_, Local) | (Read, Read) | (Inv, Inv) | (Resp, Resp)
        )
}
const LOCAL: Op = Op { obj: 0, kind: Kind::Local };
/// Object of the invocation and response events of the observed history.
const HISTORY: u32 = 1;

#[derive(Clone, Copy)]
struct Ready(fn(*const ()) -> bool, *const ());
unsafe impl Send for Ready {}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    /// waiting at a point for its turn
    Parked,
    Running,
    /// blocked in something the scheduler does not control
    Outside,
    Done,
}
struct Th {
    st: St,
    op: Op,
    ready: Option<Ready>,
    yielded: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Complete,
    Deadlock(String),
    Livelock,
}
#[derive(Clone)]
struct Node {
    cands: Vec<(usize, Op)>,
    idx: usize,
    /// operations already covered by earlier siblings
    sleep: Vec<(usize, Op)>,
    cur_ready: bool,
    preempts: u32,
}
struct State {
    th: Vec<Th>,
    cur: Option<usize>,
    last: usize,
    stack: Vec<Node>,
    pos: usize,
    pruned: bool,
    steps: u64,
    streak: u32,
    preempts: u32,
    objs: HashMap<usize, u32>,
    outcome: Option<Outcome>,
    nondet: bool,
    sleep: Vec<(usize, Op)>,
    bound: Option<u32>,
    schedule: Vec<u8>,
}
pub struct Exec {
    m: Mutex<State>,
    cvs: Mutex<Vec<Arc<Condvar>>>,
    ctl: Condvar,
}
real::thread_local! {
    static ME: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static PROXY: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}
const HORIZON: u64 = 20_000;
const STREAK: u32 = 400;

pub fn in_model() -> bool {
    me().is_some() && !real::thread::panicking()
}
fn me() -> Option<(Arc<Exec>, usize)> {
    if let Some(x) = ME.with(|m| m.borrow().clone()) {
        return Some(x);
    }
    let e = PROXY.with(|p| p.borrow().clone())?.current()?;
    let cur = e.lock().cur?;
    Some((e, cur))
}
/// The execution an explorer is running at the moment.
pub struct Slot(Mutex<Option<Arc<Exec>>>);
impl Slot {
    pub fn new() -> Arc<Slot> {
        Arc::new(Slot(Mutex::new(None)))
    }
    fn current(&self) -> Option<Arc<Exec>> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
}
/// Makes the calling thread, for as long as it lives, act for whichever controlled thread
/// of the slot's execution is running (and waiting for it).
pub fn act_for(slot: &Arc<Slot>) {
    PROXY.with(|p| *p.borrow_mut() = Some(slot.clone()));
}

impl Exec {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn cv(&self, t: usize) -> Arc<Condvar> {
        self.cvs.lock().unwrap()[t].clone()
    }
    fn is_ready(s: &State, t: usize) -> bool {
        let th = &s.th[t];
        th.st == St::Parked && th.ready.is_none_or(|r| (r.0)(r.1))
    }
    /// Picks the next thread to run. Called with nobody running.
    fn schedule(&self, s: &mut State) {
        if s.outcome.is_some() {
            return;
        }
        let n = s.th.len();
        let mut en: Vec<usize> = Vec::new();
        let t0 = Instant::now();
        loop {
            en.clear();
            for t in 0..n {
                if Self::is_ready(s, t) {
                    en.push(t);
                }
            }
            if !en.is_empty() {
                break;
            }
            if s.th.iter().all(|t| t.st == St::Done) {
                s.outcome = Some(Outcome::Complete);
                self.ctl.notify_all();
                return;
            }
            if s.th.iter().any(|t| t.st == St::Outside) {
                // somebody will come back, or the controller declares the deadlock
                s.cur = None;
                return;
            }
            // another, uncontrolled thread may hold the resource for a moment
            if t0.elapsed() > Duration::from_millis(1500) {
                let w: Vec<String> = s
                    .th
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| t.st != St::Done)
                    .map(|(i, t)| real::format!("thread {i} waits for {:?} of object {}", t.op.kind, t.op.obj))
                    .collect();
                s.outcome = Some(Outcome::Deadlock(w.join("; ")));
                s.cur = None;
                self.ctl.notify_all();
                return;
            }
            real::thread::sleep(Duration::from_millis(1));
        }
        s.steps += 1;
        if s.steps > HORIZON {
            s.outcome = Some(Outcome::Livelock);
            s.cur = None;
            self.ctl.notify_all();
            return;
        }
        let last = s.last;
        // a thread that spins must eventually let the others run
        if en.len() > 1 && en.contains(&last) && (s.streak > STREAK || s.th[last].yielded) {
            en.retain(|t| *t != last);
        }
        let cur_ready = en.contains(&last);
        if cur_ready {
            en.retain(|t| *t != last);
            en.insert(0, last);
        }
        let chosen = if s.pruned {
            en[0]
        } else if s.pos < s.stack.len() {
            let nd = &s.stack[s.pos];
            let (want, op) = nd.cands[nd.idx];
            if en.contains(&want) && s.th[want].op == op {
                s.sleep = nd.sleep.clone();
                for i in 0..nd.idx {
                    s.sleep.push(nd.cands[i]);
                }
                want
            } else {
                s.nondet = true;
                s.pruned = true;
                en[0]
            }
        } else {
            let mut cands: Vec<(usize, Op)> = en.iter().map(|t| (*t, s.th[*t].op)).collect();
            if s.bound.is_none() {
                let sl = &s.sleep;
                cands.retain(|c| !sl.contains(c));
            }
            if cands.is_empty() {
                s.pruned = true;
                en[0]
            } else {
                let c = cands[0].0;
                s.stack.push(Node {
                    cands,
                    idx: 0,
                    sleep: s.sleep.clone(),
                    cur_ready,
                    preempts: s.preempts,
                });
                c
            }
        };
        if !s.pruned {
            let op = s.th[chosen].op;
            if s.bound.is_none() {
                s.sleep.retain(|(t, o)| *t != chosen && !dependent(*o, op));
            }
            s.pos += 1;
        }
        if cur_ready && chosen != last {
            s.preempts += 1;
        }
        s.streak = if chosen == last { s.streak + 1 } else { 0 };
        s.schedule.push(chosen as u8);
        if chosen != last {
            s.th[last].yielded = false;
        }
        s.last = chosen;
        s.cur = Some(chosen);
        s.th[chosen].st = St::Running;
        self.cv(chosen).notify_all();
    }
    /// Announces `op` and returns when the thread may execute it.
    fn point(&self, t: usize, key: Option<usize>, kind: Kind, ready: Option<Ready>, yielded: bool) {
        let mut s = self.lock();
        let obj = match key {
            None => 0,
            Some(HIST_KEY) => HISTORY,
            Some(k) => {
                let n = s.objs.len() as u32 + 2;
                *s.objs.entry(k).or_insert(n)
            },
        };
        s.th[t].op = if key.is_none() { LOCAL } else { Op { obj, kind } };
        s.th[t].ready = ready;
        s.th[t].yielded = yielded;
        let was = s.th[t].st;
        s.th[t].st = St::Parked;
        if was == St::Running && s.cur == Some(t) || s.cur.is_none() {
            s.cur = None;
            self.schedule(&mut s);
        }
        let cv = self.cv(t);
        while s.cur != Some(t) {
            s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s.th[t].ready = None;
    }
    fn finish(&self, t: usize) {
        let mut s = self.lock();
        s.th[t].st = St::Done;
        if s.cur == Some(t) || s.cur.is_none() {
            s.cur = None;
            self.schedule(&mut s);
        }
    }
    fn add_thread(&self, s: &mut State) -> usize {
        s.th.push(Th { st: St::Parked, op: LOCAL, ready: None, yielded: false });
        self.cvs.lock().unwrap().push(Arc::new(Condvar::new()));
        s.th.len() - 1
    }
}
const HIST_KEY: usize = usize::MAX;

pub(crate) fn op_point(key: usize, kind: Kind) {
    if real::thread::panicking() {
        return;
    }
    if let Some((e, t)) = me() {
        e.point(t, Some(key), kind, None, false);
    }
}
pub(crate) fn op_point_ready<T: ?Sized>(key: usize, kind: Kind, f: fn(&T) -> bool, arg: &T) {
    if real::thread::panicking() {
        return;
    }
    if let Some((e, t)) = me() {
        // the argument lives on this thread's stack or behind it until the thread runs again
        struct C<'a, T: ?Sized>(fn(&T) -> bool, &'a T);
        fn call<T: ?Sized>(p: *const ()) -> bool {
            let c = unsafe { &*(p as *const C<'_, T>) };
            (c.0)(c.1)
        }
        let c = C(f, arg);
        e.point(t, Some(key), kind, Some(Ready(call::<T>, &c as *const _ as *const ())), false);
    }
}
/// A scheduling point that touches nothing shared.
pub fn local_point() {
    if real::thread::panicking() {
        return;
    }
    if let Some((e, t)) = me() {
        e.point(t, None, Kind::Local, None, false);
    }
}
pub fn yield_point() {
    if real::thread::panicking() {
        return;
    }
    if let Some((e, t)) = me() {
        e.point(t, None, Kind::Local, None, true);
    }
}
/// Scheduling points for values shared by the driver itself.
pub fn touch(key: usize, write: bool) {
    op_point(key, if write { Kind::Write } else { Kind::Read });
}
/// Marks the invocation (response) of an observed operation and runs `f` at that instant.
pub fn invoke<R>(f: impl FnOnce() -> R) -> R {
    op_point(HIST_KEY, Kind::Inv);
    f()
}
pub fn respond<R>(f: impl FnOnce() -> R) -> R {
    op_point(HIST_KEY, Kind::Resp);
    f()
}
pub(crate) fn join_point(tid: usize) {
    if let Some((e, t)) = me() {
        struct A(Arc<Exec>, usize);
        fn done(p: *const ()) -> bool {
            // called with the state locked by the scheduler on another stack
            let a = unsafe { &*(p as *const A) };
            FINISHED.lock().unwrap().contains(&(Arc::as_ptr(&a.0) as usize, a.1))
        }
        let a = A(e.clone(), tid);
        e.point(t, Some(usize::MAX - 16 - tid), Kind::Read, Some(Ready(done, &a as *const _ as *const ())), false);
    }
}
static FINISHED: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
pub(crate) fn is_done(tid: usize) -> bool {
    match me() {
        Some((e, t)) => {
            e.point(t, Some(usize::MAX - 16 - tid), Kind::Read, None, false);
            FINISHED.lock().unwrap().contains(&(Arc::as_ptr(&e) as usize, tid))
        },
        None => false,
    }
}
fn thread_main(e: Arc<Exec>, t: usize, f: Box<dyn FnOnce() + Send>) {
    ME.with(|m| *m.borrow_mut() = Some((e.clone(), t)));
    {
        let cv = e.cv(t);
        let mut s = e.lock();
        while s.cur != Some(t) {
            s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    let _ = real::panic::catch_unwind(real::panic::AssertUnwindSafe(f));
    e.point(t, Some(usize::MAX - 16 - t), Kind::Write, None, false);
    FINISHED.lock().unwrap().push((Arc::as_ptr(&e) as usize, t));
    ME.with(|m| *m.borrow_mut() = None);
    e.finish(t);
}
pub(crate) fn spawn_child(f: Box<dyn FnOnce() + Send>) -> (usize, real::thread::JoinHandle<()>) {
    let (e, _) = me().expect("model thread");
    let t = {
        let mut s = e.lock();
        e.add_thread(&mut s)
    };
    let e2 = e.clone();
    let h = real::thread::spawn(move || thread_main(e2, t, f));
    (t, h)
}
/// Runs `f` on behalf of the running controlled thread of the slot's execution.
pub fn on_behalf<R>(slot: &Arc<Slot>, f: impl FnOnce() -> R) -> R {
    let old = PROXY.with(|p| p.borrow_mut().replace(slot.clone()));
    let r = f();
    PROXY.with(|p| *p.borrow_mut() = old);
    r
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub complete: u64,
    pub pruned: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_depth: usize,
    pub nondet: u64,
    pub exhausted: bool,
}
pub struct Explorer {
    /// `None`: all schedules, up to commuting independent operations.
    pub bound: Option<u32>,
    pub max_exec: u64,
    pub stats: Stats,
    pub slot: Option<Arc<Slot>>,
}
impl Explorer {
    pub fn new(bound: Option<u32>, max_exec: u64) -> Self {
        Explorer { bound, max_exec, stats: Stats::default(), slot: None }
    }
    /// Explores all schedules of the threads built by `setup`, which is called once per
    /// execution and returns the thread bodies and the check run when all have ended.
    /// Returns the first failing schedule.
    pub fn explore<S, C>(&mut self, mut setup: S) -> Result<(), (String, Vec<u8>)>
    where
        S: FnMut() -> (Vec<Box<dyn FnOnce() + Send>>, C),
        C: FnOnce(&Outcome) -> Result<(), String>,
    {
        let mut stack: Vec<Node> = Vec::new();
        loop {
            let (bodies, check) = setup();
            let e = Arc::new(Exec {
                m: Mutex::new(State {
                    th: Vec::new(),
                    cur: None,
                    last: 0,
                    stack: real::mem::take(&mut stack),
                    pos: 0,
                    pruned: false,
                    steps: 0,
                    streak: 0,
                    preempts: 0,
                    objs: HashMap::new(),
                    outcome: None,
                    nondet: false,
                    sleep: Vec::new(),
                    bound: self.bound,
                    schedule: Vec::new(),
                }),
                cvs: Mutex::new(Vec::new()),
                ctl: Condvar::new(),
            });
            {
                let mut s = e.lock();
                for _ in &bodies {
                    e.add_thread(&mut s);
                }
            }
            if let Some(sl) = &self.slot {
                *sl.0.lock().unwrap() = Some(e.clone());
            }
            let mut hs = Vec::new();
            for (t, f) in bodies.into_iter().enumerate() {
                let e2 = e.clone();
                hs.push(real::thread::spawn(move || thread_main(e2, t, f)));
            }
            let outcome;
            {
                let mut s = e.lock();
                e.schedule(&mut s);
                let mut seen = (s.steps, Instant::now());
                loop {
                    if let Some(o) = &s.outcome {
                        outcome = o.clone();
                        break;
                    }
                    let (s2, _) = e
                        .ctl
                        .wait_timeout(s, Duration::from_millis(200))
                        .unwrap_or_else(|e| e.into_inner());
                    s = s2;
                    if s.steps != seen.0 {
                        seen = (s.steps, Instant::now());
                    } else if seen.1.elapsed() > Duration::from_millis(1200) {
                        if let Some(t) = s.cur {
                            // blocked in something we do not control: let the others run
                            s.th[t].st = St::Outside;
                            s.nondet = true;
                            s.pruned = true;
                            s.cur = None;
                            e.schedule(&mut s);
                            seen = (s.steps, Instant::now());
                        } else if seen.1.elapsed() > Duration::from_secs(8) && s.outcome.is_none() {
                            s.outcome = Some(Outcome::Deadlock("all threads are blocked".into()));
                        }
                    }
                }
            }
            if outcome == Outcome::Complete {
                for h in hs {
                    let _ = h.join();
                }
            }
            if let Some(sl) = &self.slot {
                *sl.0.lock().unwrap() = None;
            }
            let key = Arc::as_ptr(&e) as usize;
            FINISHED.lock().unwrap().retain(|(k, _)| *k != key);
            let (st, sched, pruned, nondet, steps) = {
                let mut s = e.lock();
                (real::mem::take(&mut s.stack), real::mem::take(&mut s.schedule), s.pruned, s.nondet, s.steps)
            };
            stack = st;
            let x = &mut self.stats;
            x.executions += 1;
            if pruned { x.pruned += 1 } else { x.complete += 1 }
            x.steps += steps;
            x.max_steps = x.max_steps.max(steps);
            x.max_depth = x.max_depth.max(stack.len());
            if nondet {
                x.nondet += 1;
            }
            if let Err(m) = check(&outcome) {
                return Err((m, sched));
            }
            if x.nondet > 12 || x.executions >= self.max_exec {
                return Ok(());
            }
            // next choice, depth first
            loop {
                match stack.last_mut() {
                    None => {
                        self.stats.exhausted = self.stats.nondet == 0;
                        return Ok(());
                    },
                    Some(n) => {
                        let may = n.idx + 1 < n.cands.len()
                            && self.bound.is_none_or(|b| {
                                // every alternative to a ready current thread is a preemption
                                !n.cur_ready || n.preempts + 1 <= b
                            });
                        if may {
                            n.idx += 1;
                            break;
                        }
                        stack.pop();
                    },
                }
            }
        }
    }
}
