//! Exhaustive spaces of small effectful programs over values {0,1,2}, built with a
//! library's combinators and evaluated independently by the check that uses them.
use std::cell::RefCell;
use std::fmt;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

/// Number of values every program computes with.
pub const D: u8 = 3;

/// A program. `One`/`Two` are check-specific combinators.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum P {
    Atom(u8),
    Fmap(u8, Arc<P>),
    Bind(Arc<P>, K),
    Ap(Arc<P>, Arc<P>),
    One(u8, Arc<P>),
    Two(u8, Arc<P>, Arc<P>),
}
/// A continuation: what to do with the value of the previous program.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum K {
    Ret(u8),
    Atom(u8),
    Const(Arc<P>),
    Sel(Arc<P>, Arc<P>),
}
/// The functions `Fmap`/`Ret` use.
pub const TABLES: [[u8; 3]; 3] = [[1, 2, 0], [0, 0, 2], [2, 1, 1]];
pub fn tbl(i: u8, x: u8) -> u8 {
    TABLES[i as usize][(x % D) as usize]
}
/// The function `Ap` applies: not commutative, injective in neither argument.
pub fn ap2(x: u8, y: u8) -> u8 {
    (2 * x + y + x * y) % D
}

impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            P::Atom(i) => write!(f, "a{i}"),
            P::Fmap(t, p) => write!(f, "m{t}({p:?})"),
            P::Bind(p, k) => write!(f, "({p:?}>>={k:?})"),
            P::Ap(p, q) => write!(f, "({p:?}*{q:?})"),
            P::One(i, p) => write!(f, "u{i}({p:?})"),
            P::Two(i, p, q) => write!(f, "b{i}({p:?},{q:?})"),
        }
    }
}
impl fmt::Debug for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            K::Ret(t) => write!(f, "r{t}"),
            K::Atom(i) => write!(f, "k{i}"),
            K::Const(p) => write!(f, "\\_.{p:?}"),
            K::Sel(p, q) => write!(f, "[{p:?}|{q:?}]"),
        }
    }
}

/// What the program space is made of.
#[derive(Clone, Default)]
pub struct Spec {
    pub atoms: Vec<u8>,
    pub tables: Vec<u8>,
    pub katoms: Vec<u8>,
    pub ones: Vec<u8>,
    pub twos: Vec<u8>,
    pub ap: bool,
}
impl Spec {
    fn extend(&self, ps: &[Arc<P>], l0: &[Arc<P>], leaves: bool) -> Vec<Arc<P>> {
        let mut r = vec![];
        let n = l0.len();
        for p in ps {
            let mut add = |q: P| r.push(Arc::new(q));
            for t in &self.tables {
                add(P::Fmap(*t, p.clone()));
                add(P::Bind(p.clone(), K::Ret(*t)));
            }
            for o in &self.ones {
                add(P::One(*o, p.clone()));
            }
            for k in &self.katoms {
                add(P::Bind(p.clone(), K::Atom(*k)));
            }
            for (i, x) in l0.iter().enumerate() {
                add(P::Bind(p.clone(), K::Sel(x.clone(), l0[(i + 1) % n].clone())));
                add(P::Bind(p.clone(), K::Const(x.clone())));
                if self.ap {
                    add(P::Ap(p.clone(), x.clone()));
                }
                for t in &self.twos {
                    add(P::Two(*t, p.clone(), x.clone()));
                }
                if !leaves {
                    add(P::Bind(x.clone(), K::Const(p.clone())));
                    add(P::Bind(x.clone(), K::Sel(p.clone(), x.clone())));
                    if self.ap {
                        add(P::Ap(x.clone(), p.clone()));
                    }
                    for t in &self.twos {
                        add(P::Two(*t, x.clone(), p.clone()));
                    }
                }
            }
        }
        r
    }
    /// All programs of combinator depth 0..=depth (depth >= 1): every chain of
    /// combinators whose side operands are atoms, plus at the first level every pair.
    pub fn programs(&self, depth: usize) -> Vec<Arc<P>> {
        let l0: Vec<Arc<P>> = self.atoms.iter().map(|i| Arc::new(P::Atom(*i))).collect();
        let mut all = l0.clone();
        let mut layer = l0.clone();
        for d in 0..depth {
            layer = self.extend(&layer, &l0, d == 0);
            all.extend(layer.iter().cloned());
        }
        all
    }
    /// Long programs: every combinator iterated n times for each n, and every ordered pair of
    /// combinators alternating `ns[0]` times, from each of the first atoms.
    pub fn long(&self, ns: &[usize], atoms: usize) -> Vec<Arc<P>> {
        let l0: Vec<Arc<P>> = self.atoms.iter().take(atoms).map(|i| Arc::new(P::Atom(*i))).collect();
        let step = |p: &Arc<P>, i: usize| self.extend(std::slice::from_ref(p), &l0, false)[i].clone();
        let k = self.extend(&l0[..1], &l0, false).len();
        let mut r = vec![];
        for a in &l0 {
            for i in 0..k {
                let mut p = a.clone();
                for n in 1..=ns.iter().copied().max().unwrap_or(0) {
                    p = step(&p, i);
                    if ns.contains(&n) {
                        r.push(p.clone());
                    }
                }
                for j in (0..k).filter(|j| *j != i) {
                    let mut p = a.clone();
                    for n in 0..ns[0] {
                        p = step(&p, if n % 2 == 0 { i } else { j });
                    }
                    r.push(p);
                }
            }
        }
        r
    }
    /// Binary combinations of two programs of depth 1 (bushy programs).
    pub fn bushy(&self) -> Vec<Arc<P>> {
        let l0: Vec<Arc<P>> = self.atoms.iter().map(|i| Arc::new(P::Atom(*i))).collect();
        let l1 = self.extend(&l0, &l0[..l0.len().min(3)], true);
        let mut r = vec![];
        for p in &l1 {
            for q in &l1 {
                r.push(Arc::new(P::Bind(p.clone(), K::Const(q.clone()))));
                r.push(Arc::new(P::Bind(p.clone(), K::Sel(q.clone(), p.clone()))));
                if self.ap {
                    r.push(Arc::new(P::Ap(p.clone(), q.clone())));
                }
                for t in &self.twos {
                    r.push(Arc::new(P::Two(*t, p.clone(), q.clone())));
                }
            }
        }
        r
    }
}

/// The depth of a program.
pub fn depth(p: &P) -> usize {
    match p {
        P::Atom(_) => 0,
        P::Fmap(_, p) | P::One(_, p) | P::Bind(p, K::Ret(_) | K::Atom(_)) => 1 + depth(p),
        P::Bind(p, K::Const(q)) | P::Ap(p, q) | P::Two(_, p, q) => 1 + depth(p).max(depth(q)),
        P::Bind(p, K::Sel(q, r)) => 1 + depth(p).max(depth(q)).max(depth(r)),
    }
}

/// How many preemptions to explore when a program is run by two threads.
pub fn switches(p: &P, thorough: bool) -> usize {
    match (depth(p), thorough) {
        (0 | 1, false) => 2,
        (0 | 1, true) => 3,
        (2, true) => 1,
        _ => 0,
    }
}

/// A library's combinators.
pub trait Lang {
    type T: Clone + Send + Sync + 'static;
    fn pure(a: u8) -> Self::T;
    fn atom(i: u8) -> Self::T;
    /// The atom a continuation runs with the value it receives.
    fn katom(i: u8, a: u8) -> Self::T;
    fn fmap(p: Self::T, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> Self::T;
    fn bind(p: Self::T, k: impl Fn(u8) -> Self::T + Send + Sync + Clone + 'static) -> Self::T;
    fn ap(p: Self::T, q: Self::T) -> Self::T;
    fn one(_i: u8, _p: Self::T) -> Self::T {
        unimplemented!()
    }
    fn two(_i: u8, _p: Self::T, _q: Self::T) -> Self::T {
        unimplemented!()
    }
}
/// Builds a program; the functions it is made of log their calls in the trace.
pub fn build<L: Lang>(p: &P) -> L::T {
    match p {
        P::Atom(i) => L::atom(*i),
        P::Fmap(t, p) => {
            let t = *t;
            L::fmap(build::<L>(p), move |x| {
                log(ev_f(t, x));
                tbl(t, x)
            })
        },
        // a constant continuation hands out clones of one object, a selecting one builds anew
        P::Bind(p, K::Const(q)) => {
            let p = build::<L>(p);
            let q = build::<L>(q);
            L::bind(p, move |x| {
                log(ev_k(x));
                q.clone()
            })
        },
        P::Bind(p, k) => {
            let k = k.clone();
            L::bind(build::<L>(p), move |x| build_k::<L>(&k, x))
        },
        // equal operands are one object used twice
        P::Ap(p, q) if p == q => {
            let t = build::<L>(p);
            L::ap(t.clone(), t)
        },
        P::Two(i, p, q) if p == q => {
            let t = build::<L>(p);
            L::two(*i, t.clone(), t)
        },
        P::Ap(p, q) => L::ap(build::<L>(p), build::<L>(q)),
        P::One(i, p) => L::one(*i, build::<L>(p)),
        P::Two(i, p, q) => L::two(*i, build::<L>(p), build::<L>(q)),
    }
}
pub fn build_k<L: Lang>(k: &K, x: u8) -> L::T {
    log(ev_k(x));
    match k {
        K::Ret(t) => L::pure(tbl(*t, x)),
        K::Atom(i) => L::katom(*i, x),
        K::Const(p) => build::<L>(p),
        K::Sel(p, q) => build::<L>(if x == 0 { p } else { q }),
    }
}

/// Trace events: effects (atoms), function calls, continuation calls.
pub type Ev = u32;
pub fn ev_a(i: u8, x: u8) -> Ev {
    0x1_0000 | (i as u32) << 8 | x as u32
}
pub fn ev_f(t: u8, x: u8) -> Ev {
    0x2_0000 | (t as u32) << 8 | x as u32
}
pub fn ev_k(x: u8) -> Ev {
    0x3_0000 | x as u32
}
thread_local! {
    static TRACE: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
    static POINT: RefCell<Point> = const { RefCell::new(Point::Off) };
}
/// What happens when this thread logs an event.
enum Point {
    Off,
    /// run something else after so many events
    Nest(usize, Box<dyn FnOnce()>),
    /// let the schedule decide who goes on
    Baton(Arc<Baton>, usize),
}
pub fn log(e: Ev) {
    TRACE.with(|t| t.borrow_mut().push(e));
    let p = POINT.with(|p| p.replace(Point::Off));
    match p {
        Point::Off => {},
        Point::Nest(0, f) => {
            let saved = take();
            f();
            TRACE.with(|t| *t.borrow_mut() = saved);
        },
        Point::Nest(n, f) => POINT.with(|p| *p.borrow_mut() = Point::Nest(n - 1, f)),
        Point::Baton(b, me) => {
            b.point(me);
            POINT.with(|p| *p.borrow_mut() = Point::Baton(b, me));
        },
    }
}
/// Runs `a`; inside its n-th logged event (from 0), on the same thread, runs `b`. Returns
/// both results with their traces; the second is None if `a` logs no n-th event.
pub fn nested<X, Y>(n: usize, a: impl FnOnce() -> X, b: impl FnOnce() -> Y) -> ((X, Vec<Ev>), Option<(Y, Vec<Ev>)>) {
    take();
    let mut got: Option<(Y, Vec<Ev>)> = None;
    {
        let slot = &mut got;
        let f: Box<dyn FnOnce() + '_> = Box::new(move || {
            let y = b();
            *slot = Some((y, take()));
        });
        // SAFETY: the hook is disarmed below before anything it borrows goes away
        let f: Box<dyn FnOnce()> = unsafe { std::mem::transmute(f) };
        POINT.with(|p| *p.borrow_mut() = Point::Nest(n, f));
    }
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            drop(POINT.with(|p| p.replace(Point::Off)));
        }
    }
    let d = Disarm;
    let x = a();
    drop(d);
    ((x, take()), got)
}

/// Two threads of which one runs at a time, handing over at logged events as told.
struct Baton {
    st: Mutex<BatonSt>,
    cv: Condvar,
}
#[derive(Default)]
struct BatonSt {
    turn: usize,
    step: usize,
    /// the steps at which the other thread goes on
    switch: Vec<usize>,
    done: [bool; 2],
    /// steps at which both threads could have gone on
    open: Vec<usize>,
    free: bool,
}
impl Baton {
    /// A thread that makes no progress while it has its turn waits for one that waits for
    /// its turn: from then on both run freely.
    const STUCK: Duration = Duration::from_millis(1000);
    fn await_turn(&self, mut g: MutexGuard<'_, BatonSt>, me: usize) {
        while !g.free && g.turn != me {
            let step = g.step;
            let (h, t) = self.cv.wait_timeout(g, Self::STUCK).unwrap();
            g = h;
            if t.timed_out() && g.step == step && g.turn != me {
                g.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn point(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        if g.free {
            return;
        }
        let step = g.step;
        g.step += 1;
        if g.done[1 - me] {
            return;
        }
        g.open.push(step);
        if g.switch.contains(&step) {
            g.turn = 1 - me;
            self.cv.notify_all();
            self.await_turn(g, me);
        }
    }
    fn start(&self, me: usize) {
        self.await_turn(self.st.lock().unwrap(), me);
    }
    fn end(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.done[me] = true;
        g.turn = 1 - me;
        self.cv.notify_all();
    }
}
/// One run's outcome (or panic) and its trace.
pub type Ran<X> = (Result<X, String>, Vec<Ev>);
fn on_baton<X>(b: &Arc<Baton>, me: usize, f: &(impl Fn() -> X + ?Sized)) -> Ran<X> {
    take();
    b.start(me);
    POINT.with(|p| *p.borrow_mut() = Point::Baton(b.clone(), me));
    let r = crate::catch(f);
    POINT.with(|p| *p.borrow_mut() = Point::Off);
    b.end(me);
    (r, take())
}
/// Runs `a` and `b` on two threads under every schedule with at most `bound` switches away
/// from a thread that could go on (scheduling points: logged events; either thread first),
/// and hands each schedule and both outcomes to `check`. Returns the number of schedules.
pub fn interleave<X: Send>(
    bound: usize,
    a: &(dyn Fn() -> X + Sync),
    b: &(dyn Fn() -> X + Sync),
    mut check: impl FnMut(&str, &Ran<X>, &Ran<X>) -> Result<(), String>,
) -> Result<usize, String> {
    let mut todo: Vec<(usize, Vec<usize>)> = vec![(1, vec![]), (0, vec![])];
    let mut n = 0;
    while let Some((first, switch)) = todo.pop() {
        crate::beat();
        let bt = Arc::new(Baton {
            st: Mutex::new(BatonSt { turn: first, switch: switch.clone(), ..BatonSt::default() }),
            cv: Condvar::new(),
        });
        let (ra, rb) = std::thread::scope(|s| {
            let h = s.spawn(|| on_baton(&bt, 1, b));
            let ra = on_baton(&bt, 0, a);
            (ra, h.join().unwrap())
        });
        n += 1;
        check(&format!("run {} first, switching at events {switch:?}", first + 1), &ra, &rb)?;
        let g = bt.st.lock().unwrap();
        if switch.len() < bound && !g.free {
            let from = switch.last().map_or(0, |x| x + 1);
            for at in g.open.iter().copied().filter(|x| *x >= from) {
                todo.push((first, switch.iter().copied().chain([at]).collect()));
            }
        }
    }
    Ok(n)
}
fn b_after<'a, X>(runs: &'a [(&'a (dyn Fn() -> X + Sync), X, Vec<Ev>)], i: usize, n: usize) -> &'a (dyn Fn() -> X + Sync) {
    runs[(i + n % 2) % runs.len()].0
}
/// Runs `a` with a panic in its n-th logged event; false if it logs no n-th event.
pub fn interrupted<X>(n: usize, a: impl Fn() -> X) -> bool {
    let hit = std::cell::Cell::new(false);
    nested(n, || drop(crate::catch(|| a())), || -> () {
        hit.set(true);
        panic!("interrupted")
    });
    hit.get()
}

/// Runs one program re-entrantly (a run inside each event of another) and concurrently
/// (every interleaving of two threads with up to `switches` preemptions) and compares every run with what it gives alone.
/// `runs` are the different ways of running it, each with its expected outcome and effects.
pub fn overlap<X: Send + PartialEq + fmt::Debug>(
    w: &mut crate::W,
    switches: usize,
    runs: &[(&(dyn Fn() -> X + Sync), X, Vec<Ev>)],
) -> crate::Res {
    let eff = |t: &[Ev]| t.iter().copied().filter(|e| e >> 16 == 1).collect::<Vec<Ev>>();
    for (i, (a, wa, ta)) in runs.iter().enumerate() {
        let mut n = 0;
        loop {
            let (b, wb, tb) = &runs[(i + 1 + n) % runs.len()];
            let (ra, rb) = nested(n, a, b);
            let Some(rb) = rb else { break };
            w.same("outer run of a program that runs itself", &(&ra.0, eff(&ra.1)), &(wa, ta.clone()))?;
            w.same("run inside an event of the same program", &(&rb.0, eff(&rb.1)), &(wb, tb.clone()))?;
            // all events of short programs, a growing stride through long ones
            n += 1 + n / 8;
        }
        // a panic in any one of its functions leaves the program as it was
        let mut n = 0;
        while interrupted(n, a) {
            let rb = (crate::catch(b_after(runs, i, n)), take());
            let (_, wb, tb) = &runs[(i + n % 2) % runs.len()];
            if rb.0.as_ref() != Ok(wb) || eff(&rb.1) != *tb {
                return Err(format!("a run after one that was interrupted by a panic in its event {n}: gives {:?} with effects {:?}, otherwise {wb:?} with {tb:?}", rb.0, eff(&rb.1)));
            }
            w.op(1);
            n += 1 + n / 8;
        }
        if switches > 1 || (switches == 1 && i == 0) {
            let (b, wb, tb) = &runs[(i + 1) % runs.len()];
            let k = interleave(switches, *a, *b, |how, ra, rb| {
                for (name, r, want, t) in [("first", ra, wa, ta), ("second", rb, wb, tb)] {
                    if r.0.as_ref() != Ok(want) || eff(&r.1) != *t {
                        return Err(format!("concurrent runs ({how}): the {name} gives {:?} with effects {:?}, alone {want:?} with {t:?}", r.0, eff(&r.1)));
                    }
                }
                Ok(())
            })?;
            w.op(k as u64);
        }
    }
    Ok(())
}

/// The effects logged so far.
pub fn effects() -> Vec<Ev> {
    take().into_iter().filter(|e| e >> 16 == 1).collect()
}
/// Everything logged so far.
pub fn take() -> Vec<Ev> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
