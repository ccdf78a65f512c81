//! C07: asynchronous computations give the same result under every poll schedule.
use mc::{Ctx, Res, W};
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::validated::Validated;
use std::collections::BTreeSet;
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

// ------------------------------------------------------------------ controlled leaves
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Boom {
    No,
    /// when the step's future is made
    Call,
    /// at its first poll
    First,
    /// instead of completing
    Last,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    /// the step's future is made
    Made(usize),
    Start(usize),
    End(usize),
}
struct Wait {
    leaf: usize,
    ready: Arc<AtomicBool>,
    waker: Waker,
}
#[derive(Default)]
struct Run {
    waits: Vec<Wait>,
    trace: Vec<Ev>,
}
struct Cfg {
    pend: Vec<u8>,
    boom: Option<(usize, Boom)>,
    run: Mutex<Run>,
}
type Ctl = Arc<Cfg>;
struct Leaf {
    c: Ctl,
    id: usize,
    left: u8,
    begun: bool,
    wait: Option<Arc<AtomicBool>>,
    v: u32,
}
fn leaf(c: &Ctl, id: usize, v: u32) -> Leaf {
    c.run.lock().unwrap().trace.push(Ev::Made(id));
    if c.boom == Some((id, Boom::Call)) {
        c.run.lock().unwrap().trace.push(Ev::Start(id));
        panic!("step {id} panics when called");
    }
    Leaf { c: c.clone(), id, left: c.pend[id], begun: false, wait: None, v }
}
impl Future for Leaf {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let c = self.c.clone();
        let id = self.id;
        if !self.begun {
            self.begun = true;
            c.run.lock().unwrap().trace.push(Ev::Start(id));
            if c.boom == Some((id, Boom::First)) {
                panic!("step {id} panics at its first poll");
            }
        }
        if let Some(w) = &self.wait {
            if w.load(SeqCst) {
                self.wait = None;
                self.left -= 1;
            } else {
                let mut r = c.run.lock().unwrap();
                if let Some(x) = r.waits.iter_mut().find(|x| Arc::ptr_eq(&x.ready, w)) {
                    x.waker = cx.waker().clone();
                }
                return Poll::Pending;
            }
        }
        if self.left > 0 {
            let f = Arc::new(AtomicBool::new(false));
            self.wait = Some(f.clone());
            c.run.lock().unwrap().waits.push(Wait { leaf: id, ready: f, waker: cx.waker().clone() });
            return Poll::Pending;
        }
        if c.boom == Some((id, Boom::Last)) {
            panic!("step {id} panics at its end");
        }
        c.run.lock().unwrap().trace.push(Ev::End(id));
        Poll::Ready(self.v)
    }
}
/// A step that is a plain function call.
fn step(c: &Ctl, id: usize) {
    c.run.lock().unwrap().trace.extend([Ev::Made(id), Ev::Start(id)]);
    if c.boom == Some((id, Boom::Call)) {
        panic!("step {id} panics when called");
    }
    c.run.lock().unwrap().trace.push(Ev::End(id));
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

// ------------------------------------------------------------------ programs
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    Pure,
    Leaf,
    Chain,
}
#[derive(Clone, Debug)]
enum P {
    Pure(u32),
    Leaf,
    FromRes(bool),
    Fmap(Box<P>, bool),
    Bind(Box<P>, K, bool),
    Recover(Box<P>),
    Zip(Box<P>, Box<P>),
    ZipWith(Box<P>, Box<P>),
    Apply(Box<P>, F, bool),
}
#[derive(Clone, Debug)]
enum F {
    Pure,
    Leaf,
    Of(Box<P>),
}
fn ap(k: u32, x: u32) -> u32 {
    x.wrapping_mul(31).wrapping_add(k)
}
fn mkf(c: &Ctl, i: usize, k: u32) -> impl Fn(u32) -> u32 + Clone + Send + Sync + use<> {
    let c = c.clone();
    move |x: u32| {
        step(&c, i);
        ap(k, x)
    }
}
fn fm(a: u32) -> u32 {
    a.wrapping_mul(3).wrapping_add(1)
}
fn bk(a: u32, i: u32) -> u32 {
    a.wrapping_mul(7).wrapping_add(i)
}
fn zw(a: u32, b: u32) -> u32 {
    a.wrapping_mul(13).wrapping_add(b)
}
const DEFAULT: u32 = 9_000_000;

/// Number of leaves of a program; leaves are numbered in the order `build` meets them.
fn leaves(p: &P) -> usize {
    match p {
        P::Pure(_) => 0,
        P::Leaf | P::FromRes(_) => 1,
        P::Fmap(p, _) => leaves(p) + 1,
        P::Bind(p, k, _) => {
            leaves(p)
                + match k {
                    K::Pure => 1,
                    K::Leaf => 2,
                    K::Chain => 4,
                }
        },
        P::Recover(p) => leaves(p),
        P::Zip(a, b) => leaves(a) + leaves(b),
        P::ZipWith(a, b) => leaves(a) + leaves(b) + 1,
        P::Apply(p, f, _) => {
            leaves(p)
                + 1
                + match f {
                    F::Pure => 0,
                    F::Leaf => 1,
                    F::Of(q) => leaves(q),
                }
        },
    }
}
/// The steps that are plain function calls.
fn calls(p: &P, n: &mut usize, out: &mut Vec<usize>) {
    match p {
        P::Pure(_) => {},
        P::Leaf | P::FromRes(_) => *n += 1,
        P::Fmap(q, _) | P::Bind(q, _, _) => {
            calls(q, n, out);
            *n += leaves(p) - leaves(q);
        },
        P::Recover(p) => calls(p, n, out),
        P::Zip(a, b) | P::ZipWith(a, b) => {
            calls(a, n, out);
            calls(b, n, out);
            if let P::ZipWith(..) = p {
                out.push(*n);
                *n += 1;
            }
        },
        P::Apply(p, f, _) => {
            calls(p, n, out);
            match f {
                F::Pure => {},
                F::Leaf => *n += 1,
                F::Of(q) => calls(q, n, out),
            }
            out.push(*n);
            *n += 1;
        },
    }
}
fn build(p: &P, c: &Ctl, n: &mut usize) -> AsyncM<u32> {
    let next = |n: &mut usize, k: usize| {
        *n += k;
        *n - k
    };
    match p {
        P::Pure(v) => AsyncM::pure(*v),
        P::Leaf => {
            let (i, c) = (next(n, 1), c.clone());
            AsyncM::new(move || leaf(&c, i, 10 + i as u32))
        },
        P::FromRes(ok) => {
            let (i, c, ok) = (next(n, 1), c.clone(), *ok);
            AsyncM::from_result_or_default(
                move || {
                    let l = leaf(&c, i, 10 + i as u32);
                    async move {
                        let v = l.await;
                        if ok { Ok::<u32, String>(v) } else { Err("no".to_string()) }
                    }
                },
                777,
            )
        },
        P::Fmap(p, owned) => {
            let m = build(p, c, n);
            let (i, c) = (next(n, 1), c.clone());
            let f = move |a: u32| leaf(&c, i, fm(a));
            if *owned { m.fmap_owned(f) } else { m.fmap(f) }
        },
        P::Bind(p, k, owned) => {
            let m = build(p, c, n);
            let k = *k;
            let i = next(n, leaves(&P::Bind(Box::new(P::Pure(0)), k, false)));
            let c = c.clone();
            let f = move |a: u32| {
                let l = leaf(&c, i, a);
                let c = c.clone();
                async move {
                    let a = l.await;
                    match k {
                        K::Pure => AsyncM::pure(bk(a, 1)),
                        K::Leaf => AsyncM::new(move || leaf(&c, i + 1, bk(a, 2))),
                        K::Chain => {
                            let c2 = c.clone();
                            AsyncM::new(move || leaf(&c2, i + 1, bk(a, 3))).bind(move |b| {
                                let l = leaf(&c, i + 2, b);
                                let c = c.clone();
                                async move {
                                    let b = l.await;
                                    AsyncM::new(move || leaf(&c, i + 3, bk(b, 4)))
                                }
                            })
                        },
                    }
                }
            };
            if *owned { m.bind_owned(f) } else { m.bind(f) }
        },
        P::Recover(p) => build(p, c, n).recover_with(DEFAULT),
        P::Zip(a, b) => {
            let a = build(a, c, n);
            let b = build(b, c, n);
            // the pair is observed through a step that cannot be confused with zip_with
            a.zip(b).fmap_owned(|(x, y)| async move { zw(x, y).wrapping_add(5) })
        },
        P::ZipWith(a, b) => {
            let a = build(a, c, n);
            let b = build(b, c, n);
            let (i, c) = (next(n, 1), c.clone());
            a.zip_with(b, move |x, y| {
                step(&c, i);
                zw(x, y)
            })
        },
        P::Apply(p, f, owned) => {
            let m = build(p, c, n);
            macro_rules! go {
                ($mf:expr) => {
                    if *owned { m.apply_owned($mf) } else { m.apply($mf) }
                };
            }
            match f {
                F::Pure => {
                    let j = next(n, 1);
                    go!(AsyncM::pure(mkf(c, j, 4)))
                },
                F::Leaf => {
                    let (i, j, c) = (next(n, 1), next(n, 1), c.clone());
                    go!(AsyncM::new(move || {
                        let l = leaf(&c, i, 10 + i as u32);
                        let c = c.clone();
                        async move {
                            let k = l.await;
                            mkf(&c, j, k)
                        }
                    }))
                },
                F::Of(q) => {
                    let q = build(q, c, n);
                    let (j, c) = (next(n, 1), c.clone());
                    go!(q.fmap(move |v| {
                        let f = mkf(&c, j, v);
                        async move { f }
                    }))
                },
            }
        },
    }
}

// ------------------------------------------------------------------ reference
struct Ref<'a> {
    cfg: &'a Cfg,
    /// leaf i must have ended before leaf j starts
    order: Vec<(usize, usize)>,
    must: BTreeSet<usize>,
    /// leaves that may or may not have been started (siblings of a panicking branch)
    may: BTreeSet<usize>,
}
/// Outcome of the synchronous reading: value or panic, and the leaves that ran to their end.
type Out = (Option<u32>, BTreeSet<usize>);
impl Ref<'_> {
    fn step(&mut self, i: usize, after: &BTreeSet<usize>) -> bool {
        for a in after {
            self.order.push((*a, i));
        }
        self.must.insert(i);
        !matches!(self.cfg.boom, Some((j, b)) if j == i && b != Boom::No)
    }
    fn seq(&mut self, done: &mut BTreeSet<usize>, i: usize) -> bool {
        let ok = self.step(i, done);
        if ok {
            done.insert(i);
        }
        ok
    }
    fn eval(&mut self, p: &P, n: &mut usize) -> Out {
        match p {
            P::Pure(v) => (Some(*v), BTreeSet::new()),
            P::Leaf | P::FromRes(_) => {
                let i = *n;
                *n += 1;
                let mut d = BTreeSet::new();
                let ok = self.seq(&mut d, i);
                let v = match p {
                    P::FromRes(false) => 777,
                    _ => 10 + i as u32,
                };
                (ok.then_some(v), d)
            },
            P::Fmap(p, _) => {
                let (v, mut d) = self.eval(p, n);
                let i = *n;
                *n += 1;
                match v {
                    None => (None, d),
                    Some(v) => {
                        let ok = self.seq(&mut d, i);
                        (ok.then_some(fm(v)), d)
                    },
                }
            },
            P::Bind(p, k, _) => {
                let (v, mut d) = self.eval(p, n);
                let i = *n;
                *n += leaves(&P::Bind(Box::new(P::Pure(0)), *k, false));
                let Some(v) = v else { return (None, d) };
                let (steps, out) = match k {
                    K::Pure => (1, bk(v, 1)),
                    K::Leaf => (2, bk(v, 2)),
                    K::Chain => (4, bk(bk(v, 3), 4)),
                };
                for j in 0..steps {
                    if !self.seq(&mut d, i + j) {
                        return (None, d);
                    }
                }
                (Some(out), d)
            },
            P::Recover(p) => {
                let (v, d) = self.eval(p, n);
                (Some(v.unwrap_or(DEFAULT)), d)
            },
            P::Zip(a, b) => {
                let (x, y, d) = self.both(n, |r, n| r.eval(a, n), |r, n| r.eval(b, n));
                (x.zip(y).map(|(x, y)| zw(x, y).wrapping_add(5)), d)
            },
            P::ZipWith(a, b) => {
                let (x, y, mut d) = self.both(n, |r, n| r.eval(a, n), |r, n| r.eval(b, n));
                let i = *n;
                *n += 1;
                let ok = x.is_some() && y.is_some() && self.seq(&mut d, i);
                (x.zip(y).filter(|_| ok).map(|(x, y)| zw(x, y)), d)
            },
            P::Apply(p, f, _) => {
                let (x, k, mut d) = self.both(
                    n,
                    |r, n| r.eval(p, n),
                    |r, n| match f {
                        F::Pure => (Some(4), BTreeSet::new()),
                        F::Leaf => r.eval(&P::Leaf, n),
                        F::Of(q) => r.eval(q, n),
                    },
                );
                let i = *n;
                *n += 1;
                let ok = x.is_some() && k.is_some() && self.seq(&mut d, i);
                (x.zip(k).filter(|_| ok).map(|(x, k)| ap(k, x)), d)
            },
        }
    }
    fn both(
        &mut self, n: &mut usize, a: impl FnOnce(&mut Self, &mut usize) -> Out, b: impl FnOnce(&mut Self, &mut usize) -> Out,
    ) -> (Option<u32>, Option<u32>, BTreeSet<usize>) {
        let m0 = self.must.clone();
        let (x, dx) = a(self, n);
        let ma: BTreeSet<usize> = self.must.difference(&m0).copied().collect();
        let m1 = self.must.clone();
        let (y, dy) = b(self, n);
        let mb: BTreeSet<usize> = self.must.difference(&m1).copied().collect();
        // when one branch panics the other may have got anywhere
        if x.is_none() {
            for i in mb {
                self.must.remove(&i);
                self.may.insert(i);
            }
        }
        if y.is_none() {
            for i in ma {
                self.must.remove(&i);
                self.may.insert(i);
            }
        }
        let mut d = dx;
        d.extend(dy);
        d.retain(|i| !self.may.contains(i));
        (x, y, d)
    }
}

// ------------------------------------------------------------------ one controlled run
/// Runs `n` executions of `m` (at the same time) under the schedule `script`; returns the
/// results and the number of options at every choice.
fn drive(
    m: &AsyncM<u32>, cfg: &Cfg, execs: usize, script: &[usize], spurious: bool,
) -> Result<(Vec<Option<u32>>, Vec<usize>), String> {
    let mut opts = vec![];
    let mut choose = |n: usize| {
        let k = opts.len();
        opts.push(n);
        if k < script.len() { script[k] } else { 0 }
    };
    let mut tasks: Vec<_> = (0..execs)
        .map(|_| {
            let m = m.clone();
            let f: Pin<Box<dyn Future<Output = u32> + Send>> = Box::pin(async move { m.try_get().await });
            (Some(f), Arc::new(Flag(AtomicBool::new(true))), None::<Option<u32>>)
        })
        .collect();
    let mut guard = 0;
    loop {
        guard += 1;
        if guard > 500 {
            return Err("does not finish within 500 scheduling steps".into());
        }
        let woken: Vec<usize> =
            (0..execs).filter(|i| tasks[*i].0.is_some() && tasks[*i].1.0.load(SeqCst)).collect();
        if !woken.is_empty() {
            let t = woken[if woken.len() > 1 { choose(woken.len()) } else { 0 }];
            let (f, w, out) = &mut tasks[t];
            w.0.store(false, SeqCst);
            let waker = Waker::from(w.clone());
            let mut cx = Context::from_waker(&waker);
            let mut rounds = if spurious { 2 } else { 1 };
            while rounds > 0 {
                rounds -= 1;
                let fut = f.as_mut().unwrap();
                match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
                    Ok(Poll::Pending) => {},
                    Ok(Poll::Ready(v)) => {
                        *out = Some(Some(v));
                        *f = None;
                        break;
                    },
                    Err(_) => {
                        *out = Some(None);
                        *f = None;
                        break;
                    },
                }
            }
            continue;
        }
        if tasks.iter().all(|t| t.0.is_none()) {
            return Ok((tasks.into_iter().map(|t| t.2.unwrap()).collect(), opts));
        }
        // fire one outstanding event
        let mut r = cfg.run.lock().unwrap();
        // events of abandoned siblings have nobody waiting
        r.waits.retain(|w| Arc::strong_count(&w.ready) > 1);
        if r.waits.is_empty() {
            return Err(format!("stuck: no event outstanding and nothing woken; trace {:?}", r.trace));
        }
        let n = r.waits.len();
        let k = if n > 1 { choose(n) } else { 0 };
        let w = r.waits.remove(k);
        drop(r);
        w.ready.store(true, SeqCst);
        w.waker.wake();
        if !tasks.iter().any(|t| t.1.0.load(SeqCst)) {
            return Err(format!("lost wake-up: the event of step {} woke nobody", w.leaf));
        }
    }
}
/// All schedules, depth first.
fn schedules(mut f: impl FnMut(&[usize]) -> Result<Vec<usize>, String>) -> Result<u64, String> {
    let mut script: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let opts = f(&script).map_err(|e| format!("{e}; schedule {script:?}"))?;
        n += 1;
        script.resize(opts.len(), 0);
        loop {
            match script.pop() {
                None => return Ok(n),
                Some(k) => {
                    if k + 1 < opts[script.len()] {
                        script.push(k + 1);
                        break;
                    }
                },
            }
        }
    }
}
/// An execution dropped after so many polls, with one outstanding event fired between them.
fn abandon(m: &AsyncM<u32>, cfg: &Cfg, polls: usize) {
    let m = m.clone();
    let mut f: Pin<Box<dyn Future<Output = u32> + Send>> = Box::pin(async move { m.try_get().await });
    let waker = Waker::from(Arc::new(Flag(AtomicBool::new(true))));
    for _ in 0..polls {
        match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&waker)))) {
            Ok(Poll::Pending) => {},
            _ => break,
        }
        let fired = cfg.run.lock().unwrap().waits.pop();
        if let Some(w) = fired {
            w.ready.store(true, SeqCst);
            w.waker.wake();
        }
    }
    drop(f);
    cfg.run.lock().unwrap().waits.clear();
}
fn check_one(w: &mut W, p: &P, pend: &[u8], boom: Option<(usize, Boom)>, execs: usize, spurious: bool) -> Res {
    check_after(w, p, pend, boom, execs, spurious, None)
}
fn check_after(w: &mut W, p: &P, pend: &[u8], boom: Option<(usize, Boom)>, execs: usize, spurious: bool, dropped: Option<usize>) -> Res {
    let nl = pend.len();
    let n = schedules(|script| {
        let cfg = Arc::new(Cfg { pend: pend.to_vec(), boom, run: Mutex::default() });
        let m = match catch_unwind(AssertUnwindSafe(|| build(p, &cfg, &mut 0))) {
            Ok(m) => m,
            Err(_) => return Err("building the program panics".into()),
        };
        if !cfg.run.lock().unwrap().trace.is_empty() {
            return Err("building the program runs a step".into());
        }
        let mut r = Ref { cfg: &cfg, order: vec![], must: BTreeSet::new(), may: BTreeSet::new() };
        let (want, _) = r.eval(p, &mut 0);
        let (order, must, may) = (r.order, r.must, r.may);
        let mut opts = vec![];
        // run it, and then run it again
        for round in 0..if execs == 1 { 2 } else { 1 } {
            if let Some(polls) = dropped {
                abandon(&m, &cfg, polls);
            }
            cfg.run.lock().unwrap().trace.clear();
            let (out, o) = drive(&m, &cfg, execs, script, spurious)?;
            if round == 0 {
                opts = o;
            }
            for v in &out {
                if *v != want {
                    return Err(format!("result {v:?}, the synchronous reading gives {want:?}"));
                }
            }
            let mut run = cfg.run.lock().unwrap();
            run.waits.clear();
            let t = &run.trace;
            for i in 0..nl {
                let starts = t.iter().filter(|e| **e == Ev::Start(i)).count();
                let ok = if must.contains(&i) {
                    starts == execs
                } else if may.contains(&i) {
                    starts <= execs
                } else {
                    starts == 0
                };
                let made = t.iter().filter(|e| **e == Ev::Made(i)).count();
                let made_ok = if must.contains(&i) { made == execs } else { made <= if may.contains(&i) { execs } else { 0 } };
                if !made_ok {
                    return Err(format!("the future of step {i} was made {made} times in {execs} execution(s); trace {t:?}"));
                }
                if !ok {
                    return Err(format!("step {i} was started {starts} times in {execs} execution(s); trace {t:?}"));
                }
            }
            if execs == 1 {
                for (a, b) in &order {
                    let e = t.iter().position(|e| *e == Ev::End(*a));
                    let s = t.iter().position(|e| *e == Ev::Start(*b));
                    if let Some(s) = s
                        && e.is_none_or(|e| e > s)
                    {
                        return Err(format!("step {b} started before step {a} had its value; trace {t:?}"));
                    }
                }
            }
        }
        Ok(opts)
    })?;
    w.add_cases(n - 1);
    w.op(n * (nl as u64 + 1));
    let h = mc::hash_debug(&(pend, boom, n));
    w.state(h ^ mc::hash_debug(p));
    Ok(())
}

fn programs(thorough: bool) -> Vec<P> {
    let b = |p: &P| Box::new(p.clone());
    let s = vec![P::Pure(3), P::Leaf, P::FromRes(true), P::FromRes(false)];
    let unary = |p: &P| {
        let mut v = vec![];
        for o in [false, true] {
            v.push(P::Fmap(b(p), o));
            for k in [K::Pure, K::Leaf, K::Chain] {
                v.push(P::Bind(b(p), k, o));
            }
        }
        v.push(P::Recover(b(p)));
        v
    };
    let binary = |p: &P, q: &P| {
        vec![
            P::Zip(b(p), b(q)),
            P::ZipWith(b(p), b(q)),
            P::Apply(b(p), F::Of(b(q)), false),
            P::Apply(b(p), F::Of(b(q)), true),
        ]
    };
    let app = |p: &P| {
        let mut v = vec![];
        for o in [false, true] {
            v.push(P::Apply(b(p), F::Pure, o));
            v.push(P::Apply(b(p), F::Leaf, o));
        }
        v
    };
    let mut l1 = vec![];
    for p in &s {
        l1.extend(unary(p));
        l1.extend(app(p));
        for q in &s {
            l1.extend(binary(p, q));
        }
    }
    let mut l2 = vec![];
    for p in &l1 {
        l2.extend(unary(p));
        l2.extend(app(p));
        for q in &s[..2] {
            l2.extend(binary(p, q));
            l2.extend(binary(q, p));
        }
    }
    let mut all = s;
    all.extend(l1.iter().cloned());
    if thorough {
        for p in &l2 {
            if leaves(p) <= 4 {
                all.extend(unary(p).into_iter().filter(|p| leaves(p) <= 5));
            }
        }
        for p in &l1 {
            for q in &l1 {
                if leaves(p) + leaves(q) <= 4 {
                    all.extend(binary(p, q));
                }
            }
        }
    }
    all.extend(l2);
    all
}

fn asyncm(c: &Ctx) {
    let ps = programs(c.thorough());
    c.note("programs", &format!("{} programs of up to {} combinators; every assignment of not-ready counts to their steps, every placement of at most one panic, every order of wake-ups, run twice, with and without redundant polls", ps.len(), c.pick(2, 3)));
    c.par("programs", &ps, |w, p| {
        let mut plain = vec![];
        calls(p, &mut 0, &mut plain);
        let all = leaves(p);
        let n = all - plain.len();
        let max = c.pick(if n <= 2 { 3 } else { 2 }, if n <= 3 { 4 } else { 3 });
        let pends = mc::dom::tables(n, &(0..max as u8).collect::<Vec<_>>());
        for short in &pends {
            if w.stopped() {
                return;
            }
            // plain function calls are never not-ready
            let mut it = short.iter().copied();
            let pend: Vec<u8> = (0..all).map(|i| if plain.contains(&i) { 0 } else { it.next().unwrap() }).collect();
            let pend = &pend;
            if n > 4 && !c.thorough() && pend.iter().filter(|x| **x > 0).count() > 3 {
                continue;
            }
            if n > 4 && c.thorough() && pend.iter().any(|x| *x > 1) && pend.iter().filter(|x| **x > 0).count() > 3 {
                continue;
            }
            let mut booms: Vec<Option<(usize, Boom)>> = vec![None];
            if pend.iter().all(|x| *x <= 1) {
                for i in 0..all {
                    for b in [Boom::Call, Boom::First, Boom::Last] {
                        if b == Boom::Call || !plain.contains(&i) {
                            booms.push(Some((i, b)));
                        }
                    }
                }
            }
            for boom in booms {
                for spurious in [false, true] {
                    if spurious && (boom.is_some() || pend.iter().any(|x| *x > 1)) {
                        continue;
                    }
                    w.case(
                        || format!("{p:?} not-ready {pend:?} panic {boom:?} redundant polls {spurious}"),
                        |w| check_one(w, p, pend, boom, 1, spurious),
                    );
                }
            }
        }
    });
    // long chains: every combinator iterated, every pair alternating
    let mut items = vec![];
    let wraps = |p: &P| -> Vec<P> {
        let b = |p: &P| Box::new(p.clone());
        let mut v = vec![P::Recover(b(p)), P::Apply(b(p), F::Pure, false), P::Apply(b(p), F::Leaf, true)];
        for k in [K::Pure, K::Leaf, K::Chain] {
            v.push(P::Bind(b(p), k, k == K::Leaf));
        }
        for o in [false, true] {
            v.push(P::Fmap(b(p), o));
        }
        for q in [P::Pure(3), P::Leaf] {
            v.extend([
                P::Zip(b(p), b(&q)),
                P::Zip(b(&q), b(p)),
                P::ZipWith(b(p), b(&q)),
                P::ZipWith(b(&q), b(p)),
                P::Apply(b(p), F::Of(b(&q)), false),
                P::Apply(b(&q), F::Of(b(p)), true),
            ]);
        }
        v
    };
    let k = wraps(&P::Leaf).len();
    let long = c.pick(34, 66);
    for i in 0..k {
        let mut p = P::Leaf;
        for n in 1..=long {
            p = wraps(&p).swap_remove(i);
            if [4, 9, 17, 34, 66].contains(&n) {
                items.push(p.clone());
            }
        }
        for j in (0..k).filter(|j| *j != i) {
            let mut p = P::Leaf;
            for n in 0..c.pick(4, 6) {
                p = wraps(&p).swap_remove(if n % 2 == 0 { i } else { j });
            }
            items.push(p);
        }
    }
    c.note("long programs", &format!("{} programs: every combinator iterated up to {long} times, every pair of combinators alternating; no step, each single step or each pair of steps (up to 12 steps) not ready once, a panic at each step", items.len()));
    c.par("long programs", &items, |w, p| {
        let mut plain = vec![];
        calls(p, &mut 0, &mut plain);
        let all = leaves(p);
        let waits: Vec<usize> = (0..all).filter(|i| !plain.contains(i)).collect();
        let mut pends = vec![vec![0u8; all]];
        for (x, i) in waits.iter().enumerate() {
            let mut v = vec![0u8; all];
            v[*i] = 1;
            pends.push(v.clone());
            for j in waits[x + 1..].iter().filter(|_| all <= 12) {
                v[*j] = 1;
                pends.push(v.clone());
                v[*j] = 0;
            }
        }
        for pend in &pends {
            let one = pend.iter().filter(|x| **x > 0).count() <= 1;
            w.case(|| format!("{p:?} not-ready {pend:?}"), |w| check_one(w, p, pend, None, 1, one));
        }
        for i in 0..all {
            w.case(|| format!("{p:?} panic at {i}"), |w| check_one(w, p, &pends[0], Some((i, Boom::Call)), 1, false));
        }
    });
    let small: Vec<&P> = ps.iter().filter(|p| leaves(p) <= 3).take(c.pick(400, 4000)).collect();
    c.note("two executions at once", "two executions of one value polled in every interleaving");
    c.par("two executions at once", &small, |w, p| {
        let n = leaves(p);
        for pend in mc::dom::tables(n, &[0u8, 1]) {
            w.case(|| format!("{p:?} not-ready {pend:?}"), |w| check_one(w, p, &pend, None, 2, false));
        }
    });
    abandoned(c, &small);
}

fn abandoned(c: &Ctx, small: &[&P]) {
    c.note("abandoned executions", "an execution dropped before its first poll or after 1-3 polls, then a complete one, twice, under every order of wake-ups");
    c.par("abandoned executions", small, |w, p| {
        let n = leaves(p);
        for pend in mc::dom::tables(n, &[0u8, 1]) {
            for polls in 0..4 {
                w.case(|| format!("{p:?} not-ready {pend:?}, dropped after {polls} polls"), |w| check_after(w, p, &pend, None, 1, false, Some(polls)));
            }
        }
    });
}

/// The same computation (a clone of one value) as both operands: it runs once for each.
fn shared(c: &Ctx) {
    let names = ["zip", "zip_with", "apply", "apply_owned", "bind to itself", "nested zip"];
    c.note("one computation used twice", "both operands are clones of one computation, plain or mapped; every not-ready count and wake order");
    c.seq("one computation used twice", |w| {
        for (op, name) in names.iter().enumerate() {
            for p in 0..3u8 {
                for mapped in [false, true] {
                    for recover in [false, true] {
                        w.case(|| format!("{name}, not ready {p}, mapped {mapped}, recovering {recover}"), |w| {
                            let n = schedules(|script| {
                                let cfg = Arc::new(Cfg { pend: vec![p], boom: None, run: Mutex::default() });
                                let count = Arc::new(AtomicU32::new(0));
                                let (c2, k2) = (cfg.clone(), count.clone());
                                let mut m = AsyncM::new(move || leaf(&c2, 0, 10 + k2.fetch_add(1, SeqCst)));
                                if mapped {
                                    m = m.fmap(|x| async move { x });
                                }
                                if recover {
                                    m = m.recover_with(DEFAULT);
                                }
                                let sum = |(a, b): (u32, u32)| async move { a * 100 + b };
                                let add = |m: &AsyncM<u32>| m.fmap(|b| async move { move |a: u32| a * 100 + b });
                                let (prog, uses) = match op {
                                    0 => (m.clone().zip(m.clone()).fmap(sum), 2),
                                    1 => (m.clone().zip_with(m.clone(), |a, b| a * 100 + b), 2),
                                    2 => (m.apply(add(&m)), 2),
                                    3 => (m.clone().apply_owned(add(&m)), 2),
                                    4 => {
                                        let m2 = m.clone();
                                        (
                                            m.bind(move |a| {
                                                let m2 = m2.clone();
                                                async move { m2.fmap(move |b| async move { a * 100 + b }) }
                                            }),
                                            2,
                                        )
                                    },
                                    _ => {
                                        let z = m.clone().zip(m.clone()).fmap(sum);
                                        (z.clone().zip(z).fmap(|(a, b)| async move { a * 10_000 + b }), 4)
                                    },
                                };
                                if count.load(SeqCst) != 0 {
                                    return Err("ran while being built".into());
                                }
                                let (out, opts) = drive(&prog, &cfg, 1, script, false)?;
                                if count.load(SeqCst) != uses {
                                    return Err(format!("made {} times, expected {uses}", count.load(SeqCst)));
                                }
                                // each use has its own value: the digits are a permutation
                                let mut v = out[0].unwrap();
                                let mut parts = vec![];
                                for _ in 0..uses {
                                    parts.push(v % 100);
                                    v /= 100;
                                }
                                parts.sort();
                                if parts != (0..uses).map(|i| 10 + i).collect::<Vec<_>>() {
                                    return Err(format!("values {out:?}"));
                                }
                                if op == 4 && out[0] != Some(1011) {
                                    return Err(format!("value {out:?}, expected 1011"));
                                }
                                Ok(opts)
                            })?;
                            w.add_cases(n - 1);
                            w.op(n * 4);
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

fn validated(c: &Ctx) {
    // sizes around the inline capacity of the error list and the joiner's own threshold
    let sizes = [1usize, 2, 3, 4, 8, 9, 10, 31, 33];
    c.note("validation values", "asynchronous mapping of values and errors, 1..33 errors, up to 4 of them not ready, every order of completion");
    let mut items: Vec<(usize, Vec<usize>)> = vec![];
    for n in sizes {
        let pos: Vec<usize> = (0..n).filter(|i| *i < 2 || *i + 2 >= n || *i == 7 || *i == 8).collect();
        for mask in 0..1u32 << pos.len() {
            let sel: Vec<usize> = (0..pos.len()).filter(|i| mask & (1 << i) != 0).map(|i| pos[i]).collect();
            if sel.len() <= c.pick(3, 4) {
                items.push((n, sel));
            }
        }
    }
    c.par("validation values", &items, |w, (n, sel)| {
        w.case(|| format!("{n} errors, not ready: {sel:?}"), |w| {
            let m = schedules(|script| {
                let mut pend = vec![0u8; *n];
                for i in sel {
                    pend[*i] = 1;
                }
                let cfg = Arc::new(Cfg { pend, boom: None, run: Mutex::default() });
                let es: Vec<u32> = (0..*n as u32).collect();
                let c2 = cfg.clone();
                let m = AsyncM::new(move || {
                    let c3 = c2.clone();
                    let v: Validated<u32, u32> = Validated::invalid_many(es.clone());
                    async move {
                        let r = v.fmap_invalid_async(move |e| leaf(&c3, e as usize, e * 5 + 1)).await;
                        // fold the whole error list, in order, into one number
                        match r {
                            Validated::Valid(_) => 1,
                            Validated::Invalid(es) => mc::hash_debug(&es.to_vec()) as u32 | 2,
                        }
                    }
                });
                let want = mc::hash_debug(&(0..*n as u32).map(|e| e * 5 + 1).collect::<Vec<_>>()) as u32 | 2;
                let (out, opts) = drive(&m, &cfg, 1, script, false)?;
                if out != [Some(want)] {
                    return Err("mapped error list differs (content or order)".into());
                }
                let t = &cfg.run.lock().unwrap().trace;
                for i in 0..*n {
                    let k = t.iter().filter(|e| **e == Ev::Start(i)).count();
                    if k != 1 {
                        return Err(format!("error {i} was mapped {k} times"));
                    }
                }
                Ok(opts)
            })?;
            w.add_cases(m - 1);
            w.op(m * *n as u64);
            Ok(())
        });
    });
    c.seq("validation values, other operations", |w| {
        let vals: Vec<Validated<u32, u32>> =
            vec![Validated::Valid(5), Validated::invalid(1), Validated::invalid_many([1, 2]), Validated::invalid_many((0..9).collect::<Vec<_>>())];
        for (i, v) in vals.iter().enumerate() {
            for p in 0..3u8 {
                for op in 0..4 {
                    w.case(|| format!("value {i}, operation {op}, not ready {p}"), |w| {
                        let cfg = Arc::new(Cfg { pend: vec![p], boom: None, run: Mutex::default() });
                        let got: Arc<Mutex<Option<Validated<u32, u32>>>> = Default::default();
                        let calls = Arc::new(AtomicU32::new(0));
                        let (v2, c2, g2, k2) = (v.clone(), cfg.clone(), got.clone(), calls.clone());
                        let m = AsyncM::new(move || {
                            let (v, c, g, k) = (v2.clone(), c2.clone(), g2.clone(), k2.clone());
                            async move {
                                let r = match op {
                                    0 => {
                                        v.fmap_valid_async(move |x| {
                                            k.fetch_add(1, SeqCst);
                                            leaf(&c, 0, x * 2)
                                        })
                                        .await
                                    },
                                    1 => {
                                        v.and_then_async(move |x| {
                                            k.fetch_add(1, SeqCst);
                                            let l = leaf(&c, 0, x * 3);
                                            async move { Validated::Valid(l.await) }
                                        })
                                        .await
                                    },
                                    2 => {
                                        v.and_then_async(move |x| {
                                            k.fetch_add(1, SeqCst);
                                            let l = leaf(&c, 0, x * 3);
                                            async move {
                                                l.await;
                                                Validated::invalid_many([70, 71])
                                            }
                                        })
                                        .await
                                    },
                                    _ => {
                                        // a valid value must not reach the error function
                                        if v.is_valid() {
                                            v.fmap_invalid_async(move |x| {
                                                k.fetch_add(1, SeqCst);
                                                leaf(&c, 0, x)
                                            })
                                            .await
                                        } else {
                                            v
                                        }
                                    },
                                };
                                *g.lock().unwrap() = Some(r);
                                0
                            }
                        });
                        drive(&m, &cfg, 1, &[], false)?;
                        let want = match (v, op) {
                            (Validated::Valid(x), 0) => Validated::Valid(x * 2),
                            (Validated::Valid(x), 1) => Validated::Valid(x * 3),
                            (Validated::Valid(_), 2) => Validated::invalid_many([70, 71]),
                            (v, _) => v.clone(),
                        };
                        let want_calls = (v.is_valid() && op < 3) as u32;
                        w.eq("result", &got.lock().unwrap().take(), &Some(want))?;
                        w.eq("calls of the function", &calls.load(SeqCst), &want_calls)
                    });
                }
            }
        }
    });
}

// ------------------------------------------------------------------ operands that need each other
/// Tells its partner it has come this far; completes once the partner has.
struct Meet {
    here: Arc<Mutex<(bool, Option<Waker>)>>,
    there: Arc<Mutex<(bool, Option<Waker>)>>,
    waits: bool,
}
impl Future for Meet {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.here.lock().unwrap().0 = true;
        let mut t = self.there.lock().unwrap();
        if let Some(w) = t.1.take() {
            w.wake();
        }
        if t.0 || !self.waits {
            return Poll::Ready(());
        }
        drop(t);
        self.here.lock().unwrap().1 = Some(cx.waker().clone());
        Poll::Pending
    }
}
const SHAPES: [&str; 8] = ["effect", "mapped effect", "effect in a mapping", "effect after bind", "owned bind", "zipped with a pure value", "recovering", "zipped with an effect"];
fn meeting(shape: usize, v: u32, mk: impl Fn() -> Meet + Clone + Send + Sync + 'static) -> AsyncM<u32> {
    let m2 = mk.clone();
    let eff = AsyncM::new(move || {
        let m = m2();
        async move {
            m.await;
            v
        }
    });
    match shape {
        0 => eff,
        1 => eff.fmap(|x| async move { x }),
        2 => AsyncM::pure(v).fmap(move |x| {
            let m = mk();
            async move {
                m.await;
                x
            }
        }),
        3 => AsyncM::new(|| async { 0u32 }).bind(move |_| {
            let e = eff.clone();
            async move { e }
        }),
        4 => AsyncM::pure(0u32).bind_owned(move |_| {
            let e = eff.clone();
            async move { e }
        }),
        5 => eff.zip(AsyncM::pure(0u32)).fmap(|p| async move { p.0 }),
        6 => eff.recover_with(9_999),
        _ => AsyncM::new(|| async { 0u32 }).zip_with(eff, |_, x| x),
    }
}
fn meetings(c: &Ctx) {
    c.note("operands that need each other", "zip and zip_with of two computations of 8 shapes each, where the left waits for the right to start, the right for the left, or both: run twice, polled only when woken");
    let items: Vec<(usize, usize, usize)> = (0..SHAPES.len()).flat_map(|a| (0..SHAPES.len()).flat_map(move |b| (0..3).map(move |k| (a, b, k)))).collect();
    c.par("operands that need each other", &items, |w, (a, b, k)| {
        for op in ["zip", "zip_with"] {
            w.case(|| format!("{op}({}, {}), {} waits", SHAPES[*a], SHAPES[*b], ["left", "right", "each"][*k]), |w| {
                let (l, r) = (Arc::new(Mutex::new((false, None))), Arc::new(Mutex::new((false, None))));
                let (l2, r2, k) = (l.clone(), r.clone(), *k);
                let left = meeting(*a, 11, move || Meet { here: l2.clone(), there: r2.clone(), waits: k != 1 });
                let (l2, r2) = (l.clone(), r.clone());
                let right = meeting(*b, 22, move || Meet { here: r2.clone(), there: l2.clone(), waits: k != 0 });
                let both = if op == "zip" { left.zip(right) } else { left.zip_with(right, |a, b| (a, b)) };
                for run in 0..2 {
                    *l.lock().unwrap() = (false, None);
                    *r.lock().unwrap() = (false, None);
                    let mut f = Box::pin(both.try_get());
                    let flag = Arc::new(Flag(AtomicBool::new(true)));
                    let waker = Waker::from(flag.clone());
                    let mut got = None;
                    while flag.0.swap(false, SeqCst) {
                        w.op(1);
                        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                            got = Some(v);
                            break;
                        }
                    }
                    w.same("value of the pair", &(run, got), &(run, Some((11, 22))))?;
                }
                Ok(())
            });
        }
    });
}

fn main() {
    mc::run("C07", |c| {
        asyncm(c);
        shared(c);
        meetings(c);
        validated(c);
        c.assume("one task polls the computation (two in one group); steps interact only through their values");
        c.assume("when one of two concurrent branches panics, how far the other got is unspecified");
    })
}
