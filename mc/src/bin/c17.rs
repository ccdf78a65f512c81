//! C17: continuation computations obey the monad laws and call/cc semantics.
//!
//! Every program up to a depth is built from the combinators of `Cont` and of `ContT` over
//! three base effects - including computations that call their continuation twice or not at
//! all, and early exits - and run with several final continuations; the answer and the order
//! of effects are compared with a direct evaluator. A second, independent reading as
//! programs with exceptions cross-checks the evaluator on the single-shot programs.
use mc::prog::*;
use mc::{Ctx, Res, W};
use rustica::datatypes::cont::Cont;
use rustica::datatypes::id::Id;
use rustica::traits::identity::Identity;
use rustica::transformers::{ContT, MonadTransformer};
use std::any::Any;
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

type R = Vec<u8>;

// Atoms: 0/1 pure, 2 cps k(2), 3 effectful, 4 calls k twice, 5 never calls k, 6 lift (base effect,
// ignores k), 7 wraps the answer.
// Continuation atoms: 0 effectful value, 1 abort if zero.
// One: 0 call/cc body ignores exit; 1 exit(2) if the value is zero; 2 exit(1) first, rest skipped;
// 3 nested call/cc leaving the outer or the inner scope; 4 exit from inside a function argument
// (apply); 5 through to_cont/from_cont/clone.

trait Base: Send + Sync + 'static {
    type M: Clone + Send + Sync + PartialEq + Debug + 'static;
    fn ret(a: u8) -> Self::M;
    fn abort(a: u8) -> Self::M;
    fn merge(a: Self::M, b: Self::M) -> Self::M;
    fn wrap(a: Self::M) -> Self::M {
        Self::merge(Self::ret(77), a)
    }
    fn lift(m: Self::M) -> ContT<R, Self::M, u8>;
}
macro_rules! base {
    ($b:ident, $m:ty, $ret:expr, $abort:expr, $merge:expr) => {
        struct $b;
        impl Base for $b {
            type M = $m;
            fn ret(a: u8) -> $m {
                ($ret)(a)
            }
            fn abort(a: u8) -> $m {
                ($abort)(a)
            }
            fn merge(a: $m, b: $m) -> $m {
                ($merge)(a, b)
            }
            fn lift(m: $m) -> ContT<R, $m, u8> {
                ContT::lift(m)
            }
        }
    };
}
fn cat(a: R, b: R) -> R {
    [a, b].concat()
}
base!(BId, Id<R>, |a| Id::new(vec![a]), |a| Id::new(vec![100 + a]), |a: Id<R>, b: Id<R>| Id::new(cat(a.into_value(), b.into_value())));
base!(BOpt, Option<R>, |a| Some(vec![a]), |_| None, |a: Option<R>, b: Option<R>| a.and_then(|x| b.map(|y| cat(x, y))));
base!(BRes, Result<R, u8>, |a| Ok(vec![a]), Err, |a: Result<R, u8>, b: Result<R, u8>| a.and_then(|x| b.map(|y| cat(x, y))));

// ---- evaluator (continuation-passing)
type Kf<'a, B> = &'a dyn Fn(u8) -> <B as Base>::M;
fn r_atom<B: Base>(i: u8, k: Kf<B>) -> B::M {
    match i {
        0 | 1 => k(i),
        2 => k(2),
        3 => {
            log(ev_a(3, 0));
            k(1)
        },
        4 => {
            log(ev_a(4, 0));
            let a = k(0);
            B::merge(a, k(2))
        },
        5 => {
            log(ev_a(5, 0));
            B::abort(1)
        },
        6 => B::ret(50),
        7 => B::wrap(k(1)),
        _ => unreachable!(),
    }
}
fn r_katom<B: Base>(i: u8, a: u8, k: Kf<B>) -> B::M {
    if i == 0 {
        log(ev_a(8, a));
        return k((a + 1) % D);
    }
    if a == 0 { B::abort(2) } else { k(a) }
}
fn r<B: Base>(p: &P, k: Kf<B>) -> B::M {
    match p {
        P::Atom(i) => r_atom::<B>(*i, k),
        P::Fmap(t, p) => r::<B>(p, &|a| k(tbl(*t, a))),
        P::Bind(p, q) => r::<B>(p, &|a| r_k::<B>(q, a, k)),
        P::Ap(p, q) => r::<B>(p, &|f| r::<B>(q, &|a| k(ap2(f, a)))),
        P::One(0 | 5, p) => r::<B>(p, k),
        P::One(1, p) => r::<B>(p, &|a| k(if a == 0 { 2 } else { a })),
        P::One(2, _) => k(1),
        P::One(3, p) => r::<B>(p, &|a| if a == 0 { k(1) } else { k(tbl(1, 2)) }),
        P::One(4, p) => r::<B>(p, &|a| if a == 1 { k(0) } else { k(ap2(a, 2)) }),
        _ => unreachable!(),
    }
}
fn r_k<B: Base>(q: &K, a: u8, k: Kf<B>) -> B::M {
    match q {
        K::Ret(t) => k(tbl(*t, a)),
        K::Atom(i) => r_katom::<B>(*i, a, k),
        K::Const(p) => r::<B>(p, k),
        K::Sel(p, q) => r::<B>(if a == 0 { p } else { q }, k),
    }
}

// ---- direct-style reading: a value, or the program stopped with an answer
enum Stop {
    Abort(u8),
    Lift,
}
fn d(p: &P) -> Option<Result<u8, Stop>> {
    Some(match p {
        P::Atom(0) => Ok(0),
        P::Atom(1 | 3) => Ok(1),
        P::Atom(2) => Ok(2),
        P::Atom(5) => Err(Stop::Abort(1)),
        P::Atom(6) => Err(Stop::Lift),
        P::Atom(_) => return None,
        P::Fmap(t, p) => d(p)?.map(|a| tbl(*t, a)),
        P::Bind(p, k) => match d(p)? {
            Err(e) => Err(e),
            Ok(a) => match k {
                K::Ret(t) => Ok(tbl(*t, a)),
                K::Atom(0) => Ok((a + 1) % D),
                K::Atom(_) => {
                    if a == 0 {
                        Err(Stop::Abort(2))
                    } else {
                        Ok(a)
                    }
                },
                K::Const(p) => d(p)?,
                K::Sel(p, q) => d(if a == 0 { p } else { q })?,
            },
        },
        P::Ap(p, q) => match d(p)? {
            Err(e) => Err(e),
            Ok(f) => d(q)?.map(|a| ap2(f, a)),
        },
        P::One(1, p) => d(p)?.map(|a| if a == 0 { 2 } else { a }),
        P::One(2, _) => Ok(1),
        P::One(3, p) => d(p)?.map(|a| if a == 0 { 1 } else { tbl(1, 2) }),
        P::One(4, p) => d(p)?.map(|a| if a == 1 { 0 } else { ap2(a, 2) }),
        P::One(_, p) => d(p)?,
        P::Two(..) => unreachable!(),
    })
}

// ---- ContT
struct LT<B>(std::marker::PhantomData<B>);
type T<B> = ContT<R, <B as Base>::M, u8>;
impl<B: Base> Lang for LT<B> {
    type T = T<B>;
    fn pure(a: u8) -> T<B> {
        ContT::pure(a)
    }
    fn atom(i: u8) -> T<B> {
        match i {
            0 | 1 => ContT::pure(i),
            2 => ContT::new(|k| k(2)),
            3 => ContT::new(|k| {
                log(ev_a(3, 0));
                k(1)
            }),
            4 => ContT::new(|k| {
                log(ev_a(4, 0));
                let a = k(0);
                B::merge(a, k(2))
            }),
            5 => ContT::new(|_| {
                log(ev_a(5, 0));
                B::abort(1)
            }),
            6 => B::lift(B::ret(50)),
            7 => ContT::new(|k| B::wrap(k(1))),
            _ => unreachable!(),
        }
    }
    fn katom(i: u8, a: u8) -> T<B> {
        if i == 0 {
            ContT::new(move |k| {
                log(ev_a(8, a));
                k((a + 1) % D)
            })
        } else if a == 0 {
            ContT::new(|_| B::abort(2))
        } else {
            ContT::pure(a)
        }
    }
    fn fmap(p: T<B>, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> T<B> {
        p.fmap(f)
    }
    fn bind(p: T<B>, k: impl Fn(u8) -> T<B> + Send + Sync + Clone + 'static) -> T<B> {
        p.bind(k)
    }
    fn ap(p: T<B>, q: T<B>) -> T<B> {
        q.apply(p.fmap(|f| Arc::new(move |a| ap2(f, a)) as Arc<dyn Fn(u8) -> u8 + Send + Sync>))
    }
    fn one(i: u8, p: T<B>) -> T<B> {
        match i {
            0 => ContT::call_cc::<u8, _>(move |_exit| p.clone()),
            1 => ContT::call_cc(move |exit| p.clone().bind(move |x| if x == 0 { exit(2) } else { ContT::pure(x) })),
            2 => ContT::call_cc(move |exit| {
                let p = p.clone();
                exit(1).bind(move |_: u8| p.clone())
            }),
            3 => ContT::call_cc(move |outer: Arc<dyn Fn(u8) -> T<B> + Send + Sync>| {
                let p = p.clone();
                ContT::call_cc(move |inner: Arc<dyn Fn(u8) -> T<B> + Send + Sync>| {
                    let outer = outer.clone();
                    p.clone().bind(move |x| if x == 0 { outer(1) } else { inner(2) }).bind(|_| Self::katom(0, 0))
                })
                .bind(|y| ContT::pure(tbl(1, y)))
            }),
            4 => ContT::call_cc(move |exit: Arc<dyn Fn(u8) -> T<B> + Send + Sync>| {
                let f = p.clone().bind(move |x| if x == 1 { exit(0) } else { ContT::pure(x) });
                Self::ap(f, ContT::pure(2))
            }),
            _ => p.clone(),
        }
    }
}

// ---- Cont
type Reg = Arc<Mutex<Vec<Box<dyn Any + Send>>>>;
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
fn reg() -> Reg {
    REG.with(|r| r.borrow().clone())
}
fn keep<X: Send + 'static>(x: X) -> usize {
    let r = reg();
    let mut r = r.lock().unwrap();
    r.push(Box::new(x));
    r.len() - 1
}
fn kept_as<X: Clone + 'static>(i: usize) -> X {
    reg().lock().unwrap()[i].downcast_ref::<X>().unwrap().clone()
}
fn kept(i: usize) -> Cont<R, u8> {
    kept_as(i)
}
type C = Cont<R, u8>;
struct LCont;
impl Lang for LCont {
    type T = C;
    fn pure(a: u8) -> C {
        Cont::pure(a)
    }
    fn atom(i: u8) -> C {
        match i {
            0 | 1 => Cont::return_cont(i),
            2 => Cont::new(|k| k(2)),
            3 => Cont::new(|k| {
                log(ev_a(3, 0));
                k(1)
            }),
            4 => Cont::new(|k| {
                log(ev_a(4, 0));
                let a = k(0);
                cat(a, k(2))
            }),
            5 => Cont::new(|_| {
                log(ev_a(5, 0));
                vec![101]
            }),
            6 => ContT::<R, Id<R>, u8>::lift(Id::new(vec![50])).to_cont(),
            7 => Cont::new(|k| cat(vec![77], k(1))),
            _ => unreachable!(),
        }
    }
    fn katom(i: u8, a: u8) -> C {
        if i == 0 {
            Cont::new(move |k| {
                log(ev_a(8, a));
                k((a + 1) % D)
            })
        } else if a == 0 {
            Cont::new(|_| vec![102])
        } else {
            Cont::pure(a)
        }
    }
    fn fmap(p: C, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> C {
        p.fmap(f)
    }
    fn bind(p: C, k: impl Fn(u8) -> C + Send + Sync + Clone + 'static) -> C {
        p.bind(k)
    }
    fn ap(p: C, q: C) -> C {
        q.apply(p.fmap(|f| Arc::new(move |a| ap2(f, a)) as Arc<dyn Fn(u8) -> u8 + Send + Sync>))
    }
    fn one(i: u8, p: C) -> C {
        type Exit = Box<dyn Fn(u8) -> C + Send + Sync>;
        let n = keep(p);
        let unit: C = Cont::return_cont(0);
        match i {
            0 => unit.call_cc(move |_exit: Exit| kept(n)),
            1 => unit.call_cc(move |exit: Exit| kept(n).bind(move |x| if x == 0 { exit(2) } else { Cont::pure(x) })),
            2 => unit.call_cc(move |exit: Exit| exit(1).bind(move |_: u8| kept(n))),
            3 => unit.clone().call_cc(move |outer: Exit| {
                let o = keep(Arc::<dyn Fn(u8) -> C + Send + Sync>::from(outer));
                Cont::<R, u8>::return_cont(0)
                    .call_cc(move |inner: Exit| {
                        let outer: Arc<dyn Fn(u8) -> C + Send + Sync> = kept_as(o);
                        kept(n).bind(move |x| if x == 0 { outer(1) } else { inner(2) }).bind(|_| Self::katom(0, 0))
                    })
                    .bind(|y| Cont::pure(tbl(1, y)))
            }),
            4 => unit.call_cc(move |exit: Exit| {
                let f = kept(n).bind(move |x| if x == 1 { exit(0) } else { Cont::pure(x) });
                Self::ap(f, Cont::pure(2))
            }),
            _ => Cont::from(ContT::from_cont(kept(n))),
        }
    }
}

fn finals<B: Base>() -> [fn(u8) -> B::M; 3] {
    [
        |a| B::ret(a),
        |a| {
            log(ev_a(20, a));
            if a == 1 { B::abort(a) } else { B::ret(9 - a) }
        },
        |a| B::merge(B::ret(30 + a), B::ret(a)),
    ]
}

fn check<B: Base, L: Lang>(w: &mut W, p: &P, thorough: bool, run: impl Fn(&L::T, fn(u8) -> B::M) -> B::M + Sync) -> Res {
    REG.with(|r| *r.borrow_mut() = Reg::default());
    effects();
    let t = build::<L>(p);
    w.same("effects while building", &effects(), &Vec::<Ev>::new())?;
    for (n, k) in finals::<B>().into_iter().enumerate() {
        let want = r::<B>(p, &k);
        let tr = effects();
        if let Some(x) = d(p) {
            let direct = match x {
                Ok(a) => k(a),
                Err(Stop::Abort(a)) => B::abort(a),
                Err(Stop::Lift) => B::ret(50),
            };
            assert_eq!(want, direct, "the two references disagree");
            effects();
        }
        for _ in 0..2 {
            let got = run(&t, k);
            let gt = effects();
            w.eq("run", &(n, &got), &(n, &want))?;
            w.same("effects", &gt, &tr)?;
        }
    }
    let shared = reg();
    let here = |n: usize| {
        REG.with(|r| *r.borrow_mut() = shared.clone());
        run(&t, finals::<B>()[n])
    };
    let from: [&(dyn Fn() -> B::M + Sync); 3] = [&|| here(0), &|| here(1), &|| here(2)];
    let runs: Vec<_> = (0..3)
        .map(|n| {
            let want = r::<B>(p, &finals::<B>()[n]);
            (from[n], want, effects())
        })
        .collect();
    overlap(w, switches(p, thorough), &runs)
}
fn spec() -> Spec {
    Spec { atoms: vec![0, 3, 4, 5, 6, 7, 2], tables: vec![0, 1], katoms: vec![0, 1], ones: vec![0, 1, 2, 3, 4, 5], twos: vec![], ap: true }
}
fn group<B: Base, L: Lang>(c: &Ctx, name: &str, run: impl Fn(&L::T, fn(u8) -> B::M) -> B::M + Sync) {
    let s = spec();
    let mut ps = s.programs(c.pick(2, 3));
    ps.extend(s.bushy());
    // without the atom that calls its continuation twice: exponentially many calls
    let once = Spec { atoms: vec![0, 3, 2, 5, 6], ..s.clone() };
    ps.extend(once.long(c.pick(&[6, 9, 17, 33, 65], &[6, 9, 17, 33, 65, 130]), 5));
    c.note(
        name,
        &format!(
            "{} programs: all combinator chains of depth {} over {} atoms, plus all binary combinations of depth-1 programs, plus every combinator iterated up to 65 (130) times and every pair alternating; 3 final continuations, each run twice",
            ps.len(),
            c.pick(2, 3),
            s.atoms.len()
        ),
    );
    c.par(name, &ps, |w, p| {
        w.case(|| format!("{p:?}"), |w| check::<B, L>(w, p, c.thorough(), &run));
    });
    REG.with(|r| *r.borrow_mut() = Reg::default());
}

fn main() {
    mc::run("C17", |c| {
        c.assume("values range over {0,1,2}; lifting a base effect of the answer type yields that effect as the whole answer (the types admit nothing else)");
        c.assume("Cont::call_cc is a method whose receiver takes no part in the computation (its type admits nothing else useful); the receiver is a pure value here");
        group::<BId, LCont>(c, "Cont", |t, k| Id::new(t.run(move |a| k(a).into_value())));
        group::<BId, LT<BId>>(c, "ContT over Id", |t, k| t.run(k));
        group::<BOpt, LT<BOpt>>(c, "ContT over Option", |t, k| t.run(k));
        group::<BRes, LT<BRes>>(c, "ContT over Result", |t, k| t.run(k));
    })
}
