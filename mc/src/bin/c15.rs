//! C15: state computations thread the state exactly as their program says.
//!
//! Every program up to a depth is built from the combinators of `State` and of `StateT`
//! over four base effects, run from every state (twice), and compared with a direct
//! evaluation of the program: outcome, and the exact trace of effects and calls.
use mc::prog::*;
use mc::{Ctx, Res, W};
use rustica::datatypes::id::Id;
use rustica::datatypes::state::{self, State};
use rustica::traits::identity::Identity;
use rustica::transformers::{MonadTransformer, StateT};
use std::sync::Arc;

/// A canonical outcome: (state, value) results in order, or an error.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Out(Vec<(u8, u8)>, Option<u8>);

const NEW: [[(u8, u8); 3]; 2] = [[(1, 2), (0, 0), (2, 1)], [(2, 0), (2, 1), (0, 2)]];
const ADD: [u8; 3] = [1, 2, 0];

// Atoms: 0 get, 1 put 2, 2 modify +1, 3/4 new tables, 5 pure 1, 6 fail, 7 many,
// 8 and 10 LiftM, 9 lift (ignores the incoming state, as documented).
// Continuation atoms: 0 put the value, 1 add the value to the state, 2 fail if zero.

struct Opts {
    put_old: bool,
    par: bool,
    multi: bool,
    err: bool,
}

// ---- reference
fn many(o: &Opts, s: u8) -> Out {
    if o.multi { Out(vec![((s + 1) % D, s), (s, 2)], None) } else { Out(vec![((s + 1) % D, s)], None) }
}
fn fail(o: &Opts, e: u8) -> Out {
    Out(vec![], o.err.then_some(e))
}
fn r_atom(o: &Opts, i: u8, s: u8) -> Out {
    let one = |s, a| Out(vec![(s, a)], None);
    match i {
        0 => one(s, s),
        1 => one(2, if o.put_old { s } else { 0 }),
        2 => {
            log(ev_a(2, s));
            one((s + 1) % D, 0)
        },
        3 | 4 => {
            log(ev_a(i, s));
            let (s2, a) = NEW[i as usize - 3][s as usize];
            one(s2, a)
        },
        5 => one(s, 1),
        6 => {
            log(ev_a(6, s));
            if s == 1 { fail(o, 2) } else { one(s, 2) }
        },
        7 => {
            log(ev_a(7, s));
            many(o, s)
        },
        8 | 9 => one(if i == 8 { 1 } else { 2 }, 0),
        10 => one(0, 2),
        _ => unreachable!(),
    }
}
fn r_katom(o: &Opts, i: u8, a: u8, s: u8) -> Out {
    match i {
        0 => Out(vec![(a, if o.put_old { s } else { 0 })], None),
        1 => {
            log(ev_a(11, s));
            Out(vec![((s + a) % D, 0)], None)
        },
        _ => {
            if a == 0 { fail(o, s) } else { Out(vec![(s, a)], None) }
        },
    }
}
fn r_bind(m: Out, mut k: impl FnMut(u8, u8) -> Out) -> Out {
    let mut r = vec![];
    if m.1.is_some() {
        return m;
    }
    for (s, a) in m.0 {
        let x = k(s, a);
        if x.1.is_some() {
            return x;
        }
        r.extend(x.0);
    }
    Out(r, None)
}
fn r_run(o: &Opts, p: &P, s: u8) -> Out {
    match p {
        P::Atom(i) => r_atom(o, *i, s),
        P::Fmap(t, p) => r_bind(r_run(o, p, s), |s, a| {
            log(ev_f(*t, a));
            Out(vec![(s, tbl(*t, a))], None)
        }),
        P::Bind(p, k) => r_bind(r_run(o, p, s), |s, a| r_k(o, k, a, s)),
        P::Ap(p, q) if !o.par => r_bind(r_run(o, p, s), |s1, f| {
            r_bind(r_run(o, q, s1), |s2, a| Out(vec![(s2, ap2(f, a))], None))
        }),
        // both parts from the same state, merged by the supplied function
        P::Ap(p, q) => r_par(r_run(o, p, s), r_run(o, q, s)),
        P::Two(_, p, q) => r_par(r_run(o, p, s), r_run(o, q, s)),
        P::One(0, p) => r_bind(r_run(o, p, s), |s, a| {
            log(ev_k(a));
            r_atom(o, if a == 0 { 3 } else { 0 }, s)
        }),
        // Pure(a) variant as the source of a bind, or mapped first
        P::One(1 | 2, p) => r_run(o, p, s),
        P::One(3, p) => {
            let mut r = r_run(o, p, s);
            if let Some(e) = &mut r.1 {
                log(ev_f(9, *e));
                *e = tbl(0, *e);
            }
            r
        },
        P::One(..) => unreachable!(),
    }
}
fn r_par(a: Out, b: Out) -> Out {
    if a.1.is_some() {
        return a;
    }
    if b.1.is_some() {
        return b;
    }
    Out(a.0.iter().flat_map(|(_, x)| b.0.iter().map(|(s, y)| (*s, ap2(*x, *y)))).collect(), None)
}
fn r_k(o: &Opts, k: &K, a: u8, s: u8) -> Out {
    log(ev_k(a));
    match k {
        K::Ret(t) => Out(vec![(s, tbl(*t, a))], None),
        K::Atom(i) => r_katom(o, *i, a, s),
        K::Const(p) => r_run(o, p, s),
        K::Sel(p, q) => r_run(o, if a == 0 { p } else { q }, s),
    }
}

// ---- State
struct LState;
impl Lang for LState {
    type T = State<u8, u8>;
    fn pure(a: u8) -> Self::T {
        State::pure(a)
    }
    fn atom(i: u8) -> Self::T {
        match i {
            0 => state::get(),
            1 => state::put(2).fmap(|()| 0),
            2 => state::modify(|s: u8| {
                log(ev_a(2, s));
                ADD[s as usize]
            })
            .bind(|()| State::pure(0)),
            3 | 4 => State::new(move |s: u8| {
                log(ev_a(i, s));
                let (s2, a) = NEW[i as usize - 3][s as usize];
                (a, s2)
            }),
            5 => State::pure(1),
            7 => State::new(move |s: u8| {
                log(ev_a(7, s));
                (s, (s + 1) % D)
            }),
            9 => State::from(StateT::new(move |_: u8| Id::new((0, 2)))),
            _ => unreachable!(),
        }
    }
    fn katom(i: u8, a: u8) -> Self::T {
        match i {
            0 => state::put(a).bind(|()| State::pure(0)),
            1 => state::modify(move |s: u8| {
                log(ev_a(11, s));
                (s + a) % D
            })
            .fmap(|()| 0),
            _ => unreachable!(),
        }
    }
    fn fmap(p: Self::T, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> Self::T {
        p.fmap(f)
    }
    fn bind(p: Self::T, k: impl Fn(u8) -> Self::T + Send + Sync + Clone + 'static) -> Self::T {
        p.bind(k)
    }
    fn ap(p: Self::T, q: Self::T) -> Self::T {
        p.fmap(|x| move |y: u8| ap2(x, y)).apply(q)
    }
    fn one(i: u8, p: Self::T) -> Self::T {
        match i {
            // through the transformer and back
            2 => StateT::from_state(p.clone()).to_state(),
            _ => unreachable!(),
        }
    }
}

// ---- StateT over a base effect
trait Base: Send + Sync + 'static {
    type M<X: Clone + Send + Sync + 'static>: Clone + Send + Sync + 'static;
    const MULTI: bool = false;
    const ERR: bool = false;
    fn pure<X: Clone + Send + Sync + 'static>(x: X) -> Self::M<X>;
    fn fail<X: Clone + Send + Sync + 'static>(e: u8) -> Self::M<X>;
    fn many<X: Clone + Send + Sync + 'static>(x: X, _y: X) -> Self::M<X> {
        Self::pure(x)
    }
    fn bind<X: Clone + Send + Sync + 'static, Y: Clone + Send + Sync + 'static>(
        m: Self::M<X>,
        f: impl Fn(X) -> Self::M<Y>,
    ) -> Self::M<Y>;
    fn lift(m: Self::M<(u8, u8)>) -> T<Self>
    where
        Self: Sized;
    fn out(m: &Self::M<(u8, u8)>) -> Out;
    fn map_err(p: T<Self>) -> T<Self>
    where
        Self: Sized,
    {
        p
    }
    fn extra(_w: &mut W, _p: &T<Self>, _s: u8, _want: &Out) -> Res
    where
        Self: Sized,
    {
        Ok(())
    }
}
type T<B> = StateT<u8, <B as Base>::M<(u8, u8)>, u8>;

struct BOpt;
impl Base for BOpt {
    type M<X: Clone + Send + Sync + 'static> = Option<X>;
    fn pure<X: Clone + Send + Sync + 'static>(x: X) -> Option<X> {
        Some(x)
    }
    fn fail<X: Clone + Send + Sync + 'static>(_e: u8) -> Option<X> {
        None
    }
    fn bind<X: Clone + Send + Sync + 'static, Y: Clone + Send + Sync + 'static>(m: Option<X>, f: impl Fn(X) -> Option<Y>) -> Option<Y> {
        m.and_then(f)
    }
    fn lift(m: Option<(u8, u8)>) -> T<Self> {
        StateT::lift(m)
    }
    fn out(m: &Option<(u8, u8)>) -> Out {
        Out(m.iter().copied().collect(), None)
    }
}
struct BRes;
impl Base for BRes {
    type M<X: Clone + Send + Sync + 'static> = Result<X, u8>;
    const ERR: bool = true;
    fn pure<X: Clone + Send + Sync + 'static>(x: X) -> Result<X, u8> {
        Ok(x)
    }
    fn fail<X: Clone + Send + Sync + 'static>(e: u8) -> Result<X, u8> {
        Err(e)
    }
    fn bind<X: Clone + Send + Sync + 'static, Y: Clone + Send + Sync + 'static>(
        m: Result<X, u8>,
        f: impl Fn(X) -> Result<Y, u8>,
    ) -> Result<Y, u8> {
        m.and_then(f)
    }
    fn lift(m: Result<(u8, u8), u8>) -> T<Self> {
        rustica::transformers::lift(m)
    }
    fn out(m: &Result<(u8, u8), u8>) -> Out {
        match m {
            Ok(x) => Out(vec![*x], None),
            Err(e) => Out(vec![], Some(*e)),
        }
    }
    fn map_err(p: T<Self>) -> T<Self> {
        p.map_error(|e| {
            log(ev_f(9, e));
            tbl(0, e)
        })
    }
    fn extra(w: &mut W, p: &T<Self>, s: u8, want: &Out) -> Res {
        let ctx: Vec<String> = vec!["while running".into()];
        let want: Result<(u8, u8), u8> = match want.1 {
            None => Ok(want.0[0]),
            Some(e) => Err(e),
        };
        let plain = |e: rustica::error::ComposableError<u8>| (*e.core_error(), e.context(), e.error_code());
        let no: Vec<String> = vec![];
        w.eq("try_run_state", &p.try_run_state(s).map_err(plain), &want.map_err(|e| (e, no.clone(), None)))?;
        w.eq("try_eval_state", &p.try_eval_state(s).map_err(plain), &want.map(|x| x.1).map_err(|e| (e, no.clone(), None)))?;
        w.eq("try_exec_state", &p.try_exec_state(s).map_err(plain), &want.map(|x| x.0).map_err(|e| (e, no.clone(), None)))?;
        w.eq(
            "try_run_state_with_context",
            &p.try_run_state_with_context(s, "while running").map_err(plain),
            &want.map_err(|e| (e, ctx.clone(), None)),
        )?;
        w.eq(
            "try_eval_state_with_context",
            &p.try_eval_state_with_context(s, "while running".to_string()).map_err(plain),
            &want.map(|x| x.1).map_err(|e| (e, ctx.clone(), None)),
        )
    }
}
struct BVec;
impl Base for BVec {
    type M<X: Clone + Send + Sync + 'static> = Vec<X>;
    const MULTI: bool = true;
    fn pure<X: Clone + Send + Sync + 'static>(x: X) -> Vec<X> {
        vec![x]
    }
    fn fail<X: Clone + Send + Sync + 'static>(_e: u8) -> Vec<X> {
        vec![]
    }
    fn many<X: Clone + Send + Sync + 'static>(x: X, y: X) -> Vec<X> {
        vec![x, y]
    }
    fn bind<X: Clone + Send + Sync + 'static, Y: Clone + Send + Sync + 'static>(m: Vec<X>, f: impl Fn(X) -> Vec<Y>) -> Vec<Y> {
        m.into_iter().flat_map(f).collect()
    }
    fn lift(m: Vec<(u8, u8)>) -> T<Self> {
        StateT::new(move |_| m.clone())
    }
    fn out(m: &Vec<(u8, u8)>) -> Out {
        Out(m.clone(), None)
    }
}
struct BId;
impl Base for BId {
    type M<X: Clone + Send + Sync + 'static> = Id<X>;
    fn pure<X: Clone + Send + Sync + 'static>(x: X) -> Id<X> {
        Id::new(x)
    }
    fn fail<X: Clone + Send + Sync + 'static>(_e: u8) -> Id<X> {
        unreachable!()
    }
    fn bind<X: Clone + Send + Sync + 'static, Y: Clone + Send + Sync + 'static>(m: Id<X>, f: impl Fn(X) -> Id<Y>) -> Id<Y> {
        f(m.into_value())
    }
    fn lift(m: Id<(u8, u8)>) -> T<Self> {
        StateT::lift(m)
    }
    fn out(m: &Id<(u8, u8)>) -> Out {
        Out(vec![*m.value()], None)
    }
    fn extra(w: &mut W, p: &T<Self>, s: u8, want: &Out) -> Res {
        let (s2, a) = want.0[0];
        w.eq("to_state", &p.clone().to_state().run_state(s), &(a, s2))?;
        w.eq("from_state . to_state", &Self::out(&StateT::from_state(p.clone().to_state()).run_state(s)), want)
    }
}

struct LT<B>(std::marker::PhantomData<B>);
impl<B: Base> LT<B> {
    fn par(m: B::M<(u8, u8)>, n: B::M<(u8, u8)>) -> B::M<(u8, u8)> {
        B::bind(m, move |(_, x)| B::bind(n.clone(), move |(s, y)| B::pure((s, ap2(x, y)))))
    }
}
impl<B: Base> Lang for LT<B> {
    type T = T<B>;
    fn pure(a: u8) -> T<B> {
        StateT::pure(a, B::pure)
    }
    fn atom(i: u8) -> T<B> {
        match i {
            0 => StateT::<u8, B::M<(u8, u8)>, u8>::get(B::pure),
            1 => StateT::<u8, B::M<(u8, u8)>, u8>::put(2, B::pure),
            2 => StateT::<u8, B::M<(u8, ())>, ()>::modify(
                |s| {
                    log(ev_a(2, s));
                    (s + 1) % D
                },
                B::pure,
            )
            .bind_with(|()| Self::pure(0), |m, f| B::bind(m, f)),
            3 | 4 => StateT::new(move |s| {
                log(ev_a(i, s));
                B::pure(NEW[i as usize - 3][s as usize])
            }),
            5 => Self::pure(1),
            6 => StateT::new(|s| {
                log(ev_a(6, s));
                if s == 1 { B::fail(2) } else { B::pure((s, 2)) }
            }),
            7 => StateT::new(|s| {
                log(ev_a(7, s));
                B::many(((s + 1) % D, s), (s, 2))
            }),
            8 => StateT::LiftM(B::pure((1, 0))),
            9 => B::lift(B::pure((2, 0))),
            10 => StateT::LiftM(B::pure((0, 2))),
            _ => unreachable!(),
        }
    }
    fn katom(i: u8, a: u8) -> T<B> {
        match i {
            0 => StateT::<u8, B::M<(u8, u8)>, u8>::put(a, B::pure),
            1 => StateT::<u8, B::M<(u8, ())>, ()>::modify(
                move |s| {
                    log(ev_a(11, s));
                    (s + a) % D
                },
                B::pure,
            )
            .bind_with(|()| Self::pure(0), |m, f| B::bind(m, f)),
            _ => StateT::new(move |s| if a == 0 { B::fail(s) } else { B::pure((s, a)) }),
        }
    }
    fn fmap(p: T<B>, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> T<B> {
        p.fmap_with(f, |m, g| B::bind(m, move |x| B::pure(g(x))))
    }
    fn bind(p: T<B>, k: impl Fn(u8) -> T<B> + Send + Sync + Clone + 'static) -> T<B> {
        p.bind_with(k, |m, f| B::bind(m, f))
    }
    fn ap(p: T<B>, q: T<B>) -> T<B> {
        p.apply(q, Self::par)
    }
    fn one(i: u8, p: T<B>) -> T<B> {
        match i {
            // join of a computation that yields a computation
            0 => {
                type In<B> = StateT<u8, <B as Base>::M<(u8, u8)>, u8>;
                let outer: StateT<u8, B::M<(u8, In<B>)>, u8> = StateT::new(move |s| {
                    B::bind(p.run_state(s), |(s, a)| {
                        log(ev_k(a));
                        B::pure((s, Self::atom(if a == 0 { 3 } else { 0 })))
                    })
                });
                outer.join(|m| B::bind(m, |(s, inner)| inner.run_state(s)))
            },
            1 => StateT::<u8, B::M<(u8, u8)>, u8>::Pure(0)
                .clone()
                .fmap_with(|x: u8| x + 1, |m: B::M<(u8, u8)>, _| m)
                .combine_with(&StateT::Pure(2), |x: u8, y: u8| x * 10 + y, |m, _, _| m)
                .join(|m| m)
                .bind_with(
                    move |x| if x == 12 { p.clone() } else { Self::atom(6) },
                    |m, f| B::bind(m, f),
                ),
            2 => {
                // rebuilt through run_state / exec_state and cloned
                let q = p.clone();
                StateT::new(move |s| q.exec_state(s, |m| m))
            },
            _ => B::map_err(p),
        }
    }
    fn two(_i: u8, p: T<B>, q: T<B>) -> T<B> {
        match (&p, &q) {
            // mixing a lifted effect with a state transition is refused by combine_with
            (StateT::LiftM(_), StateT::Effect(_)) | (StateT::Effect(_), StateT::LiftM(_)) => p.apply(q, Self::par),
            _ => p.combine_with(&q, ap2, |m, n, f| {
                let f = Arc::new(f);
                B::bind(m, move |x| {
                    let f = f.clone();
                    B::bind(n.clone(), move |y| B::pure(f(x, y)))
                })
            }),
        }
    }
}

fn check<L: Lang>(
    w: &mut W,
    o: &Opts,
    p: &P,
    thorough: bool,
    run: impl Fn(&L::T, u8) -> Out + Sync,
    extra: impl Fn(&mut W, &L::T, u8, &Out) -> Res,
) -> Res {
    effects();
    let t = build::<L>(p);
    w.same("effects while building", &effects(), &Vec::<Ev>::new())?;
    for s in 0..D {
        let want = r_run(o, p, s);
        let tr = effects();
        for n in 0..2 {
            let got = run(&t, s);
            let gt = effects();
            w.eq(if n == 0 { "run" } else { "second run" }, &(s, &got), &(s, &want))?;
            w.same("trace", &gt, &tr)?;
        }
        extra(w, &t, s, &want)?;
        effects();
    }
    let from: [&(dyn Fn() -> Out + Sync); 3] = [&|| run(&t, 0), &|| run(&t, 1), &|| run(&t, 2)];
    let runs: Vec<_> = (0..D)
        .map(|s| {
            let want = r_run(o, p, s);
            (from[s as usize], want, effects())
        })
        .collect();
    overlap(w, switches(p, thorough), &runs)
}

fn group<L: Lang>(
    c: &Ctx,
    name: &str,
    spec: Spec,
    o: Opts,
    run: impl Fn(&L::T, u8) -> Out + Sync,
    extra: impl Fn(&mut W, &L::T, u8, &Out) -> Res + Sync,
) {
    let mut ps = spec.programs(c.pick(2, 3));
    ps.extend(spec.bushy());
    // an inner effect with several results grows exponentially: shorter programs there
    ps.extend(if o.multi { spec.long(&[5, 6], 2) } else { spec.long(c.pick(&[6, 9, 17, 33, 65], &[6, 9, 17, 33, 65, 130]), 3) });
    c.note(
        name,
        &format!(
            "{} programs: all combinator chains of depth {} over {} atoms with atom operands, plus all binary combinations of depth-1 programs, plus every combinator iterated up to 65 (130) times and every pair alternating; 3 states, each run twice",
            ps.len(),
            c.pick(2, 3),
            spec.atoms.len()
        ),
    );
    c.par(name, &ps, |w, p| {
        w.case(|| format!("{p:?}"), |w| check::<L>(w, &o, p, c.thorough(), &run, &extra));
    });
}

fn main() {
    mc::run("C15", |c| {
        c.assume("values and states range over {0,1,2}; the library's combinators are generic and cannot inspect them");
        group::<LState>(
            c,
            "State",
            Spec { atoms: vec![0, 1, 2, 3, 4, 5, 9], tables: vec![0, 1], katoms: vec![0, 1], ones: vec![2], twos: vec![], ap: true },
            Opts { put_old: false, par: false, multi: false, err: false },
            |t, s| {
                let (a, s2) = t.run_state(s);
                Out(vec![(s2, a)], None)
            },
            |w, t, s, want| {
                let (s2, a) = want.0[0];
                w.eq("eval_state", &t.eval_state(s), &a)?;
                w.eq("exec_state", &t.exec_state(s), &s2)?;
                w.eq("exec_pure", &t.exec_pure(s), &s2)?;
                w.eq("clone", &t.clone().run_state(s), &(a, s2))
            },
        );
        fn spec(fails: bool, errs: bool) -> Spec {
            let mut atoms = vec![0, 1, 3, 5, 7, 8, 9, 10];
            let mut katoms = vec![0, 1];
            let mut ones = vec![0, 1, 2];
            if fails {
                atoms.push(6);
                katoms.push(2);
            } else {
                atoms.extend([2, 4]);
            }
            if errs {
                ones.push(3);
            }
            Spec { atoms, tables: vec![0, 1], katoms, ones, twos: vec![0], ap: true }
        }
        fn go<B: Base>(c: &Ctx, name: &str, fails: bool) {
            group::<LT<B>>(
                c,
                name,
                spec(fails, B::ERR),
                Opts { put_old: true, par: true, multi: B::MULTI, err: B::ERR },
                |t, s| B::out(&t.run_state(s)),
                |w, t, s, want| {
                    w.eq("clone", &B::out(&t.clone().run_state(s)), want)?;
                    w.eq("exec_state", &t.exec_state(s, |m| B::out(&m)), want)?;
                    B::extra(w, t, s, want)
                },
            );
        }
        go::<BOpt>(c, "StateT over Option", true);
        go::<BRes>(c, "StateT over Result", true);
        go::<BVec>(c, "StateT over Vec", true);
        go::<BId>(c, "StateT over Id", false);

        // State carrying a Result: the try_* projections
        let cells: Vec<(Result<u8, u8>, u8)> = (0..D)
            .flat_map(|s| [(Ok(0), s), (Ok(2), s), (Err(0), s), (Err(1), s)])
            .collect();
        let tabs = mc::dom::tables(3, &cells);
        c.note("State with Result values", "every state transition {0,1,2} -> (Result, state) over 12 outcomes");
        c.par("State with Result values", &tabs, |w, tab| {
            w.case(
                || format!("{tab:?}"),
                |w| {
                    let t2 = tab.clone();
                    let st: State<u8, Result<u8, u8>> = State::new(move |s| {
                        log(ev_a(1, s));
                        t2[s as usize]
                    });
                    let ctx = vec!["here".to_string()];
                    let no: Vec<String> = vec![];
                    let plain = |e: rustica::error::ComposableError<u8>| (*e.core_error(), e.context());
                    take();
                    for s in 0..D {
                        let (r, s2) = tab[s as usize];
                        let (a, b) = st.try_run_state(s);
                        w.eq("try_run_state", &(a.map_err(plain), b), &(r.map_err(|e| (e, no.clone())), s2))?;
                        let (a, b) = st.try_run_state_with_context(s, "here");
                        w.eq("try_run_state_with_context", &(a.map_err(plain), b), &(r.map_err(|e| (e, ctx.clone())), s2))?;
                        w.eq("try_eval_state", &st.try_eval_state(s).map_err(plain), &r.map_err(|e| (e, no.clone())))?;
                        w.eq("try_eval_state_with_context", &st.try_eval_state_with_context(s, "here").map_err(plain), &r.map_err(|e| (e, ctx.clone())))?;
                        w.eq("try_exec_state", &st.try_exec_state(s).map_err(plain), &r.map(|_| s2).map_err(|e| (e, no.clone())))?;
                        w.eq("try_exec_state_with_context", &st.try_exec_state_with_context(s, "here").map_err(plain), &r.map(|_| s2).map_err(|e| (e, ctx.clone())))?;
                        w.same("each projection runs the program once", &take(), &vec![ev_a(1, s); 6])?;
                    }
                    Ok(())
                },
            );
        });
    })
}
