//! C16: environment-reading computations see the right environment, memory-safely.
//!
//! Every program up to a depth is built from the combinators of `Reader` and of `ReaderT`
//! over five base effects, run in every environment (twice) and compared with a direct
//! evaluation that passes the environment explicitly. Values and environments are
//! instances whose every creation, clone and drop is counted.
use mc::live::{self, Live};
use mc::prog::*;
use mc::{Ctx, Res, W};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::validated::Validated;
use rustica::traits::hkt::HKT;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::transformers::{MonadTransformer, ReaderT};
use std::sync::Arc;

/// A canonical outcome: values in order, or errors.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Out(Vec<u8>, Vec<u8>);

struct Opts {
    multi: bool,
    err: bool,
    accum: bool,
}

// Atoms: 0 ask, 1 asks, 2 ask_with, 3 effectful new, 4 pure 1, 5 fail in environment 1,
// 6 many, 7 lift/From, 8 asks_with / ask_transform.
// One: 0/1/2 local with a table, 3 map_error, 4 fmap_with, 5 bind_with.
// Two: 0 combine, 1 combine_with, 2 lift2, 3 apply_with (argument first, then function).
fn r_fail(o: &Opts, e: u8) -> Out {
    Out(vec![], if o.err { vec![e] } else { vec![] })
}
fn r_atom(o: &Opts, i: u8, e: u8) -> Out {
    let one = |a| Out(vec![a], vec![]);
    match i {
        0 => one(e),
        1 => one(tbl(0, e)),
        2 => one(tbl(2, e)),
        3 => {
            log(ev_a(3, e));
            one(tbl(1, e))
        },
        4 => one(1),
        5 => {
            log(ev_a(5, e));
            if e == 1 { r_fail(o, 2) } else { one(e) }
        },
        6 => {
            log(ev_a(6, e));
            if o.multi { Out(vec![e, 2], vec![]) } else { one(e) }
        },
        7 => one(2),
        8 => one(tbl(1, tbl(0, e))),
        9 => {
            log(ev_a(9, e));
            if e == 0 { r_fail(o, 1) } else { one(0) }
        },
        _ => unreachable!(),
    }
}
fn r_katom(o: &Opts, i: u8, a: u8, e: u8) -> Out {
    match i {
        0 => {
            log(ev_a(10, e));
            Out(vec![(a + e) % D], vec![])
        },
        _ => {
            if a == 0 { r_fail(o, e) } else { Out(vec![a], vec![]) }
        },
    }
}
fn r_bind(m: Out, mut k: impl FnMut(u8) -> Out) -> Out {
    if m.0.is_empty() {
        return m;
    }
    let mut r = vec![];
    let mut es = vec![];
    for a in m.0 {
        let x = k(a);
        r.extend(x.0);
        es.extend(x.1);
    }
    Out(r, es)
}
fn r_run(o: &Opts, p: &P, e: u8) -> Out {
    match p {
        P::Atom(i) => r_atom(o, *i, e),
        P::Fmap(t, p) => r_bind(r_run(o, p, e), |a| Out(vec![tbl(*t, a)], vec![])),
        P::Bind(p, k) => r_bind(r_run(o, p, e), |a| match k {
            K::Ret(t) => Out(vec![tbl(*t, a)], vec![]),
            K::Atom(i) => r_katom(o, *i, a, e),
            K::Const(p) => r_run(o, p, e),
            K::Sel(p, q) => r_run(o, if a == 0 { p } else { q }, e),
        }),
        P::Ap(..) => unreachable!(),
        P::One(i @ 0..=2, p) => r_run(o, p, tbl(*i, e)),
        P::One(3, p) => {
            let mut r = r_run(o, p, e);
            r.1.iter_mut().for_each(|x| *x = tbl(0, *x));
            r
        },
        P::One(4, p) => r_bind(r_run(o, p, e), |a| Out(vec![tbl(2, a)], vec![])),
        P::One(5, p) => r_bind(r_run(o, p, e), |a| r_katom(o, 0, a, e)),
        P::One(..) => unreachable!(),
        P::Two(i, p, q) => {
            let a = r_run(o, p, e);
            let b = r_run(o, q, e);
            if a.0.is_empty() || b.0.is_empty() {
                return if *i == 0 && o.accum {
                    Out(vec![], [a.1, b.1].concat())
                } else if a.0.is_empty() {
                    a
                } else {
                    b
                };
            }
            let f = |x, y| if *i == 3 { ap2(y, x) } else { ap2(x, y) };
            Out(a.0.iter().flat_map(|x| b.0.iter().map(move |y| f(*x, *y))).collect(), vec![])
        },
    }
}

fn lv(x: u8) -> Live {
    Live::new(x as u32)
}
fn u(x: &Live) -> u8 {
    x.v as u8
}

// ---- Reader
struct LReader;
impl Lang for LReader {
    type T = Reader<Live, Live>;
    fn pure(a: u8) -> Self::T {
        Reader::new(move |_| lv(a))
    }
    fn atom(i: u8) -> Self::T {
        match i {
            0 => Reader::ask(),
            1 => Reader::asks(|e: Live| lv(tbl(0, u(&e)))),
            2 => Reader::ask_with(|e: &Live| lv(tbl(2, u(e))), Id::new),
            3 => Reader::new(|e: Live| {
                log(ev_a(3, u(&e)));
                lv(tbl(1, u(&e)))
            }),
            4 => Self::pure(1),
            7 => Reader::from(ReaderT::new(|_: Live| Id::new(lv(2)))),
            8 => Reader::ask_transform(|e: Live| lv(tbl(1, tbl(0, u(&e))))),
            _ => unreachable!(),
        }
    }
    fn katom(_i: u8, a: u8) -> Self::T {
        Reader::new(move |e: Live| {
            log(ev_a(10, u(&e)));
            lv((a + u(&e)) % D)
        })
    }
    fn fmap(p: Self::T, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> Self::T {
        p.fmap(move |x| lv(f(u(&x))))
    }
    fn bind(p: Self::T, k: impl Fn(u8) -> Self::T + Send + Sync + Clone + 'static) -> Self::T {
        p.bind(move |x| k(u(&x)))
    }
    fn ap(_: Self::T, _: Self::T) -> Self::T {
        unreachable!()
    }
    fn one(i: u8, p: Self::T) -> Self::T {
        p.local(move |e| lv(tbl(i, u(&e))))
    }
    fn two(_i: u8, p: Self::T, q: Self::T) -> Self::T {
        p.combine(&q, |x, y| lv(ap2(u(&x), u(&y))))
    }
}

// ---- ReaderT
trait Base: 'static {
    type M: Monad + HKT<Source = Live, Output<Live> = Self::M> + Clone + Send + Sync + 'static;
    fn opts() -> Opts;
    fn pure(x: Live) -> Self::M;
    fn fail(e: u8) -> Self::M;
    fn many(x: Live, _y: Live) -> Self::M {
        Self::pure(x)
    }
    fn bnd(m: Self::M, f: &dyn Fn(Live) -> Self::M) -> Self::M;
    fn out(m: &Self::M) -> Out;
    fn map_err(p: R<Self>) -> R<Self>
    where
        Self: Sized,
    {
        p
    }
    fn extra(_w: &mut W, _p: &R<Self>, _e: u8, _want: &Out) -> Res
    where
        Self: Sized,
    {
        Ok(())
    }
}
type R<B> = ReaderT<Live, <B as Base>::M, Live>;

struct BOpt;
impl Base for BOpt {
    type M = Option<Live>;
    fn opts() -> Opts {
        Opts { multi: false, err: false, accum: false }
    }
    fn pure(x: Live) -> Self::M {
        Some(x)
    }
    fn fail(_e: u8) -> Self::M {
        None
    }
    fn bnd(m: Self::M, f: &dyn Fn(Live) -> Self::M) -> Self::M {
        m.and_then(f)
    }
    fn out(m: &Self::M) -> Out {
        Out(m.iter().map(u).collect(), vec![])
    }
}
struct BRes;
impl Base for BRes {
    type M = Result<Live, Live>;
    fn opts() -> Opts {
        Opts { multi: false, err: true, accum: false }
    }
    fn pure(x: Live) -> Self::M {
        Ok(x)
    }
    fn fail(e: u8) -> Self::M {
        Err(lv(e))
    }
    fn bnd(m: Self::M, f: &dyn Fn(Live) -> Self::M) -> Self::M {
        m.and_then(f)
    }
    fn out(m: &Self::M) -> Out {
        match m {
            Ok(x) => Out(vec![u(x)], vec![]),
            Err(e) => Out(vec![], vec![u(e)]),
        }
    }
    fn map_err(p: R<Self>) -> R<Self> {
        p.map_error(|e: Live| lv(tbl(0, u(&e))))
    }
    fn extra(w: &mut W, p: &R<Self>, e: u8, want: &Out) -> Res {
        let plain = |r: Result<Live, rustica::error::ComposableError<Live>>| match r {
            Ok(x) => (Out(vec![u(&x)], vec![]), vec![]),
            Err(e) => (Out(vec![], vec![u(e.core_error())]), e.context()),
        };
        w.eq("try_run_reader", &plain(p.try_run_reader(lv(e))), &(want.clone(), vec![]))?;
        let ctx = if want.1.is_empty() { vec![] } else { vec!["here".to_string()] };
        w.eq("try_run_reader_with_context", &plain(p.try_run_reader_with_context(lv(e), "here")), &(want.clone(), ctx))
    }
}
struct BId;
impl Base for BId {
    type M = Id<Live>;
    fn opts() -> Opts {
        Opts { multi: false, err: false, accum: false }
    }
    fn pure(x: Live) -> Self::M {
        Id::new(x)
    }
    fn fail(_e: u8) -> Self::M {
        unreachable!()
    }
    fn bnd(m: Self::M, f: &dyn Fn(Live) -> Self::M) -> Self::M {
        f(m.into_value())
    }
    fn out(m: &Self::M) -> Out {
        Out(vec![u(m.value())], vec![])
    }
}
struct BChoice;
impl Base for BChoice {
    type M = Choice<Live>;
    fn opts() -> Opts {
        Opts { multi: true, err: false, accum: false }
    }
    fn pure(x: Live) -> Self::M {
        Choice::new(x, vec![])
    }
    fn fail(_e: u8) -> Self::M {
        Choice::new_empty()
    }
    fn many(x: Live, y: Live) -> Self::M {
        Choice::new(x, vec![y])
    }
    fn bnd(m: Self::M, f: &dyn Fn(Live) -> Self::M) -> Self::M {
        let v: Vec<Live> = m.iter().cloned().collect();
        let r: Vec<Live> = v.into_iter().flat_map(|x| f(x).iter().cloned().collect::<Vec<_>>()).collect();
        match r.split_first() {
            None => Choice::new_empty(),
            Some((a, t)) => Choice::new(a.clone(), t.to_vec()),
        }
    }
    fn out(m: &Self::M) -> Out {
        Out(m.iter().map(u).collect(), vec![])
    }
}
struct BVal;
impl Base for BVal {
    type M = Validated<Live, Live>;
    fn opts() -> Opts {
        Opts { multi: false, err: true, accum: true }
    }
    fn pure(x: Live) -> Self::M {
        Validated::Valid(x)
    }
    fn fail(e: u8) -> Self::M {
        Validated::invalid(lv(e))
    }
    fn bnd(m: Self::M, f: &dyn Fn(Live) -> Self::M) -> Self::M {
        match m {
            Validated::Valid(x) => f(x),
            e => e,
        }
    }
    fn out(m: &Self::M) -> Out {
        match m {
            Validated::Valid(x) => Out(vec![u(x)], vec![]),
            Validated::Invalid(_) => Out(vec![], m.errors().iter().map(u).collect()),
        }
    }
}

struct LT<B>(std::marker::PhantomData<B>);
impl<B: Base> LT<B> {
    fn two_m(m: B::M, n: B::M, f: &dyn Fn(&Live, &Live) -> Live) -> B::M {
        B::bnd(m, &|x| B::bnd(n.clone(), &|y| B::pure(f(&x, &y))))
    }
}
fn ap2l(x: &Live, y: &Live) -> Live {
    lv(ap2(u(x), u(y)))
}
impl<B: Base> Lang for LT<B> {
    type T = R<B>;
    fn pure(a: u8) -> R<B> {
        ReaderT::pure(lv(a), B::pure)
    }
    fn atom(i: u8) -> R<B> {
        match i {
            0 => R::<B>::ask(B::pure),
            1 => R::<B>::asks(|e: Live| lv(tbl(0, u(&e))), B::pure),
            2 => R::<B>::ask_with(|e: &Live| lv(tbl(2, u(e))), B::pure),
            3 => ReaderT::new(|e: Live| {
                log(ev_a(3, u(&e)));
                B::pure(lv(tbl(1, u(&e))))
            }),
            4 => Self::pure(1),
            5 => ReaderT::new(|e: Live| {
                log(ev_a(5, u(&e)));
                if u(&e) == 1 { B::fail(2) } else { B::pure(e) }
            }),
            6 => ReaderT::new(|e: Live| {
                log(ev_a(6, u(&e)));
                B::many(e, lv(2))
            }),
            7 => <R<B> as MonadTransformer>::lift(B::pure(lv(2))),
            8 => R::<B>::asks_with(|e: &Live| lv(tbl(0, u(e))), |x: Live| lv(tbl(1, u(&x))), B::pure),
            9 => ReaderT::new(|e: Live| {
                log(ev_a(9, u(&e)));
                if u(&e) == 0 { B::fail(1) } else { B::pure(lv(0)) }
            }),
            _ => unreachable!(),
        }
    }
    fn katom(i: u8, a: u8) -> R<B> {
        if i == 0 {
            ReaderT::new(move |e: Live| {
                log(ev_a(10, u(&e)));
                B::pure(lv((a + u(&e)) % D))
            })
        } else {
            ReaderT::new(move |e: Live| if a == 0 { B::fail(u(&e)) } else { B::pure(lv(a)) })
        }
    }
    fn fmap(p: R<B>, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> R<B> {
        p.fmap(move |x: Live| lv(f(u(&x))))
    }
    fn bind(p: R<B>, k: impl Fn(u8) -> R<B> + Send + Sync + Clone + 'static) -> R<B> {
        p.bind(move |x: Live| k(u(&x)))
    }
    fn ap(_: R<B>, _: R<B>) -> R<B> {
        unreachable!()
    }
    fn one(i: u8, p: R<B>) -> R<B> {
        match i {
            0..=2 => p.local(move |e| lv(tbl(i, u(&e)))),
            3 => B::map_err(p),
            4 => p.fmap_with(|x: Live| lv(tbl(2, u(&x))), |m, f| B::bnd(m, &|x| B::pure(f(x)))),
            _ => p.bind_with(|x: Live| Self::katom(0, u(&x)), |m, f| B::bnd(m, &|x| f(x))),
        }
    }
    fn two(i: u8, p: R<B>, q: R<B>) -> R<B> {
        match i {
            0 => p.combine(&q, |x: Live, y: Live| ap2l(&x, &y)),
            1 => p.combine_with(&q, |x: Live, y: Live| ap2l(&x, &y), |m, n, f| Self::two_m(m, n, &*f)),
            2 => p.lift2::<Live, Live, _, _>(|x: Live, y: Live| ap2l(&x, &y), |m, n, f| {
                Self::two_m(m, n, &|x, y| f(x.clone(), y.clone()))
            })(&p, &q),
            _ => {
                // the value is the receiver, the function the argument
                let qf: ReaderT<Live, B::M, fn(Live) -> Live> = {
                    let q = Arc::new(q);
                    ReaderT::new(move |e| q.run_reader(e))
                };
                p.apply_with(&qf, |ma, mf| Self::two_m(ma, mf, &|x, f| ap2l(f, x)))
            },
        }
    }
}

fn check<L: Lang>(
    w: &mut W,
    o: &Opts,
    p: &P,
    thorough: bool,
    run: impl Fn(&L::T, Live) -> Out + Sync,
    extra: impl Fn(&mut W, &L::T, u8, &Out) -> Res,
) -> Res {
    effects();
    live::take_bad();
    let before = live::count();
    let r: Res = (|| {
        let t = build::<L>(p);
        w.same("effects while building", &effects(), &Vec::<Ev>::new())?;
        for e in 0..D {
            let want = r_run(o, p, e);
            let tr = effects();
            for n in 0..2 {
                let held = live::count();
                let got = run(&t, lv(e));
                let gt = effects();
                w.eq(if n == 0 { "run" } else { "second run" }, &(e, &got), &(e, &want))?;
                w.same("effects", &gt, &tr)?;
                w.same("live instances kept by a run", &(live::count() as i64 - held as i64), &0)?;
            }
            extra(w, &t, e, &want)?;
            effects();
        }
        let from: [&(dyn Fn() -> Out + Sync); 3] = [&|| run(&t, lv(0)), &|| run(&t, lv(1)), &|| run(&t, lv(2))];
        let runs: Vec<_> = (0..D)
            .map(|e| {
                let want = r_run(o, p, e);
                (from[e as usize], want, effects())
            })
            .collect();
        overlap(w, switches(p, thorough), &runs)
    })();
    r?;
    if let Some(b) = live::take_bad() {
        return Err(b);
    }
    w.same("live instances left after dropping the program", &(live::count() as i64 - before as i64), &0)
}

fn group<L: Lang>(
    c: &Ctx,
    name: &str,
    spec: Spec,
    o: Opts,
    run: impl Fn(&L::T, Live) -> Out + Sync,
    extra: impl Fn(&mut W, &L::T, u8, &Out) -> Res + Sync,
) {
    let mut ps = spec.programs(c.pick(2, 3));
    ps.extend(spec.bushy());
    // an inner effect with several results grows exponentially: shorter programs there
    ps.extend(if o.multi { spec.long(&[5, 6], 2) } else { spec.long(c.pick(&[6, 9, 17, 33, 65], &[6, 9, 17, 33, 65, 130]), 3) });
    c.note(
        name,
        &format!(
            "{} programs: all combinator chains of depth {} over {} atoms with atom operands, plus all binary combinations of depth-1 programs, plus every combinator iterated up to 65 (130) times and every pair alternating; 3 environments, each run twice, instances counted",
            ps.len(),
            c.pick(2, 3),
            spec.atoms.len()
        ),
    );
    c.par(name, &ps, |w, p| {
        w.case(|| format!("{p:?}"), |w| check::<L>(w, &o, p, c.thorough(), &run, &extra));
    });
}

fn main() {
    mc::run("C16", |c| {
        c.assume("values and environments range over {0,1,2}; the library's combinators are generic and cannot inspect them");
        group::<LReader>(
            c,
            "Reader",
            Spec { atoms: vec![0, 1, 2, 3, 4, 7, 8], tables: vec![0, 1], katoms: vec![0], ones: vec![0, 2], twos: vec![0], ap: false },
            Opts { multi: false, err: false, accum: false },
            |t, e| Out(vec![u(&t.run_reader(e))], vec![]),
            |w, t, e, want| w.eq("clone", &u(&t.clone().run_reader(lv(e))), &want.0[0]),
        );
        fn go<B: Base>(c: &Ctx, name: &str, atoms: Vec<u8>, errs: bool) {
            let fails = atoms.contains(&5);
            group::<LT<B>>(
                c,
                name,
                Spec {
                    atoms,
                    tables: vec![0, 1],
                    katoms: if fails { vec![0, 1] } else { vec![0] },
                    ones: if errs { vec![0, 2, 3, 4, 5] } else { vec![0, 2, 4, 5] },
                    twos: vec![0, 1, 2, 3],
                    ap: false,
                },
                B::opts(),
                |t, e| B::out(&t.run_reader(e)),
                |w, t, e, want| {
                    w.eq("unwrap_with", &B::out(&t.clone().unwrap_with(lv(e))), want)?;
                    B::extra(w, t, e, want)
                },
            );
        }
        go::<BOpt>(c, "ReaderT over Option", vec![0, 3, 4, 5, 7, 9], false);
        go::<BRes>(c, "ReaderT over Result", vec![0, 1, 3, 5, 9], true);
        go::<BId>(c, "ReaderT over Id", vec![0, 1, 2, 3, 4, 7, 8], false);
        go::<BChoice>(c, "ReaderT over Choice", vec![0, 2, 3, 5, 6], false);
        go::<BVal>(c, "ReaderT over Validated", vec![0, 3, 5, 8, 9], false);
    })
}
