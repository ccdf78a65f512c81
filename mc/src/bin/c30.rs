//! C30: deferred evaluation runs on demand, once per evaluation, with the value of the plain computation;
//! natural transformations, comonad and isomorphism helpers satisfy their laws.
//!
//! Every deferred program over the evaluation helpers up to a size is built, checked not to have run, and
//! evaluated twice, comparing value and the ordered trace of source/function runs with direct evaluation.
//! Isomorphisms: every pair of tables on a small domain (lawful or not). Naturality: every function and
//! every container value of small domains, for every conversion of the library usable as a transformation.
use mc::dom::{Fun, funs, seqs, tables};
use mc::{Res, W};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::pvec::PersistentVector;
use rustica::traits::comonad::Comonad;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::functor::Functor;
use rustica::traits::hkt::HKT;
use rustica::traits::iso::{Iso, IsoExt, ResultEitherIso, ResultValidatedIso};
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::utils::functions::{const_fn, id};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;

type U = u8;
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Src(U, U),
    Call(&'static str, U),
    Call2(U, U),
}
type Log = Rc<RefCell<Vec<Ev>>>;

/// A user-written deferred value that relies on the trait's default `evaluate_owned`.
struct Lazy<T>(Box<dyn Fn() -> T>);
impl<T> HKT for Lazy<T> {
    type Source = T;
    type Output<V> = Lazy<V>;
}
impl<T> Evaluate for Lazy<T> {
    fn evaluate(&self) -> T {
        (self.0)()
    }
}
type Th = Thunk<Box<dyn Fn() -> U>, U>;

#[derive(Clone, Debug)]
enum T {
    Src(U),
    Map(u8, Rc<T>),
    Bind(u8, Rc<T>, Rc<T>),
    Comb(u8, Rc<T>, Rc<T>),
    Filt(u8, bool, Rc<T>),
}
const F: [U; 3] = [1, 2, 0];
const G: [[U; 3]; 3] = [[0, 1, 2], [2, 0, 1], [0, 2, 1]];

/// Plain evaluation: the reference.
fn plain(t: &T, off: U, log: &mut Vec<Ev>) -> U {
    match t {
        T::Src(i) => {
            log.push(Ev::Src(*i, off));
            (i + off) % 3
        },
        T::Map(h, t) => {
            let x = plain(t, off, log);
            if *h < 2 {
                return x;
            }
            log.push(Ev::Call("f", x));
            F[x as usize]
        },
        T::Bind(_, t, k) => {
            let x = plain(t, off, log);
            log.push(Ev::Call("k", x));
            plain(k, x, log)
        },
        T::Comb(_, a, b) => {
            let x = plain(a, off, log);
            let y = plain(b, off, log);
            log.push(Ev::Call2(x, y));
            G[x as usize][y as usize]
        },
        T::Filt(_, keep_even, t) => {
            let x = plain(t, off, log);
            log.push(Ev::Call("p", x));
            if (x % 2 == 0) == *keep_even { x } else { 2 - x % 2 }
        },
    }
}
/// The same program as a deferred value; `$mk` wraps a boxed closure into the deferred type.
macro_rules! deferred {
    ($name:ident, $ty:ty, $mk:expr) => {
        fn $name(t: &T, off: U, log: &Log) -> $ty {
            let l = log.clone();
            let mk: fn(Box<dyn Fn() -> U>) -> $ty = $mk;
            match t.clone() {
                T::Src(i) => mk(Box::new(move || {
                    l.borrow_mut().push(Ev::Src(i, off));
                    (i + off) % 3
                })),
                T::Map(h, t) => {
                    let l2 = l.clone();
                    let f = move |x: U| {
                        l2.borrow_mut().push(Ev::Call("f", x));
                        F[x as usize]
                    };
                    let inner = $name(&t, off, log);
                    match h {
                        0 => mk(Box::new(move || inner.evaluate())),
                        1 => mk(Box::new(move || $name(&t, off, &l).evaluate_owned())),
                        2 => mk(Box::new(move || inner.fmap_evaluate(&f))),
                        3 => mk(Box::new(move || inner.map_evaluate(&f))),
                        4 => mk(Box::new(move || $name(&t, off, &l).fmap_evaluate_owned(&f))),
                        _ => mk(Box::new(move || $name(&t, off, &l).map_evaluate_owned(&f))),
                    }
                },
                T::Bind(h, t, k) => {
                    let l2 = l.clone();
                    let kf = move |x: U| {
                        l2.borrow_mut().push(Ev::Call("k", x));
                        $name(&k, x, &l2)
                    };
                    let inner = $name(&t, off, log);
                    match h {
                        0 => mk(Box::new(move || inner.bind_evaluate(&kf))),
                        1 => mk(Box::new(move || inner.and_then_evaluate(&kf))),
                        2 => mk(Box::new(move || $name(&t, off, &l).bind_evaluate_owned(&kf))),
                        _ => mk(Box::new(move || $name(&t, off, &l).and_then_evaluate_owned(&kf))),
                    }
                },
                T::Comb(h, a, b) => {
                    let l2 = l.clone();
                    let g = move |x: U, y: U| {
                        l2.borrow_mut().push(Ev::Call2(x, y));
                        G[x as usize][y as usize]
                    };
                    let (x, y) = ($name(&a, off, log), $name(&b, off, log));
                    match h {
                        0 => mk(Box::new(move || x.combine_evaluate(&y, &g))),
                        _ => mk(Box::new(move || $name(&a, off, &l).combine_evaluate_owned($name(&b, off, &l), &g))),
                    }
                },
                T::Filt(h, even, t) => {
                    let l2 = l.clone();
                    // The plain program sees the discarded value too; recover it from the trace.
                    let p = move |x: &U| {
                        l2.borrow_mut().push(Ev::Call("p", *x));
                        (*x % 2 == 0) == even
                    };
                    let inner = $name(&t, off, log);
                    let last = {
                        let l = l.clone();
                        move || match l.borrow().last() {
                            Some(Ev::Call("p", x)) => 2 - x % 2,
                            _ => 9,
                        }
                    };
                    match h {
                        0 => mk(Box::new(move || inner.filter_evaluate(&p).unwrap_or_else(&last))),
                        _ => mk(Box::new(move || $name(&t, off, &l).filter_evaluate_owned(&p).unwrap_or_else(&last))),
                    }
                },
            }
        }
    };
}
deferred!(thunk, Th, |f| Thunk::new(f));
deferred!(lazy, Lazy<U>, Lazy);

fn grow(base: &[Rc<T>], pair_with: &[Rc<T>]) -> Vec<Rc<T>> {
    let mut r = vec![];
    for t in base {
        for h in 0..6 {
            r.push(Rc::new(T::Map(h, t.clone())));
        }
        for h in 0..2 {
            for e in [false, true] {
                r.push(Rc::new(T::Filt(h, e, t.clone())));
            }
        }
        for u in pair_with {
            for h in 0..4 {
                r.push(Rc::new(T::Bind(h, t.clone(), u.clone())));
            }
            for h in 0..2 {
                r.push(Rc::new(T::Comb(h, t.clone(), u.clone())));
            }
        }
    }
    r
}
fn programs(w: &mut W, ts: &[Rc<T>]) {
    for t in ts {
        w.case(
            || format!("{t:?}"),
            |w| {
                let mut want_log = vec![];
                let want = plain(t, 1, &mut want_log);
                macro_rules! check {
                    ($mk:expr, $n:expr) => {
                        let log: Log = Rc::default();
                        let d = $mk(t, 1, &log);
                        w.eq(concat!($n, " nothing runs before evaluation"), &log.borrow().clone(), &vec![])?;
                        for _ in 0..2 {
                            w.eq($n, &d.evaluate(), &want)?;
                            w.eq(concat!($n, " runs"), &log.take(), &want_log)?;
                        }
                        let both = d.combine_evaluate(&d, |a: U, b: U| G[a as usize][b as usize]);
                        w.eq(concat!($n, " combined with itself"), &both, &G[want as usize][want as usize])?;
                        w.eq(concat!($n, " combined with itself, runs"), &log.take(), &[&want_log[..], &want_log[..]].concat())?;
                        w.eq(concat!($n, " owned"), &d.evaluate_owned(), &want)?;
                        w.eq(concat!($n, " owned runs"), &log.take(), &want_log)?;
                        let d = $mk(t, 1, &log);
                        drop(d);
                        w.eq(concat!($n, " dropping runs nothing"), &log.take(), &vec![])?;
                    };
                }
                check!(thunk, "Thunk");
                check!(lazy, "user deferred value");
                w.state(mc::hash_debug(&(want, &want_log)));
                Ok(())
            },
        );
    }
}

// ---- isomorphisms ----
#[derive(Clone, Debug)]
struct Tab {
    to: Vec<usize>,
    from: Vec<usize>,
}
macro_rules! tab_iso {
    ($name:ident, $a:ty, $b:ty) => {
        #[derive(Clone, Debug)]
        struct $name(Tab);
        impl Iso<$a, $b> for $name {
            type From = $a;
            type To = $b;
            fn forward(&self, a: &$a) -> $b {
                let i = a.0;
                <$b>::mk(self.0.to[i])
            }
            fn backward(&self, b: &$b) -> $a {
                let i = b.0;
                <$a>::mk(self.0.from[i])
            }
        }
    };
}
macro_rules! tagged {
    ($($n:ident),*) => {$(
        #[derive(Clone, Debug, PartialEq)]
        struct $n(usize);
        impl $n { fn mk(i: usize) -> $n { $n(i) } }
    )*};
}
tagged!(A, B, C, D);
tab_iso!(Ab, A, B);
tab_iso!(Bc, B, C);
tab_iso!(Cd, C, D);
fn perms(n: usize) -> Vec<Tab> {
    let outs: Vec<usize> = (0..n).collect();
    tables(n, &outs)
        .into_iter()
        .filter(|t| outs.iter().all(|o| t.contains(o)))
        .map(|t| {
            let mut from = vec![0; n];
            for (i, o) in t.iter().enumerate() {
                from[*o] = i;
            }
            Tab { to: t, from }
        })
        .collect()
}
fn iso_helpers<I, X, Y>(w: &mut W, i: &I, xs: &[X], ys: &[Y], fwd: impl Fn(&X) -> Y, bwd: impl Fn(&Y) -> X) -> Res
where
    I: Iso<X, Y, From = X, To = Y>,
    X: Clone + PartialEq + Debug,
    Y: Clone + PartialEq + Debug,
{
    for x in xs {
        w.eq("forward", &i.forward(x), &fwd(x))?;
        w.eq("convert_forward", &i.convert_forward(x), &fwd(x))?;
        w.eq("map_from_target", &i.map_from_target(|y| format!("<{y:?}>"))(x), &format!("<{:?}>", fwd(x)))?;
        for (k, y) in ys.iter().enumerate() {
            let calls = RefCell::new(vec![]);
            let got = i.modify(x, |v| {
                calls.borrow_mut().push(v);
                y.clone()
            });
            w.eq("modify", &got, &bwd(y))?;
            w.eq("modify argument", &calls.take(), &vec![fwd(x)])?;
            if k == 0 {
                w.eq("modify identity", &i.modify(x, |v| v), &bwd(&fwd(x)))?;
            }
            w.eq("verify_laws", &i.verify_laws(x, y), &(bwd(&fwd(x)) == *x && fwd(&bwd(y)) == *y))?;
        }
    }
    for y in ys {
        w.eq("backward", &i.backward(y), &bwd(y))?;
        w.eq("convert_backward", &i.convert_backward(y), &bwd(y))?;
        w.eq("map_from_source", &i.map_from_source(|x| format!("<{x:?}>"))(y), &format!("<{:?}>", bwd(y)))?;
    }
    Ok(())
}
fn doms(n: usize) -> (Vec<A>, Vec<B>, Vec<C>, Vec<D>) {
    ((0..n).map(A).collect(), (0..n).map(B).collect(), (0..n).map(C).collect(), (0..n).map(D).collect())
}

// ---- natural transformations ----
struct N;
macro_rules! nat {
    ($t:ident: $f:ty => $g:ty, |$x:ident| $b:expr) => {
        struct $t;
        impl NaturalTransformation<$f, $g> for $t {
            fn transform<X: Clone>(&self, fa: &<$f as HKT>::Output<X>) -> <$g as HKT>::Output<X> {
                let $x = fa.clone();
                $b
            }
        }
    };
}
nat!(MaybeOption: Maybe<N> => Option<N>, |x| x.to_option());
nat!(OptionMaybe: Option<N> => Maybe<N>, |x| Maybe::from_option(x));
nat!(MaybeFrom: Option<N> => Maybe<N>, |x| x.into());
nat!(EitherResult: Either<U, N> => Result<N, U>, |x| x.to_result());
nat!(ResultEither: Result<N, U> => Either<U, N>, |x| Either::from_result(x));
nat!(EitherOption: Either<U, N> => Option<N>, |x| x.right_option());
nat!(ValidatedResult: Validated<U, N> => Result<N, U>, |x| x.to_result());
nat!(ResultValidated: Result<N, U> => Validated<U, N>, |x| Validated::from_result(&x));
nat!(ValidatedOption: Validated<U, N> => Option<N>, |x| x.to_option());
nat!(IdMaybe: Id<N> => Maybe<N>, |x| Maybe::Just(x.unwrap()));
nat!(OptionVec: Option<N> => Vec<N>, |x| x.into_iter().collect());
nat!(VecOption: Vec<N> => Option<N>, |x| x.into_iter().next());
nat!(VecPvec: Vec<N> => PersistentVector<N>, |x| PersistentVector::from_slice(&x));
nat!(PvecVec: PersistentVector<N> => Vec<N>, |x| x.to_vec());
nat!(ChoiceVec: Choice<N> => Vec<N>, |x| x.into_iter().collect());
nat!(ChoiceFirst: Choice<N> => Option<N>, |x| x.first().cloned());

fn square<Fx, Gx, T1, T2>(w: &mut W, what: &str, n: &T1, fa: &Fx::Output<U>, f: &Fun<U>) -> Res
where
    Fx: HKT,
    Gx: HKT,
    T1: NaturalTransformation<Fx, Gx>,
    Fx::Output<U>: Functor<Source = U, Output<U> = T2> + Clone + Debug,
    T2: Clone + Into<Fx::Output<U>>,
    Gx::Output<U>: Functor<Source = U, Output<U> = Gx::Output<U>> + Clone + Debug + PartialEq,
{
    let there: Fx::Output<U> = fa.fmap(|x| f.at(*x as usize)).into();
    let one = n.transform::<U>(&there);
    let two = n.transform::<U>(fa).fmap(|x| f.at(*x as usize));
    w.eq(what, &one, &two)?;
    w.eq(&format!("{what} owned"), &n.transform_owned::<U>(there), &two)?;
    w.eq(&format!("{what} owned fmap_owned"), &n.transform_owned::<U>(fa.clone()).fmap_owned(|x| f.at(x as usize)), &two)
}
fn idnat<Fx>(w: &mut W, what: &str, fa: &Fx::Output<U>) -> Res
where
    Fx: HKT,
    Fx::Output<U>: Clone + Debug + PartialEq,
{
    let n = identity_nat::<Fx>();
    w.eq(&format!("identity_nat {what}"), &n.transform::<U>(fa), fa)?;
    w.eq(&format!("identity_nat owned {what}"), &n.transform_owned::<U>(fa.clone()), fa)
}

fn main() {
    mc::run("C30", |c| {
        // Deferred programs.
        let t0: Vec<Rc<T>> = (0..2).map(|i| Rc::new(T::Src(i))).collect();
        let mut t1 = t0.clone();
        t1.extend(grow(&t0, &t0));
        c.seq("programs of up to two helpers, both operands grown", |w| {
            programs(w, &t0);
            let t2 = grow(&t1, &t1);
            programs(w, &t2);
        });
        // Rc-based terms are built inside each worker.
        let idx: Vec<usize> = (0..t1.len()).collect();
        c.par("programs of three helpers", &idx, |w, i| {
            let t0: Vec<Rc<T>> = (0..2).map(|i| Rc::new(T::Src(i))).collect();
            let mut t1 = t0.clone();
            t1.extend(grow(&t0, &t0));
            let t2 = grow(&t1[*i..i + 1], &t1);
            if c.thorough() {
                programs(w, &grow(&t2, &t1));
            } else {
                programs(w, &grow(&t2, &t0));
            }
        });

        // Identity and constant functions.
        c.seq("id, const_fn", |w| {
            for x in 0..4u8 {
                w.case(
                    || format!("value {x}"),
                    |w| {
                        w.eq("id", &id(x), &x)?;
                        w.eq("id of a string", &id(x.to_string()), &x.to_string())?;
                        let k = const_fn::<String, U>(x.to_string());
                        for y in 0..4u8 {
                            w.eq("const_fn", &k(y), &x.to_string())?;
                        }
                        w.eq("const_fn after a moved argument", &const_fn::<U, String>(x)(String::from("a")), &x)
                    },
                );
            }
            for _ in 0..1 {
                w.case(
                    || "id keeps, const_fn owns its value".into(),
                    |w| {
                        let before = mc::live::count();
                        {
                            let v = id(mc::live::Live::new(3));
                            w.eq("one value", &(mc::live::count() - before), &1)?;
                            let k = const_fn::<_, U>(v);
                            let a = k(0);
                            let b = k(1);
                            w.eq("values", &(a == b), &true)?;
                            w.eq("three values", &(mc::live::count() - before), &3)?;
                        }
                        w.eq("all dropped", &(mc::live::count() - before), &0)
                    },
                );
            }
        });

        // Comonad.
        c.seq("comonad", |w| {
            let fs = funs::<U>(3, &[0, 1, 2]);
            for x in 0..3u8 {
                for f in &fs {
                    w.case(
                        || format!("Id({x}) f={f:?}"),
                        |w| {
                            let a = Id::new(x);
                            let ff = |i: &Id<U>| f.at(i.extract() as usize);
                            w.eq("extract", &a.extract(), &x)?;
                            w.eq("extend extract", &a.extend(|i| i.extract()), &a)?;
                            w.eq("extract after extend", &a.extend(ff).extract(), &ff(&a))?;
                            w.eq("duplicate", &a.duplicate(), &a)?;
                            w.eq("extract after duplicate", &a.duplicate().extract(), &x)?;
                            for g in &fs {
                                let gg = |i: &Id<U>| g.at(i.extract() as usize);
                                w.eq("extend associativity", &a.extend(ff).extend(gg), &a.extend(|i| gg(&i.extend(ff))))?;
                            }
                            let seen = RefCell::new(vec![]);
                            a.extend(|i| seen.borrow_mut().push(i.extract()));
                            w.eq("extend calls once with the whole value", &seen.take(), &vec![x])?;
                            w.eq("fmap through extend", &a.extend(ff), &a.fmap(|v| f.at(*v as usize)))
                        },
                    );
                }
            }
        });

        // Isomorphisms: every pair of tables, lawful or not.
        let n = 3;
        let tabs: Vec<Vec<usize>> = tables(n, &[0usize, 1, 2]);
        c.par("every forward/backward pair of tables on three points", &tabs, |w, to| {
            let (a, b, _, _) = doms(n);
            for from in &tabs {
                w.case(
                    || format!("to={to:?} from={from:?}"),
                    |w| {
                        let i = Ab(Tab { to: to.clone(), from: from.clone() });
                        iso_helpers(w, &i, &a, &b, |x| B(to[x.0]), |y| A(from[y.0]))?;
                        iso_helpers(w, &i.inverse(), &b, &a, |y| A(from[y.0]), |x| B(to[x.0]))
                    },
                );
            }
        });
        let n = c.pick(3, 4);
        let ps = perms(n);
        c.par("compositions of three bijections", &ps, |w, p| {
            let (a, b, cc, d) = doms(n);
            for q in &ps {
                for r in &ps {
                    w.case(
                        || format!("{:?} {:?} {:?}", p.to, q.to, r.to),
                        |w| {
                            let (i, j, k) = (Ab(p.clone()), Bc(q.clone()), Cd(r.clone()));
                            let ij = i.iso_compose(j.clone());
                            iso_helpers(w, &ij, &a, &cc, |x| C(q.to[p.to[x.0]]), |y| A(p.from[q.from[y.0]]))?;
                            // ((i;j);k) and (i;(j;k)) and the unpacked public fields
                            let jk = j.iso_compose(k.clone());
                            iso_helpers(w, &jk, &b, &d, |x| D(r.to[q.to[x.0]]), |y| B(q.from[r.from[y.0]]))?;
                            let ijk = i.iso_compose(jk);
                            let f = |x: &A| D(r.to[q.to[p.to[x.0]]]);
                            let g = |y: &D| A(p.from[q.from[r.from[y.0]]]);
                            iso_helpers(w, &ijk, &a, &d, f, g)?;
                            w.eq("laws hold of a lawful composition", &a.iter().zip(&d).all(|(x, y)| ijk.verify_laws(x, y)), &true)?;
                            let inv = i.inverse();
                            iso_helpers(w, &inv, &b, &a, |y| A(p.from[y.0]), |x| B(p.to[x.0]))?;
                            w.eq("composition keeps its parts", &(ij.first.0.to.clone(), ij.second.0.to.clone()), &(p.to.clone(), q.to.clone()))
                        },
                    );
                }
            }
        });
        c.seq("library isomorphisms", |w| {
            let rs: Vec<Result<U, U>> = (0..3).map(Ok).chain((0..3).map(Err)).collect();
            w.case(
                || "ResultEitherIso".into(),
                |w| {
                    let es: Vec<Either<U, U>> = (0..3).map(Either::Right).chain((0..3).map(Either::Left)).collect();
                    let fwd = |r: &Result<U, U>| match r {
                        Ok(x) => Either::Right(*x),
                        Err(e) => Either::Left(*e),
                    };
                    let bwd = |e: &Either<U, U>| match e {
                        Either::Right(x) => Ok(*x),
                        Either::Left(e) => Err(*e),
                    };
                    iso_helpers(w, &ResultEitherIso, &rs, &es, fwd, bwd)?;
                    w.ok("lawful", rs.iter().all(|r| es.iter().all(|e| ResultEitherIso.verify_laws(r, e))))
                },
            );
            w.case(
                || "ResultValidatedIso".into(),
                |w| {
                    let vs: Vec<Validated<U, U>> = (0..3).map(Validated::valid).chain((0..3).map(Validated::invalid)).collect();
                    let fwd = |r: &Result<U, U>| match r {
                        Ok(x) => Validated::valid(*x),
                        Err(e) => Validated::invalid(*e),
                    };
                    let bwd = |v: &Validated<U, U>| match v {
                        Validated::Valid(x) => Ok(*x),
                        Validated::Invalid(es) => Err(es[0]),
                    };
                    iso_helpers(w, &ResultValidatedIso, &rs, &vs, fwd, bwd)?;
                    w.ok("lawful on one-error values", rs.iter().all(|r| vs.iter().all(|e| ResultValidatedIso.verify_laws(r, e))))
                },
            );
        });

        // Naturality.
        let outs: Vec<U> = (0..c.pick(3, 4)).collect();
        let fs = funs::<U>(outs.len(), &outs);
        let len = c.pick(3, 4);
        c.par("naturality squares", &fs, |w, f| {
            let opts: Vec<Option<U>> = std::iter::once(None).chain(outs.iter().copied().map(Some)).collect();
            let ress: Vec<Result<U, U>> = outs.iter().copied().map(Ok).chain(outs.iter().copied().map(Err)).collect();
            let lists = seqs(&outs, len);
            for o in &opts {
                let m = match o {
                    Some(x) => Maybe::Just(*x),
                    None => Maybe::Nothing,
                };
                w.case(
                    || format!("{o:?} f={f:?}"),
                    |w| {
                        square::<Maybe<N>, Option<N>, _, _>(w, "Maybe to Option", &MaybeOption, &m, f)?;
                        square::<Option<N>, Maybe<N>, _, _>(w, "Option to Maybe", &OptionMaybe, o, f)?;
                        square::<Option<N>, Maybe<N>, _, _>(w, "Option into Maybe", &MaybeFrom, o, f)?;
                        square::<Option<N>, Vec<N>, _, _>(w, "Option to Vec", &OptionVec, o, f)?;
                        idnat::<Maybe<N>>(w, "Maybe", &m)?;
                        idnat::<Option<N>>(w, "Option", o)?;
                        if let Some(x) = o {
                            square::<Id<N>, Maybe<N>, _, _>(w, "Id to Maybe", &IdMaybe, &Id::new(*x), f)?;
                            idnat::<Id<N>>(w, "Id", &Id::new(*x))?;
                        }
                        Ok(())
                    },
                );
            }
            for r in &ress {
                w.case(
                    || format!("{r:?} f={f:?}"),
                    |w| {
                        let e = match r {
                            Ok(x) => Either::Right(*x),
                            Err(x) => Either::Left(*x),
                        };
                        square::<Either<U, N>, Result<N, U>, _, _>(w, "Either to Result", &EitherResult, &e, f)?;
                        square::<Either<U, N>, Option<N>, _, _>(w, "Either to Option", &EitherOption, &e, f)?;
                        square::<Result<N, U>, Either<U, N>, _, _>(w, "Result to Either", &ResultEither, r, f)?;
                        square::<Result<N, U>, Validated<U, N>, _, _>(w, "Result to Validated", &ResultValidated, r, f)?;
                        idnat::<Either<U, N>>(w, "Either", &e)?;
                        idnat::<Result<N, U>>(w, "Result", r)
                    },
                );
            }
            for l in &lists {
                w.case(
                    || format!("{l:?} f={f:?}"),
                    |w| {
                        square::<Vec<N>, Option<N>, _, _>(w, "Vec to Option", &VecOption, l, f)?;
                        square::<Vec<N>, PersistentVector<N>, _, _>(w, "Vec to PersistentVector", &VecPvec, l, f)?;
                        let p = PersistentVector::from_slice(l);
                        square::<PersistentVector<N>, Vec<N>, _, _>(w, "PersistentVector to Vec", &PvecVec, &p, f)?;
                        idnat::<PersistentVector<N>>(w, "PersistentVector", &p)?;
                        idnat::<Vec<N>>(w, "Vec", l)?;
                        let v: Validated<U, U> = if l.is_empty() { Validated::valid(1) } else { Validated::invalid_many(l.clone()) };
                        square::<Validated<U, N>, Result<N, U>, _, _>(w, "Validated to Result", &ValidatedResult, &v, f)?;
                        square::<Validated<U, N>, Option<N>, _, _>(w, "Validated to Option", &ValidatedOption, &v, f)?;
                        idnat::<Validated<U, N>>(w, "Validated", &v)?;
                        if let Some((x, rest)) = l.split_first() {
                            let ch = Choice::new(*x, rest.to_vec());
                            square::<Choice<N>, Vec<N>, _, _>(w, "Choice to Vec", &ChoiceVec, &ch, f)?;
                            square::<Choice<N>, Option<N>, _, _>(w, "Choice to Option", &ChoiceFirst, &ch, f)?;
                            idnat::<Choice<N>>(w, "Choice", &ch)?;
                        }
                        Ok(())
                    },
                );
            }
        });
        c.note("instances", "Contravariant, profunctor and representable traits have no instance in the library and cannot be given a storing one, so they are not covered.");
    });
}
