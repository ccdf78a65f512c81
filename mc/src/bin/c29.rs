//! C29: Maybe, Either, Id and the one-field wrappers against the standard Option, Result and plain value.
//!
//! Every public method on every value of a small domain with every function of the domain, then every
//! sequence of transforming methods up to a depth, each step compared with the standard counterpart.
#![allow(deprecated)]
use mc::dom::{HINTS, hint};
use mc::dom::{Fun, funs, tables};
use mc::{W, panics};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError, MaybeExt};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, predicate::Predicate, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::functor::Functor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

type U = u8;
const D: [U; 3] = [0, 1, 2];
fn opts() -> Vec<Option<U>> {
    std::iter::once(None).chain(D.map(Some)).collect()
}
fn ress() -> Vec<Result<U, U>> {
    D.map(Ok).into_iter().chain(D.map(Err)).collect()
}
fn mb(o: Option<U>) -> Maybe<U> {
    match o {
        Some(x) => Maybe::Just(x),
        None => Maybe::Nothing,
    }
}
fn un(m: &Maybe<U>) -> Option<U> {
    match m {
        Maybe::Just(x) => Some(*x),
        Maybe::Nothing => None,
    }
}
fn ei(r: Result<U, U>) -> Either<U, U> {
    match r {
        Ok(x) => Either::Right(x),
        Err(x) => Either::Left(x),
    }
}
fn ue(e: &Either<U, U>) -> Result<U, U> {
    match e {
        Either::Right(x) => Ok(*x),
        Either::Left(x) => Err(*x),
    }
}
thread_local! { static N: Cell<u32> = const { Cell::new(0) } }
fn hit() {
    N.with(|n| n.set(n.get() + 1))
}
fn hits() -> u32 {
    N.with(|n| n.replace(0))
}
/// Wraps a function so that its calls are counted.
fn cnt<T: Clone>(f: &Fun<T>) -> impl Fn(U) -> T + Clone + use<T> {
    let f = f.clone();
    move |x| {
        hit();
        f.at(x as usize)
    }
}
fn cntr<T: Clone>(f: &Fun<T>) -> impl Fn(&U) -> T + Clone + use<T> {
    let f = f.clone();
    move |x| {
        hit();
        f.at(*x as usize)
    }
}

/// `Identity` and its safe variants against the optional first value.
fn identity<T>(w: &mut W, name: &str, v: &T, want: Option<U>)
where
    T: Identity<Source = U> + Clone + Debug,
{
    w.case(|| format!("{name} {v:?}"), |w| {
        w.eq("try_value", &v.try_value().copied(), &want)?;
        w.eq("try_into_value", &v.clone().try_into_value(), &want)?;
        match want {
            Some(x) => {
                w.eq("value", v.value(), &x)?;
                w.eq("into_value", &v.clone().into_value(), &x)
            },
            None => {
                w.ok("value panics", panics(|| *v.value()))?;
                w.ok("into_value panics", panics(|| v.clone().into_value()))
            },
        }
    });
}

#[derive(Clone, Debug)]
enum MOp {
    Map(usize),
    MapOwned(usize),
    Bind(usize),
    BindOwned(usize),
    Filter(usize),
    Tap,
    AltL(Option<U>),
    AltR(Option<U>),
    Plus(Option<U>),
    PlusOwned(Option<U>),
    IterMut(usize),
    OptionTrip,
    CollectTrip,
    Lift2(Option<U>),
    ThenR(Option<U>),
}
#[derive(Clone, Debug)]
enum EOp {
    Map(usize),
    MapOwned(usize),
    Left(usize),
    Right(usize),
    Bimap(usize, usize),
    First(usize),
    Second(usize),
    MapSecond(usize),
    MapSecondOwned(usize),
    Bind(usize),
    BindOwned(usize),
    Alt(Result<U, U>),
    Plus(Result<U, U>),
    PlusOwned(Result<U, U>),
    ResultTrip,
    IterMut(usize),
    LeftMut(usize),
    Lift2(Result<U, U>),
}
fn walk<S: Debug + Clone, T: Clone, O: Clone + Debug>(
    w: &mut W, s: S, m: T, ops: &[O], depth: usize, trace: &mut Vec<O>, step: &dyn Fn(S, &O) -> S, model: &dyn Fn(T, &O) -> T,
    same: &dyn Fn(&S, &T) -> Option<String>,
) {
    for o in ops {
        trace.push(o.clone());
        w.op(1);
        let (s2, m2) = (mc::catch(|| step(s.clone(), o)), model(m.clone(), o));
        let bad = match &s2 {
            Ok(s2) => same(s2, &m2),
            Err(p) => Some(p.clone()),
        };
        w.case(|| format!("{trace:?}"), |_| bad.map_or(Ok(()), Err));
        if let Ok(s2) = s2 {
            w.state(mc::hash_debug(&s2));
            if depth > 1 && !w.stopped() {
                walk(w, s2, m2, ops, depth - 1, trace, step, model, same);
            }
        }
        trace.pop();
    }
}

fn main() {
    mc::run("C29", |c| {
        let fs = funs(3, &D);
        let ps = funs(3, &[false, true]);
        let ks = funs(3, &opts());
        let es = funs(3, &ress());

        c.par("maybe/queries", &opts(), |w, o| {
            let o = *o;
            w.case(|| format!("{o:?}"), |w| {
                let m = mb(o);
                w.eq("some/none", &o.map_or(Maybe::none(), Maybe::some), &m)?;
                w.eq("from_option", &Maybe::from_option(o), &m)?;
                w.eq("From<Option>", &Maybe::from(o), &m)?;
                w.eq("to_option", &m.to_option(), &o)?;
                w.eq("Into<Option>", &Option::from(m), &o)?;
                w.eq("as_option", &m.as_option(), &o.as_ref())?;
                w.eq("as_ref", &m.as_ref(), &o.as_ref())?;
                w.eq("is_just", &m.is_just(), &o.is_some())?;
                w.eq("is_nothing", &m.is_nothing(), &o.is_none())?;
                w.eq("to_vec", &m.to_vec(), &o.into_iter().collect::<Vec<_>>())?;
                w.eq("iter", &m.iter().copied().collect::<Vec<_>>(), &o.into_iter().collect::<Vec<_>>())?;
                w.eq("into_iter", &m.into_iter().collect::<Vec<_>>(), &o.into_iter().collect::<Vec<_>>())?;
                w.eq("&into_iter", &(&m).into_iter().collect::<Vec<_>>(), &o.iter().collect::<Vec<_>>())?;
                w.eq("&into_iter len", &(&m).into_iter().len(), &o.iter().len())?;
                mc::iter_protocol!(w, "iter", m.iter().copied(), o.into_iter().collect::<Vec<_>>(), false)?;
                mc::iter_protocol!(w, "into_iter", m.into_iter(), o.into_iter().collect::<Vec<_>>(), true)?;
                mc::iter_protocol!(w, "&into_iter", (&m).into_iter().copied(), o.into_iter().collect::<Vec<_>>(), true)?;
                let mut km = m;
                mc::iter_protocol!(w, "&mut into_iter", (&mut km).into_iter().map(|x| *x), o.into_iter().collect::<Vec<_>>(), true)?;
                mc::iter_protocol!(w, "iter_mut", km.iter_mut().map(|x| *x), o.into_iter().collect::<Vec<_>>(), false)?;
                w.eq("guard-like when", &Maybe::when(o.is_some(), o.unwrap_or(7)), &m)?;
                w.eq("to_standard_result", &m.to_standard_result(), &o.ok_or(MaybeError::ValueNotPresent))?;
                w.eq("default", &Maybe::<U>::default(), &Maybe::Nothing)?;
                match o {
                    Some(x) => {
                        w.eq("unwrap", &mc::catch(|| m.unwrap()), &Ok(x))?;
                        w.eq("try_unwrap", &m.try_unwrap().ok(), &Some(x))?;
                        w.eq("ext try_unwrap", &MaybeExt::try_unwrap(m).ok(), &Some(x))?;
                    },
                    None => {
                        w.ok("unwrap panics", panics(|| m.unwrap()))?;
                        for e in [m.try_unwrap(), MaybeExt::try_unwrap(m)] {
                            let e = match e {
                                Ok(x) => return Err(format!("try_unwrap gave {x}")),
                                Err(e) => e,
                            };
                            w.eq("try_unwrap core", e.core_error(), &"Cannot unwrap Nothing value")?;
                            w.eq("try_unwrap context", &e.context(), &vec!["Called `try_unwrap()` on a `Nothing` value".to_string()])?;
                        }
                    },
                }
                for d in D {
                    w.eq("unwrap_or", &m.unwrap_or(d), &o.unwrap_or(d))?;
                    w.eq("unwrap_or_else", &m.unwrap_or_else(|| { hit(); d }), &o.unwrap_or(d))?;
                    w.eq("unwrap_or_else calls", &hits(), &(o.is_none() as u32))?;
                    w.eq("to_result", &m.to_result(d), &o.ok_or(d))?;
                    w.eq("ext to_result", &MaybeExt::to_result(m, d), &o.ok_or(d))?;
                }
                w.eq("many", &m.many().to_option(), &o.map(|x| vec![x]))
            });
        });
        c.par("maybe/pairs", &opts(), |w, a| {
            for b in opts() {
                w.case(|| format!("{a:?} {b:?}"), |w| {
                    let (m, n) = (mb(*a), mb(b));
                    w.eq("eq", &(m == n), &(*a == b))?;
                    w.eq("hash agrees with eq", &(mc::hash_of(&m) == mc::hash_of(&n)), &(*a == b))?;
                    w.eq("cmp antisymmetric", &m.cmp(&n), &n.cmp(&m).reverse())?;
                    w.eq("partial_cmp", &m.partial_cmp(&n), &Some(m.cmp(&n)))?;
                    if let (Some(x), Some(y)) = (a, b) {
                        w.eq("cmp", &m.cmp(&n), &x.cmp(&y))?;
                    }
                    w.eq("alt", &m.alt(&n), &mb(a.or(b)))?;
                    w.eq("mplus", &m.mplus(&n), &mb(a.or(b)))?;
                    w.eq("mplus_owned", &m.mplus_owned(n), &mb(a.or(b)))?;
                    let v: Vec<U> = a.iter().chain(b.iter()).copied().collect();
                    w.eq("collect takes the first", &v.iter().copied().collect::<Maybe<U>>(), &mb(v.first().copied()))?;
                    for h in HINTS {
                        w.eq("collect from an iterator", &hint(v.clone(), h).collect::<Maybe<U>>(), &mb(v.first().copied()))?;
                    }
                    w.eq("collect from an endless iterator", &v.iter().copied().cycle().collect::<Maybe<U>>(), &mb(v.first().copied()))?;
                    let zip = |f: &mut dyn FnMut(U, U) -> U| a.and_then(|x| b.map(|y| f(x, y)));
                    let want = zip(&mut |x, y| 2 * x + y);
                    w.eq("lift2", &<Maybe<U> as Applicative>::lift2(|x: &U, y: &U| 2 * x + y, &m, &n), &mb(want))?;
                    w.eq("lift2_owned", &<Maybe<U> as Applicative>::lift2_owned(|x: U, y: U| 2 * x + y, m, n), &mb(want))
                });
            }
        });
        c.seq("maybe/constants", |w| {
            w.case(|| "all".into(), |w| {
                w.eq("empty_alt", &<Maybe<U> as Alternative>::empty_alt::<U>(), &Maybe::Nothing)?;
                w.eq("mzero", &<Maybe<U> as MonadPlus>::mzero::<U>(), &Maybe::Nothing)?;
                w.eq("guard true", &<Maybe<U> as Alternative>::guard(true), &Maybe::Just(()))?;
                w.eq("guard false", &<Maybe<U> as Alternative>::guard(false), &Maybe::Nothing)?;
                for r in ress() {
                    w.eq("From<Result>", &Maybe::from(r), &mb(r.ok()))?;
                }
                w.eq("display ValueNotPresent", &MaybeError::ValueNotPresent.to_string().as_str(), &"Attempted to access a value in a Nothing")?;
                w.eq("display Custom", &MaybeError::Custom("m".into()).to_string().as_str(), &"m")
            });
        });
        c.par("maybe/functions", &fs, |w, f| {
            for o in opts() {
                w.case(|| format!("{o:?} f={:?}", f.0), |w| {
                    let (m, g, gr) = (mb(o), cnt(f), cntr(f));
                    let want = o.map(|x| f.at(x as usize));
                    let n = o.is_some() as u32;
                    hits();
                    w.eq("fmap", &m.fmap(&gr), &mb(want))?;
                    w.eq("fmap calls", &hits(), &n)?;
                    w.eq("fmap_owned", &m.fmap_owned(&g), &mb(want))?;
                    w.eq("fmap_owned calls", &hits(), &n)?;
                    for d in D {
                        w.eq("fmap_or", &m.fmap_or(d, &g), &want.unwrap_or(d))?;
                        w.eq("fmap_or calls", &hits(), &n)?;
                    }
                    let mut k = m;
                    for x in k.iter_mut() {
                        *x = f.at(*x as usize);
                    }
                    w.eq("iter_mut", &k, &mb(want))?;
                    let mut k = m;
                    for x in &mut k {
                        *x = f.at(*x as usize);
                    }
                    w.eq("&mut into_iter", &k, &mb(want))?;
                    let seen = RefCell::new(vec![]);
                    w.eq("tap", &m.tap(|x| seen.borrow_mut().push(*x)), &m)?;
                    w.eq("tap saw", &seen.into_inner(), &o.into_iter().collect::<Vec<_>>())?;
                    hits();
                    Ok(())
                });
            }
        });
        c.par("maybe/filter", &ps, |w, p| {
            for o in opts() {
                w.case(|| format!("{o:?} p={:?}", p.0), |w| {
                    hits();
                    w.eq("filter", &mb(o).filter(cntr(p)), &mb(o.filter(|x| p.at(*x as usize))))?;
                    w.eq("filter calls", &hits(), &(o.is_some() as u32))
                });
            }
        });
        c.par("maybe/bind", &ks, |w, k| {
            for o in opts() {
                w.case(|| format!("{o:?} k={:?}", k.0), |w| {
                    hits();
                    let want = mb(o.and_then(|x| k.at(x as usize)));
                    w.eq("bind", &mb(o).bind(|x| { hit(); mb(k.at(*x as usize)) }), &want)?;
                    w.eq("bind_owned", &mb(o).bind_owned(|x| { hit(); mb(k.at(x as usize)) }), &want)?;
                    w.eq("calls", &hits(), &(2 * o.is_some() as u32))
                });
            }
        });
        let mk: Vec<usize> = vec![1, 5, 11, 22, 26];
        let mut mops: Vec<MOp> = mk.iter().map(|i| MOp::Map(*i)).collect();
        mops.extend(mk.iter().map(|i| MOp::MapOwned(*i)));
        mops.extend((0..8).map(MOp::Filter));
        mops.extend([6, 27, 45, 63].map(MOp::Bind));
        mops.extend([6, 33, 51].map(MOp::BindOwned));
        mops.extend(mk.iter().map(|i| MOp::IterMut(*i)));
        mops.extend([MOp::Tap, MOp::OptionTrip, MOp::CollectTrip]);
        for o in [None, Some(0), Some(2)] {
            mops.extend([MOp::AltL(o), MOp::AltR(o), MOp::Plus(o), MOp::PlusOwned(o), MOp::Lift2(o), MOp::ThenR(o)]);
        }
        let depth = c.pick(4, 4);
        c.par("maybe/chains", &mops, |w, first| {
            let (fs, ps, ks) = (&fs, &ps, &ks);
            let step = |m: Maybe<U>, o: &MOp| -> Maybe<U> {
                match o {
                    MOp::Map(i) => m.fmap(|x| fs[*i].at(*x as usize)),
                    MOp::MapOwned(i) => m.fmap_owned(|x| fs[*i].at(x as usize)),
                    MOp::Bind(i) => m.bind(|x| mb(ks[*i].at(*x as usize))),
                    MOp::BindOwned(i) => m.bind_owned(|x| mb(ks[*i].at(x as usize))),
                    MOp::Filter(i) => m.filter(|x| ps[*i].at(*x as usize)),
                    MOp::Tap => m.tap(|_| {}),
                    MOp::AltL(o) => m.alt(&mb(*o)),
                    MOp::AltR(o) => mb(*o).alt(&m),
                    MOp::Plus(o) => m.mplus(&mb(*o)),
                    MOp::PlusOwned(o) => m.mplus_owned(mb(*o)),
                    MOp::IterMut(i) => {
                        let mut m = m;
                        m.iter_mut().for_each(|x| *x = fs[*i].at(*x as usize));
                        m
                    },
                    MOp::OptionTrip => Maybe::from_option(m.to_option()),
                    MOp::CollectTrip => m.into_iter().collect(),
                    MOp::Lift2(o) => <Maybe<U> as Applicative>::lift2(|x: &U, y: &U| (2 * x + y) % 3, &m, &mb(*o)),
                    MOp::ThenR(o) => <Maybe<U> as Applicative>::sequence_right(&m, &mb(*o)),
                }
            };
            let model = |m: Option<U>, o: &MOp| -> Option<U> {
                match o {
                    MOp::Map(i) | MOp::MapOwned(i) | MOp::IterMut(i) => m.map(|x| fs[*i].at(x as usize)),
                    MOp::Bind(i) | MOp::BindOwned(i) => m.and_then(|x| ks[*i].at(x as usize)),
                    MOp::Filter(i) => m.filter(|x| ps[*i].at(*x as usize)),
                    MOp::Tap | MOp::OptionTrip | MOp::CollectTrip => m,
                    MOp::AltL(o) | MOp::Plus(o) | MOp::PlusOwned(o) => m.or(*o),
                    MOp::AltR(o) => o.or(m),
                    MOp::Lift2(o) => m.zip(*o).map(|(x, y)| (2 * x + y) % 3),
                    MOp::ThenR(o) => m.and(*o),
                }
            };
            let same = |s: &Maybe<U>, m: &Option<U>| (un(s) != *m).then(|| format!("got {s:?}, expected {m:?}"));
            for o in opts() {
                let mut tr = vec![first.clone()];
                let (s, m) = (step(mb(o), first), model(o, first));
                w.case(|| format!("{o:?} {tr:?}"), |_| same(&s, &m).map_or(Ok(()), Err));
                walk(w, s, m, &mops, depth - 1, &mut tr, &step, &model, &same);
            }
        });

        c.par("either/queries", &ress(), |w, r| {
            let r = *r;
            w.case(|| format!("{r:?}"), |w| {
                let e = ei(r);
                w.eq("constructors", &r.map_or_else(Either::left, Either::right), &e)?;
                w.eq("is_left", &e.is_left(), &r.is_err())?;
                w.eq("is_right", &e.is_right(), &r.is_ok())?;
                w.eq("to_result", &e.to_result(), &r)?;
                w.eq("from_result", &Either::from_result(r), &e)?;
                w.eq("right_option", &e.right_option(), &r.ok())?;
                w.eq("left_option", &e.left_option(), &r.err())?;
                let (rv, lv): (Vec<U>, Vec<U>) = (r.ok().into_iter().collect(), r.err().into_iter().collect());
                w.eq("into_iter", &e.into_iter().collect::<Vec<_>>(), &rv)?;
                w.eq("&into_iter", &(&e).into_iter().copied().collect::<Vec<_>>(), &rv)?;
                w.eq("left_iter", &e.left_iter().collect::<Vec<_>>(), &lv)?;
                w.eq("left_iter_ref", &e.left_iter_ref().copied().collect::<Vec<_>>(), &lv)?;
                let mut k = e;
                w.eq("&mut into_iter", &(&mut k).into_iter().map(|x| *x).collect::<Vec<_>>(), &rv)?;
                w.eq("left_iter_mut", &k.left_iter_mut().map(|x| *x).collect::<Vec<_>>(), &lv)?;
                mc::iter_protocol!(w, "into_iter", e.into_iter(), rv.clone(), false)?;
                mc::iter_protocol!(w, "&into_iter", (&e).into_iter().copied(), rv.clone(), false)?;
                mc::iter_protocol!(w, "&mut into_iter", (&mut k).into_iter().map(|x| *x), rv.clone(), false)?;
                mc::iter_protocol!(w, "left_iter", e.left_iter(), lv.clone(), false)?;
                mc::iter_protocol!(w, "left_iter_ref", e.left_iter_ref().copied(), lv.clone(), false)?;
                mc::iter_protocol!(w, "left_iter_mut", k.left_iter_mut().map(|x| *x), lv.clone(), false)?;
                let p = |x: Result<U, String>| x.ok();
                w.eq("unwrap", &p(mc::catch(|| e.unwrap())), &r.ok())?;
                w.eq("unwrap_right", &p(mc::catch(|| e.unwrap_right())), &r.ok())?;
                w.eq("right_value", &p(mc::catch(|| e.right_value())), &r.ok())?;
                w.eq("right_ref", &p(mc::catch(|| *e.right_ref())), &r.ok())?;
                w.eq("unwrap_left", &p(mc::catch(|| e.unwrap_left())), &r.err())?;
                w.eq("left_value", &p(mc::catch(|| e.left_value())), &r.err())?;
                w.eq("left_ref", &p(mc::catch(|| *e.left_ref())), &r.err())?;
                w.eq("left_mut", &p(mc::catch(|| *k.left_mut())), &r.err())?;
                for d in D {
                    w.eq("unwrap_or", &e.unwrap_or(d), &r.unwrap_or(d))?;
                    w.eq("right_or", &e.right_or(d), &r.unwrap_or(d))?;
                    w.eq("left_or", &e.left_or(d), &r.err().unwrap_or(d))?;
                }
                w.eq("many", &e.many(), &r.map_or(Either::Left(0), |x| Either::Right(vec![x])))
            });
        });
        c.par("either/pairs", &ress(), |w, a| {
            for b in ress() {
                w.case(|| format!("{a:?} {b:?}"), |w| {
                    let (m, n) = (ei(*a), ei(b));
                    w.eq("eq", &(m == n), &(*a == b))?;
                    w.eq("hash agrees with eq", &(mc::hash_of(&m) == mc::hash_of(&n)), &(*a == b))?;
                    w.eq("cmp antisymmetric", &m.cmp(&n), &n.cmp(&m).reverse())?;
                    w.eq("cmp equal iff eq", &(m.cmp(&n).is_eq()), &(*a == b))?;
                    match (a, b) {
                        (Ok(x), Ok(y)) => w.eq("cmp right", &m.cmp(&n), &x.cmp(&y))?,
                        (Err(x), Err(y)) => w.eq("cmp left", &m.cmp(&n), &x.cmp(&y))?,
                        _ => {},
                    }
                    w.eq("alt", &m.alt(&n), &ei(a.or(b)))?;
                    let plus = if a.is_err() && b.is_ok() { b } else { *a };
                    w.eq("mplus", &m.mplus(&n), &ei(plus))?;
                    w.eq("mplus_owned", &m.mplus_owned(n), &ei(plus))?;
                    let want = ei(a.and_then(|x| b.map(|y| 2 * x + y)));
                    w.eq("lift2", &<Either<U, U> as Applicative>::lift2(|x: &U, y: &U| 2 * x + y, &m, &n), &want)?;
                    w.eq("lift2_owned", &<Either<U, U> as Applicative>::lift2_owned(|x: U, y: U| 2 * x + y, m, n), &want)
                });
            }
        });
        c.par("either/functions", &fs, |w, f| {
            for g in &fs {
                for r in ress() {
                    w.case(|| format!("{r:?} f={:?} g={:?}", f.0, g.0), |w| {
                        let e = ei(r);
                        let (wr, wl) = (ei(r.map(|x| f.at(x as usize))), ei(r.map_err(|x| g.at(x as usize))));
                        let wb = ei(r.map(|x| f.at(x as usize)).map_err(|x| g.at(x as usize)));
                        hits();
                        w.eq("fmap", &e.fmap(cntr(f)), &wr)?;
                        w.eq("fmap_owned", &e.fmap_owned(cnt(f)), &wr)?;
                        w.eq("fmap_right", &e.fmap_right(cnt(f)), &wr)?;
                        w.eq("first", &e.first(cntr(f)), &wr)?;
                        w.eq("right calls", &hits(), &(4 * r.is_ok() as u32))?;
                        w.eq("fmap_left", &e.fmap_left(cnt(g)), &wl)?;
                        w.eq("second", &e.second(cntr(g)), &wl)?;
                        w.eq("map_second", &e.map_second(cntr(g)), &wl)?;
                        w.eq("map_second_owned", &e.map_second_owned(cnt(g)), &wl)?;
                        w.eq("left calls", &hits(), &(4 * r.is_err() as u32))?;
                        w.eq("bimap", &e.bimap(cntr(f), cntr(g)), &wb)?;
                        w.eq("bimap calls", &hits(), &1)?;
                        let mut k = e;
                        (&mut k).into_iter().for_each(|x| *x = f.at(*x as usize));
                        w.eq("&mut into_iter", &k, &wr)?;
                        let mut k = e;
                        k.left_iter_mut().for_each(|x| *x = g.at(*x as usize));
                        w.eq("left_iter_mut", &k, &wl)?;
                        if let Err(x) = r {
                            let mut k = e;
                            *k.left_mut() = g.at(x as usize);
                            w.eq("left_mut", &k, &wl)?;
                        }
                        Ok(())
                    });
                }
            }
        });
        let mut eops: Vec<EOp> = vec![EOp::ResultTrip];
        for i in [1usize, 5, 11, 22] {
            eops.extend([
                EOp::Map(i), EOp::MapOwned(i), EOp::Left(i), EOp::Right(i), EOp::First(i), EOp::Second(i), EOp::MapSecond(i),
                EOp::MapSecondOwned(i), EOp::IterMut(i), EOp::LeftMut(i), EOp::Bimap(i, 26 - i), EOp::Bind(i * 9 + 3), EOp::BindOwned(i * 7 + 40),
            ]);
        }
        for r in [Ok(0), Ok(2), Err(1)] {
            eops.extend([EOp::Alt(r), EOp::Plus(r), EOp::PlusOwned(r), EOp::Lift2(r)]);
        }
        c.par("either/chains", &eops, |w, first| {
            let (fs, es) = (&fs, &es);
            let at = |i: usize, x: U| fs[i].at(x as usize);
            let step = |e: Either<U, U>, o: &EOp| -> Either<U, U> {
                match o {
                    EOp::Map(i) => e.fmap(|x| at(*i, *x)),
                    EOp::MapOwned(i) => e.fmap_owned(|x| at(*i, x)),
                    EOp::Left(i) => e.fmap_left(|x| at(*i, x)),
                    EOp::Right(i) => e.fmap_right(|x| at(*i, x)),
                    EOp::Bimap(i, j) => e.bimap(|x| at(*i, *x), |x| at(*j, *x)),
                    EOp::First(i) => e.first(|x| at(*i, *x)),
                    EOp::Second(i) => e.second(|x| at(*i, *x)),
                    EOp::MapSecond(i) => e.map_second(|x| at(*i, *x)),
                    EOp::MapSecondOwned(i) => e.map_second_owned(|x| at(*i, x)),
                    EOp::Bind(i) => e.bind(|x| ei(es[*i].at(*x as usize))),
                    EOp::BindOwned(i) => e.bind_owned(|x| ei(es[*i].at(x as usize))),
                    EOp::Alt(r) => e.alt(&ei(*r)),
                    EOp::Plus(r) => e.mplus(&ei(*r)),
                    EOp::PlusOwned(r) => e.mplus_owned(ei(*r)),
                    EOp::ResultTrip => Either::from_result(e.to_result()),
                    EOp::IterMut(i) => {
                        let mut e = e;
                        (&mut e).into_iter().for_each(|x| *x = at(*i, *x));
                        e
                    },
                    EOp::LeftMut(i) => {
                        let mut e = e;
                        e.left_iter_mut().for_each(|x| *x = at(*i, *x));
                        e
                    },
                    EOp::Lift2(r) => <Either<U, U> as Applicative>::lift2(|x: &U, y: &U| (2 * x + y) % 3, &e, &ei(*r)),
                }
            };
            let model = |e: Result<U, U>, o: &EOp| -> Result<U, U> {
                match o {
                    EOp::Map(i) | EOp::MapOwned(i) | EOp::Right(i) | EOp::First(i) | EOp::IterMut(i) => e.map(|x| at(*i, x)),
                    EOp::Left(i) | EOp::Second(i) | EOp::MapSecond(i) | EOp::MapSecondOwned(i) | EOp::LeftMut(i) => e.map_err(|x| at(*i, x)),
                    EOp::Bimap(i, j) => e.map(|x| at(*i, x)).map_err(|x| at(*j, x)),
                    EOp::Bind(i) | EOp::BindOwned(i) => e.and_then(|x| es[*i].at(x as usize)),
                    EOp::Alt(r) => e.or(*r),
                    EOp::Plus(r) | EOp::PlusOwned(r) => if e.is_err() && r.is_ok() { *r } else { e },
                    EOp::ResultTrip => e,
                    EOp::Lift2(r) => e.and_then(|x| r.map(|y| (2 * x + y) % 3)),
                }
            };
            let same = |s: &Either<U, U>, m: &Result<U, U>| (ue(s) != *m).then(|| format!("got {s:?}, expected {m:?}"));
            for r in ress() {
                let mut tr = vec![first.clone()];
                let (s, m) = (step(ei(r), first), model(r, first));
                w.case(|| format!("{r:?} {tr:?}"), |_| same(&s, &m).map_or(Ok(()), Err));
                walk(w, s, m, &eops, depth - 1, &mut tr, &step, &model, &same);
            }
        });

        c.par("id/all", &D, |w, x| {
            let x = *x;
            for f in &fs {
                for y in D {
                    w.case(|| format!("{x} {y} f={:?}", f.0), |w| {
                        let i = Id::new(x);
                        w.eq("into_inner", &i.into_inner(), &x)?;
                        w.eq("unwrap", &i.unwrap(), &x)?;
                        w.eq("unwrap_or", &i.unwrap_or(y), &x)?;
                        w.eq("as_ref", i.as_ref(), &x)?;
                        w.eq("from_ref", &Id::from_ref(&x), &i)?;
                        w.eq("From", &Id::from(x), &i)?;
                        w.eq("then", &i.then(Id::new(y)), &Id::new(y))?;
                        w.eq("eq", &(i == Id::new(y)), &(x == y))?;
                        w.eq("cmp", &i.cmp(&Id::new(y)), &x.cmp(&y))?;
                        let mut k = i;
                        *k.value_mut() = y;
                        w.eq("value_mut", &k, &Id::new(y))?;
                        let mut k = i;
                        (&mut k).into_iter().for_each(|v| *v = f.at(*v as usize));
                        w.eq("&mut into_iter", &k.unwrap(), &f.at(x as usize))?;
                        w.eq("into_iter", &i.into_iter().collect::<Vec<_>>(), &vec![x])?;
                        w.eq("&into_iter", &(&i).into_iter().copied().collect::<Vec<_>>(), &vec![x])?;
                        mc::iter_protocol!(w, "into_iter", i.into_iter(), vec![x], false)?;
                        mc::iter_protocol!(w, "&into_iter", (&i).into_iter().copied(), vec![x], false)?;
                        hits();
                        w.eq("fmap", &i.fmap(cntr(f)).unwrap(), &f.at(x as usize))?;
                        w.eq("fmap_owned", &i.fmap_owned(cnt(f)).unwrap(), &f.at(x as usize))?;
                        w.eq("bind", &i.bind(|v| Id::new(cntr(f)(v))).unwrap(), &f.at(x as usize))?;
                        w.eq("calls", &hits(), &3)?;
                        w.eq("default", &Id::<U>::default().unwrap(), &0)
                    });
                }
            }
        });

        // One-field wrappers.
        c.par("wrappers/plain", &D, |w, x| {
            let x = *x;
            macro_rules! plain { ($t:ident, $d:expr) => {
                for y in D {
                    w.case(|| format!("{} {x} {y}", stringify!($t)), |w| {
                        let v = $t(x);
                        w.eq("unwrap", &v.unwrap(), &x)?;
                        w.eq("unwrap_or", &v.unwrap_or(y), &x)?;
                        w.eq("as_ref", v.as_ref(), &x)?;
                        w.eq("From", &$t::from(x), &v)?;
                        w.eq("display", &v.to_string(), &format!("{}({x})", stringify!($t)))?;
                        w.eq("debug", &format!("{v:?}"), &format!("{}({x})", stringify!($t)))?;
                        w.eq("eq", &(v == $t(y)), &(x == y))?;
                        w.eq("cmp", &v.cmp(&$t(y)), &x.cmp(&y))?;
                        let f: fn(U, U) -> U = $d;
                        w.eq("combine", &v.combine(&$t(y)).0, &f(x, y))?;
                        w.eq("combine_owned", &v.clone().combine_owned($t(y)).0, &f(x, y))
                    });
                }
                for f in &fs {
                    w.case(|| format!("{} {x} f={:?}", stringify!($t), f.0), |w| {
                        hits();
                        w.eq("fmap", &$t(x).fmap(cntr(f)).0, &f.at(x as usize))?;
                        w.eq("fmap_owned", &$t(x).fmap_owned(cnt(f)).0, &f.at(x as usize))?;
                        w.eq("calls", &hits(), &2)
                    });
                }
                identity(w, stringify!($t), &$t(x), Some(x));
            } }
            plain!(Min, |a, b| a.min(b));
            plain!(Max, |a, b| a.max(b));
            plain!(Sum, |a, b| a + b);
            plain!(Product, |a, b| a * b);
        });
        c.par("wrappers/optional", &opts(), |w, o| {
            let o = *o;
            macro_rules! opt { ($t:ident, $pick:expr) => {
                for y in opts() {
                    w.case(|| format!("{} {o:?} {y:?}", stringify!($t)), |w| {
                        let v = $t(o);
                        w.eq("unwrap", &mc::catch(|| v.unwrap()).ok(), &o)?;
                        w.eq("as_ref", &mc::catch(|| *v.as_ref()).ok(), &o)?;
                        for d in D {
                            w.eq("unwrap_or", &v.unwrap_or(d), &o.unwrap_or(d))?;
                        }
                        if let Some(x) = o {
                            w.eq("From", &$t::from(x), &v)?;
                            w.eq("display", &v.to_string(), &format!("{}(Some({x}))", stringify!($t)))?;
                        } else {
                            w.eq("display", &v.to_string(), &format!("{}(None)", stringify!($t)))?;
                        }
                        w.eq("eq", &(v == $t(y)), &(o == y))?;
                        w.eq("cmp", &v.cmp(&$t(y)), &o.cmp(&y))?;
                        let pick: fn(Option<U>, Option<U>) -> Option<U> = $pick;
                        w.eq("combine", &v.combine(&$t(y)).0, &pick(o, y))?;
                        w.eq("combine_owned", &v.combine_owned($t(y)).0, &pick(o, y))?;
                        w.eq("empty", &$t::<U>::empty().0, &None)
                    });
                }
                for f in &fs {
                    w.case(|| format!("{} {o:?} f={:?}", stringify!($t), f.0), |w| {
                        hits();
                        let want = o.map(|x| f.at(x as usize));
                        w.eq("fmap", &$t(o).fmap(cntr(f)).0, &want)?;
                        w.eq("fmap_owned", &$t(o).fmap_owned(cnt(f)).0, &want)?;
                        w.eq("calls", &hits(), &(2 * o.is_some() as u32))
                    });
                }
                identity(w, stringify!($t), &$t(o), o);
            } }
            opt!(First, |a, b| a.or(b));
            opt!(Last, |a, b| b.or(a));
        });
        c.seq("identity/containers", |w| {
            for o in opts() {
                identity(w, "Maybe", &mb(o), o);
                identity(w, "Option", &o, o);
            }
            for r in ress() {
                identity(w, "Either", &ei(r), r.ok());
                identity(w, "Result", &r, r.ok());
                identity(w, "Validated", &r.map_or_else(Validated::<U, U>::invalid, Validated::valid), r.ok());
            }
            for x in D {
                identity(w, "Id", &Id::new(x), Some(x));
                identity(w, "Writer", &Writer::new(Sum(1u8), x), Some(x));
            }
            for v in mc::dom::seqs(&D, 3) {
                identity(w, "Choice", &v.iter().copied().collect::<Choice<U>>(), v.first().copied());
                identity(w, "PersistentVector", &v.iter().copied().collect::<PersistentVector<U>>(), v.first().copied());
            }
        });
        // Predicates: every expression over all predicates of the domain, as sets.
        let pd = c.pick(3, 3);
        let leaves = tables(3, &[false, true]);
        c.par("predicate/algebra", &leaves, |w, p0| {
            #[derive(Clone, Debug)]
            enum O { Union, Inter, Diff, Neg, BitOr, BitAnd, Sub, Not, Comb, CombOwned, RUnion, RDiff }
            use O::*;
            let ops = [Union, Inter, Diff, Neg, BitOr, BitAnd, Sub, Not, Comb, CombOwned, RUnion, RDiff];
            let mk = |t: &Vec<bool>| { let t = t.clone(); Predicate::new(move |x: &U| { hit(); t[*x as usize] }) };
            #[allow(clippy::too_many_arguments)]
            fn go(w: &mut W, p: &Predicate<U>, m: &[bool], d: usize, ops: &[O], leaves: &[Vec<bool>], mk: &dyn Fn(&Vec<bool>) -> Predicate<U>, tr: &mut Vec<String>) {
                w.case(|| tr.join(" "), |w| {
                    hits();
                    for x in D {
                        w.eq("contains", &p.contains(&x), &m[x as usize])?;
                    }
                    Ok(())
                });
                if d == 0 { return; }
                for o in ops {
                    let unary = matches!(o, Neg | Not);
                    for q in leaves.iter().take(if unary { 1 } else { 8 }) {
                        let r = mk(q);
                        let (p2, f): (Predicate<U>, fn(bool, bool) -> bool) = match o {
                            Union => (p.union(&r), |a, b| a || b),
                            Inter => (p.intersection(&r), |a, b| a && b),
                            Diff => (p.diff(&r), |a, b| a && !b),
                            Neg => (p.negate(), |a, _| !a),
                            BitOr => (p.clone() | r, |a, b| a || b),
                            BitAnd => (p.clone() & r, |a, b| a && b),
                            Sub => (p.clone() - r, |a, b| a && !b),
                            Not => (!p.clone(), |a, _| !a),
                            Comb => (p.combine(&r), |a, b| a || b),
                            CombOwned => (p.clone().combine_owned(r), |a, b| a || b),
                            RUnion => (r.union(p), |a, b| a || b),
                            RDiff => (r.diff(p), |a, b| b && !a),
                        };
                        let m2: Vec<bool> = m.iter().zip(q).map(|(a, b)| f(*a, *b)).collect();
                        tr.push(format!("{o:?}{q:?}"));
                        go(w, &p2, &m2, d - 1, ops, leaves, mk, tr);
                        tr.pop();
                    }
                }
            }
            go(w, &mk(p0), p0, pd, &ops, &leaves, &mk, &mut vec![format!("{p0:?}")]);
            w.case(|| "empty".into(), |w| {
                for x in D {
                    w.eq("empty", &Predicate::<U>::empty().contains(&x), &false)?;
                }
                Ok(())
            });
        });
    })
}
