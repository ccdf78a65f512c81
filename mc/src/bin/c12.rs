//! C12: validations keep every error exactly once, in order; operation sequences of bounded
//! depth against a list model, all short rows of validations through every combiner.
use mc::dom::{HINTS, LONG, hint};
use mc::dom::seqs;
use mc::{Ctx, W};
use rustica::datatypes::validated::ErrorsIter;
use rustica::traits::hkt::BinaryHKT;
use rustica::datatypes::validated::Validated;
use rustica::error as err;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::semigroup::Semigroup;
use rustica::utils::error_utils;
use smallvec::SmallVec;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

type M = Result<u32, Vec<u8>>;
type V = Validated<u8, u32>;

fn mk<T: Clone, E: Copy>(m: &Result<T, Vec<E>>) -> Validated<E, T> {
    match m {
        Ok(v) => Validated::Valid(v.clone()),
        Err(e) => {
            let mut s = SmallVec::new();
            for x in e {
                s.push(*x);
            }
            Validated::Invalid(s)
        },
    }
}
fn un<T: Clone, E: Copy>(v: &Validated<E, T>) -> Result<T, Vec<E>> {
    match v {
        Validated::Valid(x) => Ok(x.clone()),
        Validated::Invalid(e) => Err(e.iter().copied().collect()),
    }
}
/// Reference combination of a row: all values, or all errors in order.
fn row<T: Clone, E: Copy>(ms: &[Result<T, Vec<E>>]) -> Result<Vec<T>, Vec<E>> {
    if ms.iter().all(|m| m.is_ok()) {
        Ok(ms.iter().map(|m| m.clone().ok().unwrap()).collect())
    } else {
        Err(ms.iter().filter_map(|m| m.as_ref().err()).flatten().copied().collect())
    }
}

struct Flag;
impl Wake for Flag {
    fn wake(self: Arc<Self>) {}
}
/// Ready with its value after `left` pending polls.
struct After(u8, u8);
impl Future for After {
    type Output = u8;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u8> {
        if self.0 == 0 {
            return Poll::Ready(self.1);
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn block<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(Flag));
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..1000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("future never completes");
}

fn space(c: &Ctx) -> Vec<M> {
    let mut r: Vec<M> = vec![Ok(0), Ok(1), Ok(2)];
    r.extend(seqs(&[7u8, 8, 9], c.pick(3, 4)).into_iter().map(Err));
    for n in [4usize, 5, 7, 8, 9, 16, 17] {
        r.push(Err((10..10 + n as u8).collect()));
    }
    r
}

fn observers(c: &Ctx) {
    c.seq("queries and extraction", |w| {
        for m in space(c) {
            w.case(|| format!("{m:?}"), |w| {
                let v: V = mk(&m);
                let es: Vec<u8> = m.clone().err().unwrap_or_default();
                w.eq("is_valid", &v.is_valid(), &m.is_ok())?;
                w.eq("is_invalid", &v.is_invalid(), &m.is_err())?;
                w.eq("errors", &v.errors(), &es)?;
                w.eq("error_slice", &v.error_slice().to_vec(), &es)?;
                w.eq("iter_errors", &v.iter_errors().copied().collect::<Vec<_>>(), &es)?;
                let it = match v.error_slice() {
                    [] => ErrorsIter::Empty,
                    l => ErrorsIter::Multi(l.iter()),
                };
                w.eq("ErrorsIter", &it.copied().collect::<Vec<_>>(), &es)?;
                w.eq("error_payload", &v.error_payload().map(|s| s.to_vec()), &m.clone().err())?;
                w.eq("error_buffer_mut", &v.clone().error_buffer_mut().map(|s| s.to_vec()), &m.clone().err())?;
                w.eq("into_value", &v.clone().into_value().map_err(|s| s.to_vec()), &m)?;
                w.eq("into_error_payload", &v.clone().into_error_payload().map(|s| s.to_vec()).err(), &m.clone().ok())?;
                w.eq("to_option", &v.to_option(), &m.clone().ok())?;
                w.eq("as_ref", &v.as_ref().copied(), &m.clone().ok())?;
                w.eq("AsRef", &mc::catch(|| *AsRef::<u32>::as_ref(&v)).ok(), &m.clone().ok())?;
                w.eq("unwrap_or", &v.unwrap_or(&77), &m.clone().unwrap_or(77))?;
                w.eq("iter", &v.iter().copied().collect::<Vec<_>>(), &m.iter().copied().collect::<Vec<_>>())?;
                w.eq("into_iter", &v.clone().into_iter().collect::<Vec<_>>(), &m.iter().copied().collect::<Vec<_>>())?;
                w.eq("ref into_iter", &(&v).into_iter().copied().collect::<Vec<_>>(), &m.iter().copied().collect::<Vec<_>>())?;
                let ok: Vec<u32> = m.iter().copied().collect();
                mc::iter_protocol!(w, "iter", v.iter().copied(), ok.clone(), false)?;
                mc::iter_protocol!(w, "into_iter", v.clone().into_iter(), ok.clone(), false)?;
                mc::iter_protocol!(w, "ref into_iter", (&v).into_iter().copied(), ok.clone(), false)?;
                mc::iter_protocol!(w, "iter_errors", v.iter_errors().copied(), es.clone(), true)?;
                let mut t = v.clone();
                mc::iter_protocol!(w, "iter_mut", t.iter_mut().map(|x| *x), ok.clone(), false)?;
                mc::iter_protocol!(w, "iter_errors_mut", t.iter_errors_mut().map(|x| *x), es.clone(), false)?;
                mc::iter_protocol!(w, "ErrorsIter", match v.error_slice() { [] => ErrorsIter::Empty, l => ErrorsIter::Multi(l.iter()) }.copied(), es.clone(), false)?;
                for x in t.iter_mut() {
                    *x += 5;
                }
                for x in &mut t {
                    *x += 5;
                }
                for (i, e) in t.iter_errors_mut().enumerate() {
                    *e += 100 + i as u8;
                }
                let want: M = m.clone().map(|x| x + 10).map_err(|e| e.iter().enumerate().map(|(i, e)| e + 100 + i as u8).collect());
                w.eq("mutation through iterators", &un(&t), &want)?;
                w.eq("recover_with", &un(&v.clone().recover_with(9)), &Ok(m.clone().unwrap_or(9)))?;
                let seen = RefCell::new(None);
                let r = v.clone().recover_all_at_once(|es| { *seen.borrow_mut() = Some(es.clone()); Validated::invalid_many(es.into_iter().rev()) });
                w.eq("recover_all_at_once gets all errors", &seen.into_inner(), &m.clone().err())?;
                w.eq("recover_all_at_once", &un(&r), &m.clone().map_err(|mut e| { e.reverse(); e }))?;
                w.eq("split_validated_errors", &err::split_validated_errors(v.clone()), &match &m {
                    Ok(x) => vec![Ok(*x)],
                    Err(e) => e.iter().map(|e| Err(*e)).collect(),
                })?;
                if !es.is_empty() || m.is_ok() {
                    let first: Result<u32, u8> = m.clone().map_err(|e| e[0]);
                    w.eq("to_result", &v.to_result(), &first)?;
                    w.eq("to_result_owned", &v.clone().to_result_owned(), &first)?;
                }
                match &m {
                    Ok(x) => {
                        w.eq("unwrap", &v.unwrap(), x)?;
                        w.eq("unwrap_owned", &v.clone().unwrap_owned(), x)?;
                        w.ok("unwrap_invalid of valid panics", mc::panics(|| v.unwrap_invalid()))?;
                        w.ok("unwrap_invalid_owned of valid panics", mc::panics(|| v.clone().unwrap_invalid_owned()))
                    },
                    Err(e) => {
                        w.eq("unwrap_invalid", &v.unwrap_invalid(), e)?;
                        w.eq("unwrap_invalid_owned", &v.clone().unwrap_invalid_owned().to_vec(), e)?;
                        w.ok("unwrap of invalid panics", mc::panics(|| v.unwrap()))?;
                        w.ok("unwrap_owned of invalid panics", mc::panics(|| v.clone().unwrap_owned()))
                    },
                }
            });
        }
    });
    c.seq("constructors", |w| {
        for n in (0..=40usize).chain([63, 64, 65, 100, 130]).chain(LONG) {
            let l: Vec<u8> = (0..n).map(|i| (i * 7 % 251) as u8 ^ 5).collect();
            for h in HINTS {
                w.case(|| format!("n={n} hint={h}"), |w| {
                    let it = hint(l.clone(), h);
                    w.eq("invalid_many", &un(&V::invalid_many(it.clone())), &Err(l.clone()))?;
                    if n > 0 {
                        w.eq("invalid_vec", &un(&V::invalid_vec(it.clone())), &Err(l.clone()))?;
                    } else {
                        w.ok("invalid_vec of nothing panics", mc::panics(|| V::invalid_vec(it.clone())))?;
                    }
                    let want: Result<(), Vec<u8>> = if n == 0 { Ok(()) } else { Err(l.clone()) };
                    w.eq("collect_errors", &un(&err::collect_errors(it)), &want)
                });
            }
        }
        for o in [None, Some(4u32)] {
            w.case(|| format!("{o:?}"), |w| {
                let want: M = o.ok_or(vec![6]);
                w.eq("from_option", &un(&V::from_option(&o, &6)), &want)?;
                w.eq("from_option_owned", &un(&V::from_option_owned(o, 6)), &want)?;
                w.eq("from_option_with", &un(&V::from_option_with(&o, &|| 6)), &want)?;
                w.eq("from_option_with_owned", &un(&V::from_option_with_owned(o, || 6)), &want)?;
                let r: Result<u32, u8> = o.ok_or(6);
                w.eq("from_result", &un(&V::from_result(&r)), &want)?;
                w.eq("from_result_owned", &un(&V::from_result_owned(r)), &want)
            });
        }
    });
    // every recovery function over the errors: each error either stays, doubles, vanishes or recovers
    let lists = seqs(&[0u8, 1, 2], c.pick(4, 6));
    c.par("recovery of every error", &lists, |w, l| {
        for t in mc::dom::tables(3, &[0u8, 1, 2, 3]) {
            w.case(|| format!("{l:?} recovery={t:?}"), |w| {
                let f = |e: u8| -> M {
                    match t[e as usize] {
                        0 => Err(vec![e + 10]),
                        1 => Err(vec![e + 20, e + 30]),
                        2 => Err(vec![]),
                        _ => Ok(e as u32 + 40),
                    }
                };
                let want: M = match l.iter().find_map(|e| f(*e).ok()) {
                    Some(v) => Ok(v),
                    None => Err(l.iter().flat_map(|e| f(*e).unwrap_err()).collect()),
                };
                let got = mk(&Err::<u32, _>(l.clone())).recover_all(|e| mk(&f(e)));
                w.eq("recover_all", &un(&got), &want)?;
                w.eq("recover_all of a success", &un(&mk(&Ok::<u32, _>(3)).recover_all(|e| mk(&f(e)))), &Ok(3))
            });
        }
    });
}

/// Recovery functions that answer each error with a list of errors of its own, of every pair of lengths.
fn wide_recovery(c: &Ctx) {
    let ns: Vec<u32> = (0..=10).chain([15, 16, 17, 31, 32, 33, 64, 65, 100]).collect();
    let jobs: Vec<(u32, u32)> = ns.iter().flat_map(|a| ns.iter().map(move |b| (*a, *b))).collect();
    c.par("recovery with many errors", &jobs, |w, &(n, m)| {
        for k in 1..=4u32 {
            w.case(|| format!("{n} errors, each answered with up to {m}; k={k}"), |w| {
                let l: Vec<E> = (0..n).map(|i| i * 1000).collect();
                // the length alternates between m and shorter ones
                let f = |e: E| -> Vec<E> { (0..if (e / 1000 + 1) % k == 0 { m } else { k - 1 }).map(|i| e + i).collect() };
                let x: Validated<E, u32> = mk(&Err(l.clone()));
                w.eq("recover_all", &un(&x.clone().recover_all(|e| mk(&Err(f(e))))), &Err(l.iter().flat_map(|e| f(*e)).collect()))?;
                for at in [0, n / 2, n.wrapping_sub(1)].into_iter().filter(|i| *i < n) {
                    let mut calls = vec![];
                    let got = x.clone().recover_all(|e| { calls.push(e); if e == at * 1000 { Validated::Valid(7) } else { mk(&Err(f(e))) } });
                    w.eq("recovered", &un(&got), &Ok(7))?;
                    w.eq("recovery stops at the first success", &calls, &l[..=at as usize].to_vec())?;
                }
                let mut given = vec![];
                x.clone().recover_all_at_once(|es| { given = es; Validated::Valid(0) });
                w.eq("recover_all_at_once", &given, &l)
            });
        }
    });
}

/// Errors numbered beyond a byte, so that every one of a long list is distinguishable.
type E = u32;
fn long_rows(c: &Ctx) {
    c.note("long rows", "rows of up to 10001 validations, each failing (with 0..2 errors), or every k-th one, or only one; single failures with up to 10001 errors");
    let ns: Vec<usize> = (41..=130).step_by(c.pick(13, 1)).chain(LONG).collect();
    c.par("long rows", &ns, |w, n| {
        let n = *n;
        for pat in 0..6 {
            w.case(|| format!("n={n} pattern={pat}"), |w| {
                let ms: Vec<Result<u32, Vec<E>>> = (0..n).map(|i| {
                    let bad = match pat { 0 => true, 1 => i % 3 == 0, 2 => i == n - 1, 3 => i == 0, 4 => false, _ => i % 64 == 63 };
                    if bad { Err((0..1 + i as E % 2).map(|j| i as E * 2 + j).collect()) } else { Ok(i as u32) }
                }).collect();
                let vs: Vec<Validated<E, u32>> = ms.iter().map(mk).collect();
                let refs: Vec<_> = vs.iter().collect();
                let want: Result<Vec<u32>, Vec<E>> = row(&ms);
                w.eq("collect", &un(&Validated::<E, u32>::collect::<_, Vec<u32>>(vs.clone().into_iter())), &want)?;
                w.eq("collect_owned", &un(&Validated::<E, u32>::collect_owned::<_, Vec<u32>>(vs.clone().into_iter())), &want)?;
                w.eq("sequence", &un(&Validated::<E, u32>::sequence(&refs, &|x: &[u32]| x.to_vec())), &want)?;
                w.eq("sequence_owned", &un(&Validated::<E, u32>::sequence_owned(vs.clone(), |x| x)), &want)?;
                let one = |m: &Result<u32, Vec<E>>| m.clone().map_err(|e| e[0]);
                let first: Result<Vec<u32>, Vec<E>> = row(&ms.iter().map(|m| one(m).map_err(|e| vec![e])).collect::<Vec<_>>());
                w.eq("traverse_validated", &un(&error_utils::traverse_validated(ms.iter(), one)), &first)
            });
        }
        for k in [0, 1, n / 2, n] {
            w.case(|| format!("{k} and {} errors", n - k), |w| {
                let (e1, e2): (Vec<E>, Vec<E>) = ((0..k as E).collect(), (k as E..n as E).collect());
                let (a, b): (Validated<E, u32>, Validated<E, u32>) = (mk(&Err(e1)), mk(&Err(e2)));
                let want: Result<u32, Vec<E>> = Err((0..n as E).collect());
                w.eq("lift2", &un(&Validated::<E, u32>::lift2(|x: &u32, y: &u32| x + y, &a, &b)), &want)?;
                w.eq("lift2_owned", &un(&Validated::<E, u32>::lift2_owned(|x: u32, y: u32| x + y, a.clone(), b.clone())), &want)?;
                w.eq("apply", &un(&a.fmap(|x: &u32| { let x = *x; move |y: &u32| x + y }).apply(&b)), &want)?;
                w.eq("apply_owned", &un(&a.clone().fmap_owned(|x: u32| move |y: u32| x + y).apply_owned(b.clone())), &want)?;
                w.eq("combine", &un(&a.combine(&b)), &want)?;
                w.eq("combine_owned", &un(&a.clone().combine_owned(b.clone())), &want)?;
                w.eq("mplus", &un(&a.mplus(&b)), &want)?;
                w.eq("mplus_owned", &un(&a.clone().mplus_owned(b.clone())), &want)?;
                w.eq("combine_errors", &un(&a.combine_errors(&b)), &want)?;
                w.eq("combine_errors_owned", &un(&a.clone().combine_errors_owned(b.clone())), &want)?;
                let shift = |e: &E| e + 3;
                let all: Result<u32, Vec<E>> = Err((3..n as E + 3).collect());
                let v = a.combine_errors(&b);
                w.eq("fmap_invalid", &un(&v.fmap_invalid(shift)), &all)?;
                w.eq("fmap_invalid_owned", &un(&v.clone().fmap_invalid_owned(|e| e + 3)), &all)?;
                w.eq("bimap", &un(&v.bimap(|x| *x, shift)), &all)?;
                w.eq("map_second", &un(&v.map_second(shift)), &all)?;
                w.eq("map_second_owned", &un(&v.clone().map_second_owned(|e: E| e + 3)), &all)?;
                w.eq("recover_all", &un(&v.clone().recover_all(|e| Validated::invalid(e + 3))), &all)?;
                let o: Validated<E, u32> = mk(&Ok(4));
                w.eq("lift3", &un(&Validated::<E, u32>::lift3(|x: &u32, y: &u32, z: &u32| x + y + z, &a, &o, &b)), &want)?;
                w.eq("lift3_owned", &un(&Validated::<E, u32>::lift3_owned(|x: u32, y: u32, z: u32| x + y + z, a, o, b)), &want)
            });
        }
    });
}

fn rows(c: &Ctx) {
    let alpha: Vec<M> = vec![
        Ok(0), Ok(1), Err(vec![]), Err(vec![7]), Err(vec![8, 9]), Err((10..19).collect()),
    ];
    let rs = seqs(&alpha, c.pick(6, 7));
    c.par("rows of validations", &rs, |w, ms| {
        w.case(|| format!("{ms:?}"), |w| {
            let vs: Vec<V> = ms.iter().map(mk).collect();
            let want = row(ms);
            let refs: Vec<&V> = vs.iter().collect();
            w.eq("collect", &un(&V::collect::<_, Vec<u32>>(vs.clone().into_iter())), &want)?;
            w.eq("collect_owned", &un(&V::collect_owned::<_, Vec<u32>>(vs.clone().into_iter())), &want)?;
            for h in HINTS {
                w.same("collect of an iterator", &un(&V::collect::<_, Vec<u32>>(hint(vs.clone(), h))), &want)?;
                w.same("collect_owned of an iterator", &un(&V::collect_owned::<_, Vec<u32>>(hint(vs.clone(), h))), &want)?;
            }
            w.eq("sequence", &un(&V::sequence(&refs, &|x: &[u32]| x.to_vec())), &want)?;
            w.eq("sequence_owned", &un(&V::sequence_owned(vs.clone(), |x| x)), &want)?;
            // building the list one element at a time, from either end
            let mut l: Validated<u8, Vec<u32>> = Validated::Valid(vec![]);
            let mut lo = l.clone();
            for v in &vs {
                l = V::lift2(|a: &Vec<u32>, b: &u32| { let mut a = a.clone(); a.push(*b); a }, &l, v);
                lo = V::lift2_owned(|mut a: Vec<u32>, b: u32| { a.push(b); a }, lo, v.clone());
            }
            w.eq("lift2 from the left", &un(&l), &want)?;
            w.eq("lift2_owned from the left", &un(&lo), &want)?;
            let mut r: Validated<u8, Vec<u32>> = Validated::Valid(vec![]);
            for v in vs.iter().rev() {
                r = V::lift2(|b: &u32, a: &Vec<u32>| { let mut a = a.clone(); a.insert(0, *b); a }, v, &r);
            }
            w.eq("lift2 from the right", &un(&r), &want)?;
            let mut f: Validated<u8, Vec<u32>> = Validated::Valid(vec![]);
            for v in &vs {
                let g = f.fmap(|a: &Vec<u32>| { let a = a.clone(); move |b: &u32| { let mut a = a.clone(); a.push(*b); a } });
                f = g.apply(v);
            }
            w.eq("apply from the left", &un(&f), &want)?;
            let mut f: Validated<u8, Vec<u32>> = Validated::Valid(vec![]);
            for v in &vs {
                let g = f.fmap_owned(|a: Vec<u32>| move |b: u32| { let mut a = a.clone(); a.push(b); a });
                f = g.apply_owned(v.clone());
            }
            w.eq("apply_owned from the left", &un(&f), &want)?;
            // monadic chaining: only the first failure
            let mut b: Validated<u8, Vec<u32>> = Validated::Valid(vec![]);
            let mut bo = b.clone();
            for v in &vs {
                b = b.bind(|a: &Vec<u32>| v.fmap(|x: &u32| { let mut a = a.clone(); a.push(*x); a }));
                bo = bo.bind_owned(|a: Vec<u32>| v.clone().fmap_owned(|x: u32| { let mut a = a.clone(); a.push(x); a }));
            }
            let first = match ms.iter().find(|m| m.is_err()) {
                Some(m) => Err(m.clone().unwrap_err()),
                None => want.clone(),
            };
            w.eq("bind stops at the first failure", &un(&b), &first)?;
            w.eq("bind_owned stops at the first failure", &un(&bo), &first)?;
            // first success, otherwise all errors
            if let Some((h, t)) = vs.split_first() {
                let all: M = match ms.iter().find(|m| m.is_ok()) {
                    Some(m) => m.clone(),
                    None => Err(want.clone().err().unwrap_or_default()),
                };
                w.eq("mplus", &un(&t.iter().fold(h.clone(), |a, b| a.mplus(b))), &all)?;
                w.eq("mplus_owned", &un(&t.iter().fold(h.clone(), |a, b| a.mplus_owned(b.clone()))), &all)?;
                w.eq("combine", &un(&t.iter().fold(h.clone(), |a, b| a.combine(b))), &all)?;
                w.eq("combine_owned", &un(&t.iter().fold(h.clone(), |a, b| a.combine_owned(b.clone()))), &all)?;
                let last: M = ms.iter().find(|m| m.is_ok()).unwrap_or(ms.last().unwrap()).clone();
                w.eq("alt", &un(&t.iter().fold(h.clone(), |a, b| a.alt(b))), &last)?;
            }
            if ms.len() == 2 {
                if ms.iter().any(|m| m.is_err()) {
                    let e = Err(want.clone().unwrap_err());
                    w.eq("combine_errors", &un(&vs[0].combine_errors(&vs[1])), &e)?;
                    w.eq("combine_errors_owned", &un(&vs[0].clone().combine_errors_owned(vs[1].clone())), &e)?;
                } else {
                    w.ok("combine_errors of successes panics", mc::panics(|| vs[0].combine_errors(&vs[1])))?;
                    w.ok("combine_errors_owned of successes panics", mc::panics(|| vs[0].clone().combine_errors_owned(vs[1].clone())))?;
                }
            }
            if ms.len() == 3 {
                w.eq("lift3", &un(&V::lift3(|a: &u32, b: &u32, c: &u32| vec![*a, *b, *c], &vs[0], &vs[1], &vs[2])), &want)?;
                w.eq("lift3_owned", &un(&V::lift3_owned(|a: u32, b: u32, c: u32| vec![a, b, c], vs[0].clone(), vs[1].clone(), vs[2].clone())), &want)?;
            }
            // one error per failing element, each element visited once
            let calls = RefCell::new(vec![]);
            let t = error_utils::traverse_validated(ms.clone(), |m: M| {
                calls.borrow_mut().push(m.clone());
                m.map_err(|e| e.len() as u8)
            });
            let tw = row(&ms.iter().map(|m| m.clone().map_err(|e| vec![e.len() as u8])).collect::<Vec<_>>());
            w.eq("traverse_validated", &un(&t), &tw)?;
            w.eq("traverse_validated calls", &calls.into_inner(), ms)
        });
    });
    // every pair (and triple) of error counts around the inline capacity
    let k = c.pick(20u8, 70);
    let sizes: Vec<u8> = (0..=k).collect();
    c.par("pairs of error counts", &sizes, |w, n1| {
        for n2 in 0..=k {
            w.case(|| format!("{n1} and {n2} errors"), |w| {
                let e1: Vec<u8> = (0..*n1).collect();
                let e2: Vec<u8> = (0..n2).map(|i| 100 + i).collect();
                let (a, b): (V, V) = (mk(&Err(e1.clone())), mk(&Err(e2.clone())));
                let want: M = Err([&e1[..], &e2[..]].concat());
                let f = |x: &u32, y: &u32| x + y;
                w.eq("lift2", &un(&V::lift2(f, &a, &b)), &want)?;
                w.eq("lift2_owned", &un(&V::lift2_owned(|x: u32, y: u32| x + y, a.clone(), b.clone())), &want)?;
                let fs = a.fmap(|x: &u32| { let x = *x; move |y: &u32| x + y });
                w.eq("apply", &un(&fs.apply(&b)), &want)?;
                let fs = a.clone().fmap_owned(|x: u32| move |y: u32| x + y);
                w.eq("apply_owned", &un(&fs.apply_owned(b.clone())), &want)?;
                w.eq("combine", &un(&a.combine(&b)), &want)?;
                w.eq("combine_owned", &un(&a.clone().combine_owned(b.clone())), &want)?;
                w.eq("mplus", &un(&a.mplus(&b)), &want)?;
                w.eq("mplus_owned", &un(&a.clone().mplus_owned(b.clone())), &want)?;
                w.eq("combine_errors", &un(&a.combine_errors(&b)), &want)?;
                w.eq("combine_errors_owned", &un(&a.clone().combine_errors_owned(b.clone())), &want)?;
                // with a success between or around them
                let ok: V = V::valid(3);
                let f3 = |x: &u32, y: &u32, z: &u32| x + y + z;
                let f3o = |x: u32, y: u32, z: u32| x + y + z;
                for (x, y, z) in [(&a, &ok, &b), (&ok, &a, &b), (&a, &b, &ok)] {
                    w.eq("lift3", &un(&V::lift3(f3, x, y, z)), &want)?;
                    w.eq("lift3_owned", &un(&V::lift3_owned(f3o, x.clone(), y.clone(), z.clone())), &want)?;
                }
                let c3: V = mk(&Err(vec![250, 251, 252]));
                let w3: M = Err([&e1[..], &[250, 251, 252], &e2[..]].concat());
                w.eq("lift3 of three failures", &un(&V::lift3(f3, &a, &c3, &b)), &w3)?;
                w.eq("lift3_owned of three failures", &un(&V::lift3_owned(f3o, a.clone(), c3.clone(), b.clone())), &w3)?;
                w.eq("collect of three failures", &un(&V::collect::<_, Vec<u32>>([a.clone(), c3.clone(), b.clone()].into_iter())), &w3.map(|_| vec![]))
            });
        }
    });
    // wide rows across the inline capacity of the error store
    c.seq("wide rows", |w| {
        for n in 0..=c.pick(24usize, 40) {
            for bad in 0..=n {
                for at in [0, 1, 2] {
                    w.case(|| format!("n={n} failing={bad} pattern={at}"), |w| {
                        let ms: Vec<M> = (0..n).map(|i| {
                            let f = match at { 0 => i < bad, 1 => i >= n - bad, _ => bad > 0 && i % bad == 0 };
                            if f { Err(vec![i as u8; 1 + i % 3]) } else { Ok(i as u32) }
                        }).collect();
                        let vs: Vec<V> = ms.iter().map(mk).collect();
                        let refs: Vec<&V> = vs.iter().collect();
                        let want = row(&ms);
                        w.eq("collect", &un(&V::collect::<_, Vec<u32>>(vs.clone().into_iter())), &want)?;
                        w.eq("collect_owned", &un(&V::collect_owned::<_, Vec<u32>>(vs.clone().into_iter())), &want)?;
                        w.eq("sequence", &un(&V::sequence(&refs, &|x: &[u32]| x.to_vec())), &want)?;
                        w.eq("sequence_owned", &un(&V::sequence_owned(vs.clone(), |x| x)), &want)?;
                        let one = |m: &M| m.clone().map_err(|e| e[0]);
                        let want: Result<Vec<u32>, Vec<u8>> = row(&ms.iter().map(|m| one(m).map_err(|e| vec![e])).collect::<Vec<_>>());
                        w.eq("traverse_validated", &un(&error_utils::traverse_validated(ms.iter(), one)), &want)?;
                        // a fold of binary combinations, from either end
                        let seq = |m: &M| m.clone().map(|x| vec![x]);
                        let cat = |a: &Vec<u32>, b: &Vec<u32>| [a.clone(), b.clone()].concat();
                        let l = ms.iter().fold(Validated::valid(vec![]), |acc, m| Validated::<u8, Vec<u32>>::lift2(cat, &acc, &mk(&seq(m))));
                        let r = ms.iter().rev().fold(Validated::valid(vec![]), |acc, m| Validated::<u8, Vec<u32>>::lift2_owned(|a: Vec<u32>, b: Vec<u32>| cat(&a, &b), mk(&seq(m)), acc));
                        let want: Result<Vec<u32>, Vec<u8>> = row(&ms);
                        w.eq("fold of lift2", &un(&l), &want)?;
                        w.eq("fold of lift2_owned from the right", &un(&r), &want)
                    });
                }
            }
        }
    });
}

#[derive(Clone, Debug)]
enum Op {
    Map,
    MapOwned,
    MapErr,
    MapErrOwned,
    Bimap,
    Second,
    SecondOwned,
    WithError,
    PlusL(M),
    PlusR(M),
    ApOwnedL(M),
    ApR(M),
    Lift3(M),
    Lift3Ref(M),
    MPlus(M),
    MPlusOwnedL(M),
    AltL(M),
    CombErr(M),
    CombErrOwnedL(M),
    Bind(M),
    Push(u8),
    Recover,
}

/// A third operand that differs from the second.
fn third(o: &M) -> M {
    o.clone().map(|x| x + 100).map_err(|e| e.iter().map(|e| e ^ 64).collect())
}
fn step(op: &Op, v: &V, m: &M) -> (V, M) {
    let two = |a: &M, b: &M| row(&[a.clone(), b.clone()]).map(|x| x[0] * 3 + x[1]);
    let or = |a: &M, b: &M| match (a, b) {
        (Ok(_), _) => a.clone(),
        (_, Ok(_)) => b.clone(),
        (Err(x), Err(y)) => Err([x.clone(), y.clone()].concat()),
    };
    let errs = |a: &M, b: &M| -> M { row(&[a.clone(), b.clone()]).map(|x| x[0]) };
    let f = |a: &u32, b: &u32| a * 3 + b;
    match op {
        Op::Map => (v.fmap(|x| x + 1), m.clone().map(|x| x + 1)),
        Op::MapOwned => (v.clone().fmap_owned(|x| x + 2), m.clone().map(|x| x + 2)),
        Op::MapErr => (v.fmap_invalid(|e| e ^ 1), m.clone().map_err(|e| e.iter().map(|e| e ^ 1).collect())),
        Op::MapErrOwned => (v.clone().fmap_invalid_owned(|e| e ^ 2), m.clone().map_err(|e| e.iter().map(|e| e ^ 2).collect())),
        Op::Bimap => (v.bimap(|x| x + 3, |e| e ^ 4), m.clone().map(|x| x + 3).map_err(|e| e.iter().map(|e| e ^ 4).collect())),
        Op::Second => (v.map_second(|e| e ^ 3), m.clone().map_err(|e| e.iter().map(|e| e ^ 3).collect())),
        Op::SecondOwned => (v.clone().map_second_owned(|e| e ^ 5), m.clone().map_err(|e| e.iter().map(|e| e ^ 5).collect())),
        Op::WithError => (error_utils::WithError::fmap_error(v.clone(), |e: u8| e ^ 8), m.clone().map_err(|e| e.iter().map(|e| e ^ 8).collect())),
        Op::PlusL(o) => (V::lift2(f, &mk(o), v), two(o, m)),
        Op::PlusR(o) => (V::lift2_owned(|a: u32, b: u32| a * 3 + b, v.clone(), mk(o)), two(m, o)),
        Op::ApOwnedL(o) => (mk(o).fmap_owned(|a: u32| move |b: u32| a * 3 + b).apply_owned(v.clone()), two(o, m)),
        Op::ApR(o) => (v.fmap(|a: &u32| { let a = *a; move |b: &u32| a * 3 + b }).apply(&mk(o)), two(m, o)),
        Op::Lift3(o) => (
            V::lift3_owned(|a: u32, b: u32, c: u32| (a * 7 + b) * 5 + c, mk(o), v.clone(), mk(&third(o))),
            row(&[o.clone(), m.clone(), third(o)]).map(|x| (x[0] * 7 + x[1]) * 5 + x[2]),
        ),
        Op::Lift3Ref(o) => (
            V::lift3(|a: &u32, b: &u32, c: &u32| (a * 7 + b) * 5 + c, v, &mk(&third(o)), &mk(o)),
            row(&[m.clone(), third(o), o.clone()]).map(|x| (x[0] * 7 + x[1]) * 5 + x[2]),
        ),
        Op::MPlus(o) => (v.mplus(&mk(o)), or(m, o)),
        Op::MPlusOwnedL(o) => (mk(o).mplus_owned(v.clone()), or(o, m)),
        Op::AltL(o) => (mk(o).alt(v), if o.is_ok() { o.clone() } else { m.clone() }),
        Op::CombErr(o) if m.is_err() || o.is_err() => (v.combine_errors(&mk(o)), errs(m, o)),
        Op::CombErrOwnedL(o) if m.is_err() || o.is_err() => (mk(o).combine_errors_owned(v.clone()), errs(o, m)),
        Op::CombErr(_) | Op::CombErrOwnedL(_) => (v.clone(), m.clone()),
        Op::Bind(o) => (v.bind(|x: &u32| mk(o).fmap(|y: &u32| x * 3 + y)), m.clone().and_then(|x| o.clone().map(|y| x * 3 + y))),
        Op::Push(e) => {
            let (mut v, mut m) = (v.clone(), m.clone());
            if let Some(b) = v.error_buffer_mut() {
                b.push(*e);
            }
            if let Err(l) = &mut m {
                l.push(*e);
            }
            (v, m)
        },
        Op::Recover => (
            v.clone().recover_all(|e| if e % 2 == 0 { Validated::Invalid([e, e + 1].into_iter().collect()) } else { Validated::Invalid([e].into_iter().collect()) }),
            m.clone().map_err(|l| l.iter().flat_map(|e| if e % 2 == 0 { vec![*e, e + 1] } else { vec![*e] }).collect()),
        ),
    }
}

fn go(w: &mut W, ops: &[Op], left: usize, path: &mut Vec<usize>, v: &V, m: &M) {
    for (i, op) in ops.iter().enumerate() {
        path.push(i);
        let mut next = None;
        let ok = w.case(|| path.iter().map(|i| format!("{:?}", ops[*i])).collect::<Vec<_>>().join(" "), |w| {
            let (v2, m2) = step(op, v, m);
            w.op(1);
            w.eq("value or errors", &un(&v2), &m2)?;
            w.eq("operand unchanged", &un(v), m)?;
            w.eq("equality with a rebuilt value", &v2, &mk(&m2))?;
            w.state(mc::hash_of(&m2));
            next = Some((v2, m2));
            Ok(())
        });
        // error lists double under lift3; stop following the longest
        if let (true, Some((v2, m2))) = (ok && left > 1, next) {
            if m2.as_ref().err().is_none_or(|e| e.len() < 80) && m2.as_ref().ok().is_none_or(|x| *x < 1 << 20) {
                go(w, ops, left - 1, path, &v2, &m2);
            }
        }
        path.pop();
    }
}

fn histories(c: &Ctx) {
    let os: Vec<M> = vec![Ok(1), Err(vec![]), Err(vec![7, 8]), Err((20..27).collect())];
    let mut ops = vec![Op::Map, Op::MapOwned, Op::MapErr, Op::MapErrOwned, Op::Bimap, Op::Second, Op::SecondOwned, Op::WithError, Op::Push(3), Op::Recover];
    for o in &os {
        for k in [Op::PlusL, Op::PlusR, Op::ApOwnedL, Op::ApR, Op::MPlus, Op::MPlusOwnedL, Op::AltL, Op::CombErr, Op::CombErrOwnedL, Op::Bind] {
            ops.push(k(o.clone()));
        }
    }
    ops.push(Op::Lift3(Ok(1)));
    ops.push(Op::Lift3(Err(vec![7])));
    ops.push(Op::Lift3Ref(Ok(1)));
    ops.push(Op::Lift3Ref(Err(vec![7])));
    let starts: Vec<M> = vec![Ok(2), Err(vec![]), Err(vec![1, 2]), Err((0..8).collect()), Err((0..17).collect())];
    let depth = c.pick(4, 5);
    let jobs: Vec<(M, usize)> = starts.iter().flat_map(|s| (0..ops.len()).map(move |i| (s.clone(), i))).collect();
    c.par("operation sequences", &jobs, |w, (s, i)| {
        let (mut v, mut m) = (mk(s), s.clone());
        let ok = w.case(|| format!("{s:?}: {:?}", ops[*i]), |w| {
            let (v2, m2) = step(&ops[*i], &v, &m);
            w.eq("value or errors", &un(&v2), &m2)?;
            (v, m) = (v2, m2);
            Ok(())
        });
        if ok {
            go(w, &ops, depth - 1, &mut vec![*i], &v, &m);
        }
    });
    c.note("operation sequences", &format!("{} operations, sequences up to length {depth} from {} starting values", ops.len(), starts.len()));
}

fn futures(c: &Ctx) {
    let n = c.pick(4usize, 6);
    let lists: Vec<Vec<u8>> = seqs(&[0u8, 1, 2], n);
    c.par("asynchronous maps under every readiness order", &lists, |w, l| {
        w.case(|| format!("pending polls per error {l:?}"), |w| {
            let es: Vec<u8> = (0..l.len() as u8).map(|i| i * 3).collect();
            let (d, k) = (l.clone(), l.len());
            let v: V = mk(&Err(es.clone()));
            let got = block(v.fmap_invalid_async(move |e: u8| After(d[(e / 3) as usize % k.max(1)], e + 1)));
            w.eq("fmap_invalid_async keeps order", &un(&got), &Err(es.iter().map(|e| e + 1).collect()))?;
            w.eq("fmap_valid_async keeps errors", &un(&block(v.fmap_valid_async(|x: u32| async move { x + 1 }))), &Err(es.clone()))?;
            w.eq("and_then_async keeps errors", &un(&block(v.and_then_async(|x: u32| async move { mk(&Ok(x)) }))), &Err(es.clone()))?;
            let d = l.clone();
            let ok: V = mk(&Ok(5));
            let p = d.first().copied().unwrap_or(0);
            w.eq("fmap_valid_async", &un(&block(ok.fmap_valid_async(move |x: u32| async move { After(p, x as u8 + 1).await }))), &Ok(6))?;
            w.eq("and_then_async success", &un(&block(ok.and_then_async(move |x: u32| async move { let y = After(p, 1).await; mk(&Ok(x + y as u32)) }))), &Ok(6))?;
            let es2 = es.clone();
            w.eq("and_then_async failure", &un(&block(ok.and_then_async(move |_: u32| { let e = es2.clone(); async move { After(p, 1).await; mk(&Err::<u32, _>(e)) } }))), &Err(es.clone()))?;
            w.eq("fmap_invalid_async of a success", &un(&block(ok.fmap_invalid_async(move |e: u8| After(p, e)))), &Ok(5))
        });
    });
}

fn main() {
    mc::run("C12", |c| {
        observers(c);
        rows(c);
        long_rows(c);
        wide_recovery(c);
        histories(c);
        futures(c);
    })
}
