//! C14: choice (Alternative, MonadPlus) and error handling (MonadError, ErrorMapper) laws.
use mc::Ctx;
use mc::dom::tables;
use mc::fam::*;
use rustica::error::ErrorOps;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use std::cell::Cell;

/// What a choice between two failures reports.
#[derive(Clone, Copy, PartialEq)]
enum Both {
    First,
    Last,
    All,
}
fn choose<T: Clone>(k: Kind, cat: bool, both: Both, a: &M<T>, b: &M<T>) -> M<T> {
    if cat {
        return M::vals([a.vals.clone(), b.vals.clone()].concat());
    }
    match (a.vals.is_empty(), b.vals.is_empty()) {
        (false, _) => a.clone(),
        (true, false) => b.clone(),
        _ if k == Kind::Opt || k == Kind::List => M::vals(vec![]),
        _ => match both {
            Both::First => a.clone(),
            Both::Last => b.clone(),
            Both::All => M::errs([a.errs.clone(), b.errs.clone()].concat()),
        },
    }
}
/// Equality up to which errors a total failure reports.
fn vals<T: Clone>(m: &M<T>) -> Vec<T> {
    m.vals.clone()
}

macro_rules! alternative {
    ($c:expr, $m:ident, cat = $cat:expr, exact = $exact:expr, ap_exact = $apx:expr) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let mut xs = space(I::K, c.pick(3, 4), c.pick(2, 3));
        xs.extend(long(I::K, c.pick(&[7, 8, 9, 10, 15, 16, 17, 33, 65], &[6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 34, 64, 65, 129, 257])));
        let empty: X = X::empty_alt();
        let e = I::un(&empty);
        let pick = |a: &M<u32>, b: &M<u32>| choose(I::K, $cat, Both::Last, a, b);
        let fts: Vec<Vec<u32>> = vec![vec![1, 2, 0], vec![2, 2, 1]];
        let fs: Vec<M<u32>> = space(I::K, 2, 1).into_iter().filter(|m| m.vals.iter().all(|v| *v < 2)).collect();
        c.seq(concat!("Alternative units ", stringify!($m)), |w| {
            w.case(|| "empty and guard".into(), |w| {
                w.ok("empty_alt holds no value", e.vals.is_empty())?;
                w.eq("empty_alt errors", &e.errs.len(), &((I::K == Kind::Res || I::K == Kind::Val) as usize))?;
                w.eq("guard(true)", &I::un(&X::guard(true)), &M::pure(()))?;
                w.eq("guard(false)", &I::un(&X::guard(false)), &I::un(&X::empty_alt::<()>()))?;
                w.eq("many(empty)", &I::un(&empty.many()), &I::un(&X::empty_alt::<Vec<u32>>()))
            });
            for m in &xs {
                w.case(|| format!("{m:?}"), |w| {
                    let x: X = I::mk(m);
                    w.eq("empty.alt(x)", &I::un(&empty.alt(&x)), m)?;
                    if $exact {
                        w.eq("x.alt(empty)", &I::un(&x.alt(&empty)), m)?;
                    } else {
                        w.eq("x.alt(empty)", &vals(&I::un(&x.alt(&empty))), &m.vals)?;
                    }
                    if m.vals.is_empty() {
                        w.eq("many of a failure", &I::un(&x.many()), &I::un(&X::empty_alt::<Vec<u32>>()))?;
                    } else {
                        // a container of one list holding the value(s)
                        let kept = if I::K == Kind::List && !$cat { m.vals.clone() } else { vec![m.vals[0]] };
                        w.eq("many of a success", &I::un(&x.many()), &M::pure(kept))?;
                    }
                    // guarding a continuation
                    let f: I::F<_> = I::mk(&m.map(|_| func(&fts[0])));
                    let ann = I::un(&I::F::<u32>::lift2(|_: &u32, b: &u32| *b, &empty, &x));
                    w.eq("empty annihilates on the left", &ann.vals, &Vec::<u32>::new())?;
                    let fe: I::F<u32> = f.apply(&empty);
                    w.eq("empty annihilates on the right", &I::un(&fe).vals, &Vec::<u32>::new())
                });
            }
        });
        c.par(concat!("Alternative laws ", stringify!($m)), &xs, |w, a| {
            let x: X = I::mk(a);
            for b in &xs {
                w.case(|| format!("{a:?} {b:?}"), |w| {
                    let y: X = I::mk(b);
                    let ab = x.alt(&y);
                    w.eq("alt", &I::un(&ab), &pick(a, b))?;
                    w.same("operand unchanged", &I::un(&x), a)?;
                    for d in &xs {
                        let z: X = I::mk(d);
                        w.same("(ab)c", &I::un(&ab.alt(&z)), &pick(&pick(a, b), d))?;
                        w.same("a(bc)", &I::un(&x.alt(&y.alt(&z))), &pick(&pick(a, b), d))?;
                    }
                    for f in &fs {
                        let g: I::F<_> = I::mk(&f.map(|i| func(&fts[*i as usize])));
                        let l: X = g.apply(&ab);
                        let r: X = g.apply(&x).alt(&g.apply(&y));
                        if $apx {
                            w.same("application distributes", &I::un(&l), &I::un(&r))?;
                        } else {
                            w.same("application distributes", &vals(&I::un(&l)), &vals(&I::un(&r)))?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }};
}

macro_rules! monad_plus {
    ($c:expr, $m:ident, cat = $cat:expr, $both:expr) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let mut xs = space(I::K, c.pick(3, 4), c.pick(2, 3));
        xs.extend(long(I::K, c.pick(&[7, 8, 9, 10, 15, 16, 17, 33, 65], &[6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 34, 64, 65, 129, 257])));
        let zero: X = X::mzero::<u32>();
        let pick = |a: &M<u32>, b: &M<u32>| choose(I::K, $cat, $both, a, b);
        c.seq(concat!("MonadPlus units ", stringify!($m)), |w| {
            w.case(|| "mzero".into(), |w| w.eq("mzero holds no value", &I::un(&zero).vals, &Vec::<u32>::new()));
            for m in &xs {
                w.case(|| format!("{m:?}"), |w| {
                    let x: X = I::mk(m);
                    let both: [(&str, X, X); 2] = [("left", zero.mplus(&x), zero.clone().mplus_owned(x.clone())), ("right", x.mplus(&zero), x.clone().mplus_owned(zero.clone()))];
                    for (n, b, o) in both {
                        w.eq("owned agrees", &I::un(&o), &I::un(&b))?;
                        // a failing operand's error may be replaced where mzero carries a default error
                        if !m.vals.is_empty() || I::K == Kind::Opt || I::K == Kind::List || $both == Both::All {
                            w.eq(&format!("{n} identity"), &I::un(&b), m)?;
                        } else {
                            w.eq(&format!("{n} identity"), &I::un(&b).vals, &Vec::<u32>::new())?;
                        }
                    }
                    let f = func(&[1, 2, 0]);
                    w.eq("left zero", &I::un(&zero.bind(|v: &u32| -> X { X::pure_one(f(v)) })), &I::un(&zero))?;
                    let r = I::un(&x.bind(|_: &u32| -> X { X::mzero::<u32>() }));
                    w.eq("right zero", &r, &if m.vals.is_empty() { m.clone() } else { I::un(&zero) })
                });
            }
        });
        // continuations: succeed with 1 value, fail, or (lists) give several
        let mut outs: Vec<M<u32>> = vec![M::pure(0), M::pure(1)];
        match I::K {
            Kind::List => outs.extend([M::vals(vec![]), M::vals(vec![2, 1])]),
            Kind::Opt => outs.push(M::vals(vec![])),
            _ => outs.push(M::errs(vec![9])),
        }
        let ks = tables(3, &outs);
        let bound: Vec<M<u32>> = xs.iter().filter(|m| m.vals.len() < 4).cloned().collect();
        c.par(concat!("MonadPlus laws ", stringify!($m)), &xs, |w, a| {
            let x: X = I::mk(a);
            for b in &xs {
                w.case(|| format!("{a:?} {b:?}"), |w| {
                    let y: X = I::mk(b);
                    let ab = x.mplus(&y);
                    w.eq("mplus", &I::un(&ab), &pick(a, b))?;
                    w.eq("mplus_owned", &I::un(&x.clone().mplus_owned(y.clone())), &pick(a, b))?;
                    w.same("operand unchanged", &I::un(&x), a)?;
                    for d in &xs {
                        let z: X = I::mk(d);
                        let want = pick(&pick(a, b), d);
                        w.same("(ab)c", &I::un(&ab.mplus(&z)), &want)?;
                        w.same("a(bc)", &I::un(&x.mplus(&y.mplus(&z))), &want)?;
                        w.same("owned", &I::un(&x.clone().mplus_owned(y.clone().mplus_owned(z))), &want)?;
                    }
                    Ok(())
                });
            }
        });
        c.par(concat!("bind over mplus ", stringify!($m)), &bound, |w, a| {
            let x: X = I::mk(a);
            for b in &bound {
                let y: X = I::mk(b);
                w.case(|| format!("{a:?} {b:?}"), |w| {
                    let ab = x.mplus(&y);
                    for k in &ks {
                        let f = |v: &u32| -> X { I::mk(&k[*v as usize % 3]) };
                        let l = I::un(&ab.bind(f));
                        let r = I::un(&x.bind(f).mplus(&y.bind(f)));
                        // leftmost-success choice commits before the continuation runs
                        if $cat || a.vals.iter().all(|v| !k[*v as usize % 3].vals.is_empty()) {
                            if $cat || I::K == Kind::Opt || !l.vals.is_empty() {
                                w.same("left distribution", &l, &r)?;
                            } else {
                                w.same("left distribution", &l.vals, &r.vals)?;
                            }
                        } else {
                            w.same("committed choice", &l, &bind(&pick(a, b), |v| k[*v as usize % 3].clone()))?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }};
}

trait PureOne {
    fn pure_one(v: u32) -> Self;
}
macro_rules! pure_one {
    ($($m:ident)*) => {$(impl PureOne for mc::fam::$m::F<u32> {
        fn pure_one(v: u32) -> Self { mc::fam::$m::mk(&M::pure(v)) }
    })*};
}
pure_one!(m_option m_result m_either m_maybe m_validated m_choice);

/// Error handlers: every function from errors to outcomes.
fn errors(c: &Ctx) {
    type R = Result<u32, u8>;
    let outs: Vec<R> = vec![Ok(5), Ok(6), Err(0), Err(1), Err(2)];
    let ms: Vec<R> = vec![Ok(0), Ok(1), Err(0), Err(1), Err(2)];
    let hs = tables(3, &outs);
    c.par("MonadError for Result", &hs, |w, h| {
        for m in &ms {
            w.case(|| format!("{m:?} handler={h:?}"), |w| {
                let calls = Cell::new(0u32);
                let f = |e: &u8| { calls.set(calls.get() + 1); h[*e as usize] };
                let want = m.or_else(|e| h[e as usize]);
                w.eq("catch", &MonadError::catch(m, f), &want)?;
                w.eq("catch_owned", &MonadError::catch_owned(*m, |e: u8| f(&e)), &want)?;
                w.eq("handler runs once per failure", &calls.get(), &(2 * m.is_err() as u32))?;
                w.eq("recover", &ErrorOps::recover(*m, |e| h[e as usize]), &want)?;
                if let Err(e) = m {
                    let t: R = <R as MonadError<u8>>::throw::<u32>(*e);
                    w.eq("throw", &t, &Err(*e))?;
                    w.eq("left catch", &MonadError::catch(&t, |e: &u8| h[*e as usize]), &h[*e as usize])?;
                    let ran = Cell::new(false);
                    let b: R = t.bind(|v| { ran.set(true); Ok(*v) });
                    w.eq("throw stops chaining", &(b, ran.get()), &(Err(*e), false))?;
                    let b: R = t.bind_owned(|v| { ran.set(true); Ok(v) });
                    w.eq("throw stops owned chaining", &(b, ran.get()), &(Err(*e), false))?;
                    let b: R = t.fmap(|v| { ran.set(true); *v });
                    w.eq("throw stops mapping", &(b, ran.get()), &(Err(*e), false))?;
                }
                w.eq("right catch", &MonadError::catch(m, |e: &u8| <R as MonadError<u8>>::throw::<u32>(*e)), m)?;
                w.eq("map_error_to", &m.map_error_to(|e: &u8| *e as u32 + 100), &m.map_err(|e| e as u32 + 100))?;
                w.eq("map_error_to_owned", &m.map_error_to_owned(|e: u8| e as u32 + 100), &m.map_err(|e| e as u32 + 100))
            });
            w.case(|| format!("nested catches {m:?} {h:?}"), |w| {
                for g in &hs {
                    let l = MonadError::catch(&MonadError::catch(m, |e: &u8| h[*e as usize]), |e: &u8| g[*e as usize]);
                    let r = MonadError::catch(m, |e: &u8| MonadError::catch(&h[*e as usize], |e: &u8| g[*e as usize]));
                    w.same("catch associativity", &l, &r)?;
                    let lo = MonadError::catch_owned(MonadError::catch_owned(*m, |e: u8| h[e as usize]), |e: u8| g[e as usize]);
                    w.same("owned catch", &lo, &r)?;
                    w.same("catch is or_else", &l, &m.or_else(|e| h[e as usize]).or_else(|e| g[e as usize]))?;
                }
                Ok(())
            });
        }
    });
    c.seq("MonadError for Option", |w| {
        let os: Vec<Option<u32>> = vec![None, Some(0), Some(1)];
        for m in &os {
            for h in &os {
                w.case(|| format!("{m:?} handler={h:?}"), |w| {
                    let want = m.or(*h);
                    let calls = Cell::new(0u32);
                    w.eq("catch", &MonadError::catch(m, |_: &()| { calls.set(calls.get() + 1); *h }), &want)?;
                    w.eq("catch_owned", &MonadError::catch_owned(*m, |_: ()| { calls.set(calls.get() + 1); *h }), &want)?;
                    w.eq("handler runs once per failure", &calls.get(), &(2 * m.is_none() as u32))?;
                    let t: Option<u32> = <Option<u32> as MonadError<()>>::throw::<u32>(());
                    w.eq("throw", &t, &None)?;
                    w.eq("left catch", &MonadError::catch(&t, |_: &()| *h), h)?;
                    w.eq("right catch", &MonadError::catch(m, |_: &()| <Option<u32> as MonadError<()>>::throw::<u32>(())), m)?;
                    w.eq("map_error_to", &m.map_error_to(|_: &()| 9u8), &m.ok_or(9))?;
                    w.eq("map_error_to_owned", &m.map_error_to_owned(|_: ()| 9u8), &m.ok_or(9))?;
                    for g in &os {
                        let l = MonadError::catch(&MonadError::catch(m, |_: &()| *h), |_: &()| *g);
                        w.eq("catch associativity", &l, &m.or(*h).or(*g))?;
                    }
                    Ok(())
                });
            }
        }
    });
    // the same for the library's own error-carrying types
    use rustica::datatypes::either::Either;
    use rustica::datatypes::validated::Validated;
    c.par("recovery for Either and Validated", &hs, |w, h| {
        for m in &ms {
            w.case(|| format!("{m:?} handler={h:?}"), |w| {
                let ei = |r: &R| match r { Ok(v) => Either::Right(*v), Err(e) => Either::Left(*e) };
                let va = |r: &R| -> Validated<u8, u32> { match r { Ok(v) => Validated::Valid(*v), Err(e) => Validated::Invalid([*e].into_iter().collect()) } };
                let want = m.or_else(|e| h[e as usize]);
                w.eq("Either::recover", &ErrorOps::recover(ei(m), |e: u8| ei(&h[e as usize])), &ei(&want))?;
                w.eq("Either::bimap_result", &ErrorOps::bimap_result(ei(m), |v| v + 1, |e: u8| e as u32 + 7), &m.map(|v| v + 1).map_err(|e| e as u32 + 7))?;
                w.eq("Result::bimap_result", &ErrorOps::bimap_result(*m, |v| v + 1, |e: u8| e as u32 + 7), &m.map(|v| v + 1).map_err(|e| e as u32 + 7))?;
                w.eq("Validated::recover_all", &va(m).recover_all(|e| va(&h[e as usize])), &va(&want))
            });
        }
    });
}

fn main() {
    mc::run("C14", |c| {
        c.assume("choice identities are compared exactly wherever a unit without a made-up default error exists, and otherwise up to which error a total failure reports; leftmost-success types commit before the continuation runs, so bind distributes over choice when the continuation does not fail on the chosen value");
        alternative!(c, m_option, cat = false, exact = true, ap_exact = true);
        alternative!(c, m_maybe, cat = false, exact = true, ap_exact = true);
        alternative!(c, m_either, cat = false, exact = false, ap_exact = true);
        alternative!(c, m_validated, cat = false, exact = false, ap_exact = false);
        alternative!(c, m_vec, cat = false, exact = true, ap_exact = true);
        alternative!(c, m_choice, cat = true, exact = true, ap_exact = true);
        monad_plus!(c, m_option, cat = false, Both::Last);
        monad_plus!(c, m_maybe, cat = false, Both::Last);
        monad_plus!(c, m_result, cat = false, Both::Last);
        monad_plus!(c, m_either, cat = false, Both::First);
        monad_plus!(c, m_validated, cat = false, Both::All);
        monad_plus!(c, m_choice, cat = true, Both::Last);
        errors(c);
    })
}
