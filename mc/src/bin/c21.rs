//! C21: conversions between result-like types lose and invent nothing.
//!
//! The conversion functions form a graph over carriers (Result, Either, Validated, Maybe, Option, ...).
//! Every path of conversions up to a depth is walked from every start value and every node is compared with
//! an abstract value: a success payload, a list of errors, or nothing. Mapping methods get every function
//! of the domain. Values that count clones and drops check that ownership is moved exactly once.
#![allow(deprecated)]
use mc::dom::{funs, seqs};
use mc::{Res, W, panics};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::{Maybe, MaybeError, MaybeExt};
use rustica::datatypes::validated::Validated;
use rustica::error::{self as er, *};
use rustica::pvec::PersistentVector;
use rustica::traits::iso::{Iso, IsoExt, ResultEitherIso, ResultValidatedIso};
use rustica::utils::error_utils as eu;
use smallvec::SmallVec;
use std::cell::Cell;
use std::fmt::Debug;

type U = u8;
/// A concrete value in one of the carriers.
#[derive(Clone, Debug, PartialEq)]
enum C {
    Res(Result<U, U>),
    Ei(Either<U, U>),
    Val(Validated<U, U>),
    Opt(Option<U>),
    May(Maybe<U>),
    Comp(ComposableResult<U, U>),
    Boxed(BoxedComposableResult<U, U>),
    Many(Vec<Result<U, U>>),
    Pay(Result<U, SmallVec<[U; 8]>>),
    Swap(Result<SmallVec<[U; 8]>, U>),
}
use C::*;
/// What the value means: a success, or the errors, or a bare absence.
#[derive(Clone, Debug, PartialEq)]
enum A {
    Ok(U),
    Errs(Vec<U>),
    Gone,
}
fn abs(c: &C) -> A {
    let one = |r: &Result<U, U>| match r {
        Ok(x) => A::Ok(*x),
        Err(e) => A::Errs(vec![*e]),
    };
    match c {
        Res(r) => one(r),
        Ei(Either::Left(e)) => A::Errs(vec![*e]),
        Ei(Either::Right(x)) => A::Ok(*x),
        Val(Validated::Valid(x)) => A::Ok(*x),
        Val(Validated::Invalid(e)) => A::Errs(e.to_vec()),
        Opt(o) => o.map_or(A::Gone, A::Ok),
        May(Maybe::Just(x)) => A::Ok(*x),
        May(Maybe::Nothing) => A::Gone,
        Comp(Ok(x)) | Boxed(Ok(x)) => A::Ok(*x),
        Comp(Err(e)) => if e.context().is_empty() && e.error_code().is_none() { A::Errs(vec![*e.core_error()]) } else { A::Errs(vec![99]) },
        Boxed(Err(e)) => if e.context().is_empty() && e.error_code().is_none() { A::Errs(vec![*e.core_error()]) } else { A::Errs(vec![99]) },
        Many(v) => match v.as_slice() {
            [Ok(x)] => A::Ok(*x),
            v if v.iter().all(|r| r.is_err()) => A::Errs(v.iter().map(|r| r.unwrap_err()).collect()),
            _ => A::Errs(vec![98]),
        },
        Pay(Ok(x)) | Swap(Err(x)) => A::Ok(*x),
        Pay(Err(e)) | Swap(Ok(e)) => A::Errs(e.to_vec()),
    }
}
/// What a conversion keeps.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Keep {
    All,
    First,
    NoError,
    /// An absence becomes this error.
    Else(U),
}
fn keep(a: A, k: Keep) -> A {
    match (a, k) {
        (A::Errs(e), Keep::First) => A::Errs(e[..1].to_vec()),
        (A::Errs(_), Keep::NoError) => A::Gone,
        (A::Gone, Keep::Else(d)) => A::Errs(vec![d]),
        (a, _) => a,
    }
}
type Conv = (&'static str, Keep, fn(C) -> Option<C>);
macro_rules! conv { ($n:expr, $k:expr, $from:ident, |$x:ident| $to:expr) => { { let f: fn(C) -> Option<C> = |c: C| match c { $from($x) => Some($to), _ => None }; ($n, $k, f) } } }
fn convs() -> Vec<Conv> {
    use Keep::*;
    vec![
        conv!("result_to_either", All, Res, |r| Ei(result_to_either(r))),
        conv!("Either::from_result", All, Res, |r| Ei(Either::from_result(r))),
        conv!("ResultExt::to_either", All, Res, |r| Ei(r.to_either())),
        conv!("error_utils::result_to_either", All, Res, |r| Ei(eu::result_to_either(r))),
        conv!("ResultEitherIso.forward", All, Res, |r| Ei(ResultEitherIso.forward(&r))),
        conv!("ResultEitherIso.convert_forward", All, Res, |r| Ei(ResultEitherIso.convert_forward(&r))),
        conv!("inverse().forward", All, Res, |r| Ei(ResultEitherInv.inverse().forward(&r))),
        conv!("result_to_validated", All, Res, |r| Val(result_to_validated(r))),
        conv!("ResultExt::to_validated", All, Res, |r| Val(r.to_validated())),
        conv!("Validated::from_result", All, Res, |r| Val(Validated::from_result(&r))),
        conv!("Validated::from_result_owned", All, Res, |r| Val(Validated::from_result_owned(r))),
        conv!("ResultValidatedIso.forward", All, Res, |r| Val(ResultValidatedIso.forward(&r))),
        conv!("wrap_in_composable_result", All, Res, |r| Comp(wrap_in_composable_result(r))),
        conv!("wrap_in_composable_result_boxed", All, Res, |r| Boxed(wrap_in_composable_result_boxed(r))),
        conv!("map_err(core_to_composable)", All, Res, |r| Comp(r.map_err(core_to_composable))),
        conv!("map_err(From)", All, Res, |r| Comp(r.map_err(ComposableError::from))),
        conv!("map_err(new)", All, Res, |r| Comp(r.map_err(ComposableError::new))),
        conv!("Result WithError::to_result", All, Res, |r| Res(WithError::to_result(r))),
        conv!("Maybe From<Result>", NoError, Res, |r| May(Maybe::from(r))),
        conv!("Result fold lift/handle", All, Res, |r| Res(match r {
            Ok(x) => <Result<(), U> as ErrorCategory<U>>::lift(x),
            Err(e) => <Result<(), U> as ErrorCategory<U>>::handle_error(e),
        })),
        conv!("Either fold lift/handle", All, Res, |r| Ei(match r {
            Ok(x) => <Either<U, ()> as ErrorCategory<U>>::lift(x),
            Err(e) => <Either<U, ()> as ErrorCategory<U>>::handle_error(e),
        })),
        conv!("Validated fold lift/handle", All, Res, |r| Val(match r {
            Ok(x) => <Validated<U, ()> as ErrorCategory<U>>::lift(x),
            Err(e) => <Validated<U, ()> as ErrorCategory<U>>::handle_error(e),
        })),
        conv!("bimap_result id", All, Res, |r| Res(r.bimap_result(|x| x, |e| e))),
        conv!("ResultExt::bimap id", All, Res, |r| Res(ResultExt::bimap(r, |x| x, |e| e))),
        conv!("recover into itself", All, Res, |r| Res(ErrorOps::recover(r, Err))),
        conv!("Result fmap_error id", All, Res, |r| Res(r.fmap_error(|e| e))),
        conv!("either_to_result", All, Ei, |e| Res(either_to_result(e))),
        conv!("Either::to_result", All, Ei, |e| Res(Either::to_result(e))),
        conv!("error_utils::either_to_result", All, Ei, |e| Res(eu::either_to_result(e))),
        conv!("Either WithError::to_result", All, Ei, |e| Res(WithError::to_result(e))),
        conv!("ResultEitherIso.backward", All, Ei, |e| Res(ResultEitherIso.backward(&e))),
        conv!("ResultEitherIso.convert_backward", All, Ei, |e| Res(ResultEitherIso.convert_backward(&e))),
        conv!("Either bimap_result id", All, Ei, |e| Res(e.bimap_result(|x| x, |e| e))),
        conv!("Either recover into itself", All, Ei, |e| Ei(ErrorOps::recover(e, Either::Left))),
        conv!("Either fmap_error id", All, Ei, |e| Ei(e.fmap_error(|e| e))),
        conv!("either_to_validated", All, Ei, |e| Val(either_to_validated(e))),
        conv!("Either::right_option", NoError, Ei, |e| Opt(e.right_option())),
        conv!("validated_to_either", First, Val, |v| Ei(validated_to_either(v))),
        conv!("validated_to_result", First, Val, |v| Res(validated_to_result(v))),
        conv!("Validated::to_result", First, Val, |v| Res(Validated::to_result(&v))),
        conv!("Validated::to_result_owned", First, Val, |v| Res(v.to_result_owned())),
        conv!("Validated WithError::to_result", First, Val, |v| Res(WithError::to_result(v))),
        conv!("ResultValidatedIso.backward", First, Val, |v| Res(ResultValidatedIso.backward(&v))),
        conv!("Validated::into_value", All, Val, |v| Pay(v.into_value())),
        conv!("Validated::into_error_payload", All, Val, |v| Swap(v.into_error_payload())),
        conv!("Validated::to_option", NoError, Val, |v| Opt(v.to_option())),
        conv!("Validated fmap_error id", All, Val, |v| Val(v.fmap_error(|e| e))),
        conv!("split_validated_errors", All, Val, |v| Many(split_validated_errors(v))),
        conv!("Option into Maybe", All, Opt, |o| May(Maybe::from(o))),
        conv!("Maybe::from_option", All, Opt, |o| May(Maybe::from_option(o))),
        conv!("Validated::from_option", Else(7), Opt, |o| Val(Validated::from_option(&o, &7))),
        conv!("Validated::from_option_owned", Else(7), Opt, |o| Val(Validated::from_option_owned(o, 7))),
        conv!("Validated::from_option_with", Else(7), Opt, |o| Val(Validated::from_option_with(&o, &|| 7))),
        conv!("Validated::from_option_with_owned", Else(7), Opt, |o| Val(Validated::from_option_with_owned(o, || 7))),
        conv!("Maybe into Option", All, May, |m| Opt(Option::from(m))),
        conv!("Maybe::to_option", All, May, |m| Opt(m.to_option())),
        conv!("Maybe::to_result", Else(7), May, |m| Res(Maybe::to_result(m, 7))),
        conv!("MaybeExt::to_result", Else(7), May, |m| Res(MaybeExt::to_result(m, 7))),
        conv!("Maybe WithError::to_result", Else(7), May, |m| Res(WithError::to_result(m).map_err(|e| if e == MaybeError::ValueNotPresent { 7 } else { 97 }))),
        conv!("Maybe::to_standard_result", Else(7), May, |m| Res(m.to_standard_result().map_err(|e| if e == MaybeError::ValueNotPresent { 7 } else { 97 }))),
        conv!("Maybe::try_unwrap", Else(7), May, |m| Res(m.try_unwrap().map_err(|_| 7))),
        conv!("flatten_composable_result", All, Comp, |r| Res(flatten_composable_result(r))),
        conv!("map_err(composable_to_core)", All, Comp, |r| Res(r.map_err(composable_to_core))),
        conv!("box", All, Comp, |r| Boxed(r.map_err(Box::new))),
        conv!("unbox", All, Boxed, |r| Comp(r.map_err(|e| *e))),
        conv!("collect the split", All, Many, |v| Val(match v.as_slice() {
            [Ok(x)] => Validated::valid(*x),
            _ => match collect_errors(v.into_iter().map(|r| r.unwrap_err())) {
                Validated::Valid(()) => Validated::valid(96),
                Validated::Invalid(e) => Validated::Invalid(e),
            },
        })),
        conv!("rebuild with invalid_many", All, Pay, |p| Val(p.map_or_else(Validated::invalid_many, Validated::valid))),
        conv!("rebuild with invalid_vec", All, Pay, |p| Val(p.map_or_else(Validated::invalid_vec, Validated::valid))),
        conv!("rebuild swapped", All, Swap, |p| Val(p.map_or_else(Validated::valid, Validated::invalid_many))),
    ]
}
/// The Either-first direction of the Result/Either isomorphism, to exercise `inverse`.
#[derive(Clone)]
struct ResultEitherInv;
impl Iso<Either<U, U>, Result<U, U>> for ResultEitherInv {
    type From = Either<U, U>;
    type To = Result<U, U>;
    fn forward(&self, e: &Either<U, U>) -> Result<U, U> {
        ResultEitherIso.backward(e)
    }
    fn backward(&self, r: &Result<U, U>) -> Either<U, U> {
        ResultEitherIso.forward(r)
    }
}

fn walk(w: &mut W, c: &C, a: &A, cs: &[Conv], depth: usize, tr: &mut Vec<&'static str>) {
    for (name, k, f) in cs {
        // A mixed list is not a start of "collect"; errors with an empty list are documented preconditions.
        let c1 = c.clone();
        let got = match mc::catch(|| f(c1)) {
            Ok(None) => continue,
            Ok(Some(g)) => Ok(g),
            Err(p) => Err(p),
        };
        tr.push(name);
        let want = keep(a.clone(), *k);
        let got2 = got.clone();
        w.case(|| format!("{:?} {tr:?}", c), |w| {
            w.op(1);
            let g = got2?;
            w.eq("value", &abs(&g), &want)
        });
        if let Ok(g) = got {
            w.state(mc::hash_debug(&g));
            if depth > 1 && !w.stopped() {
                walk(w, &g, &want, cs, depth - 1, tr);
            }
        }
        tr.pop();
    }
}
fn starts(maxerr: usize) -> Vec<C> {
    let d: [U; 3] = [0, 1, 2];
    let mut v: Vec<C> = vec![Opt(None), May(Maybe::Nothing)];
    for x in d {
        v.extend([
            Res(Ok(x)), Res(Err(x)), Ei(Either::Left(x)), Ei(Either::Right(x)), Val(Validated::Valid(x)), Opt(Some(x)), May(Maybe::Just(x)),
            Comp(Ok(x)), Comp(Err(ComposableError::new(x))), Boxed(Ok(x)), Boxed(Err(Box::new(ComposableError::new(x)))), Many(vec![Ok(x)]), Pay(Ok(x)), Swap(Err(x)),
        ]);
    }
    let mut lists: Vec<Vec<U>> = seqs(&d, maxerr).into_iter().filter(|l| !l.is_empty()).collect();
    for n in (7..=10).chain([17, 33, 65, 129, 257, 1025]) {
        lists.push((0..n).map(|i| (i * 7 % 89) as u8).collect());
    }
    for l in lists {
        v.push(Val(Validated::invalid_many(l.clone())));
        v.push(Many(l.iter().map(|e| Err(*e)).collect()));
    }
    v
}

thread_local! { static CLONES: Cell<u32> = const { Cell::new(0) } }
/// A payload that counts its clones.
#[derive(Debug, PartialEq)]
struct Tok(U);
impl Clone for Tok {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        Tok(self.0)
    }
}
thread_local! { static N: Cell<u32> = const { Cell::new(0) } }
fn hit() {
    N.with(|n| n.set(n.get() + 1))
}
fn hits() -> u32 {
    N.with(|n| n.replace(0))
}
fn composable(w: &mut W, e: &ComposableError<U>, core: U, ctx: &[&str], code: Option<u32>) -> Res {
    w.eq("core", e.core_error(), &core)?;
    w.eq("context", &e.context(), &ctx.iter().rev().map(|s| s.to_string()).collect::<Vec<_>>())?;
    w.eq("code", &e.error_code(), &code)
}

fn main() {
    mc::run("C21", |c| {
        let cs = convs();
        let depth = c.pick(5, 5);
        let st = starts(c.pick(3, 4));
        c.note("conversion paths", &format!("{} conversions, {} start values, paths up to length {depth}", cs.len(), st.len()));
        c.par("conversion paths", &st, |w, s| {
            let a = abs(s);
            walk(w, s, &a, &cs, depth, &mut vec![]);
        });
        // Inverse pairs are literal round trips.
        let rs: Vec<Result<U, U>> = (0..3).flat_map(|x| [Ok(x), Err(x)]).collect();
        c.par("round trips", &rs, |w, r| {
            let r = *r;
            w.case(|| format!("{r:?}"), |w| {
                let e = result_to_either(r);
                w.eq("either", &either_to_result(e), &r)?;
                w.eq("either back", &result_to_either(either_to_result(e)), &e)?;
                w.eq("validated", &validated_to_result(result_to_validated(r)), &r)?;
                w.eq("either validated", &validated_to_either(either_to_validated(e)), &e)?;
                w.eq("composable", &flatten_composable_result(wrap_in_composable_result(r)), &r)?;
                for t in &rs {
                    w.ok("ResultEitherIso laws", ResultEitherIso.verify_laws(&r, &result_to_either(*t)))?;
                    w.ok("ResultValidatedIso laws", ResultValidatedIso.verify_laws(&r, &result_to_validated(*t)))?;
                }
                w.eq("unwrap_or_default", &ResultExt::unwrap_or_default(r), &r.unwrap_or(0))
            });
        });
        // Error mapping: all functions, all carriers, call counts.
        let fs = funs(3, &[0u8, 1, 2]);
        c.par("error mapping", &fs, |w, f| {
            let g = |e: U| {
                hit();
                f.at(e as usize)
            };
            for r in &rs {
                let r = *r;
                w.case(|| format!("{r:?} f={:?}", f.0), |w| {
                    let want = r.map_err(|e| f.at(e as usize));
                    let n = r.is_err() as u32;
                    hits();
                    w.eq("Result fmap_error", &r.fmap_error(g), &want)?;
                    w.eq("Either fmap_error", &result_to_either(r).fmap_error(g), &result_to_either(want))?;
                    w.eq("Validated fmap_error", &result_to_validated(r).fmap_error(g), &result_to_validated(want))?;
                    w.eq("calls", &hits(), &(3 * n))?;
                    // The error category's functor laws: identity and composition with itself.
                    w.eq("composition", &r.fmap_error(|e| g(g(e))), &r.fmap_error(g).fmap_error(g))?;
                    hits();
                    for h in &fs {
                        let k = |x: U| {
                            hit();
                            h.at(x as usize)
                        };
                        let wb = r.map(|x| h.at(x as usize)).map_err(|e| f.at(e as usize));
                        w.eq("Result bimap_result", &r.bimap_result(k, g), &wb)?;
                        w.eq("Either bimap_result", &result_to_either(r).bimap_result(k, g), &wb)?;
                        w.eq("ResultExt bimap", &ResultExt::bimap(r, k, g), &wb)?;
                        w.eq("calls", &hits(), &3)?;
                    }
                    for t in &rs {
                        let want = r.or(*t);
                        w.eq("Result recover", &ErrorOps::recover(r, |e| { g(e); *t }), &want)?;
                        w.eq("Either recover", &ErrorOps::recover(result_to_either(r), |e| { g(e); result_to_either(*t) }), &result_to_either(want))?;
                        w.eq("recover calls", &hits(), &(2 * n))?;
                    }
                    Ok(())
                });
            }
            for l in seqs(&[0u8, 1, 2], 4).into_iter().chain([(0..9u8).map(|x| x % 3).collect()]) {
                if l.is_empty() {
                    continue;
                }
                w.case(|| format!("{l:?} f={:?}", f.0), |w| {
                    hits();
                    let v: Validated<U, U> = Validated::invalid_many(l.clone());
                    let want: Vec<U> = l.iter().map(|e| f.at(*e as usize)).collect();
                    w.eq("every error mapped in order", &v.fmap_error(g).errors(), &want)?;
                    w.eq("calls", &hits(), &(l.len() as u32))
                });
            }
        });
        c.seq("maybe error mapping", |w| {
            w.case(|| "Maybe::fmap_error Nothing".into(), |w| w.eq("Nothing", &Maybe::<U>::Nothing.fmap_error(|_| 5u8), &Maybe::Nothing));
            // The only success payload a `Maybe<G>` could carry is the one it had; see known_findings.txt.
            w.case(|| "Maybe::fmap_error Just".into(), |w| {
                hits();
                for x in 0..3u8 {
                    let got = Maybe::Just(x).fmap_error(|_| {
                        hit();
                        9u8
                    });
                    w.eq("a success keeps its payload", &got, &Maybe::Just(x))?;
                    w.eq("the error function is not called on a success", &hits(), &0)?;
                }
                Ok(())
            });
        });
        // Error lists.
        c.par("error lists", &seqs(&[0u8, 1, 2], c.pick(6, 9)), |w, l| {
            w.case(|| format!("{l:?}"), |w| {
                let v = collect_errors(l.iter().copied());
                match &v {
                    Validated::Valid(()) => w.ok("valid only if no errors", l.is_empty())?,
                    Validated::Invalid(e) => w.eq("all errors in order", &e.to_vec(), l)?,
                }
                if !l.is_empty() {
                    let inv: Validated<U, U> = Validated::invalid_many(l.clone());
                    w.eq("split", &split_validated_errors(inv), &l.iter().map(|e| Err(*e)).collect::<Vec<_>>())?;
                }
                // Collections.
                let ch = Choice::from(l.clone());
                w.eq("Choice<->Vec", &Vec::from(ch.clone()), l)?;
                w.eq("Choice from slice", &Vec::from(Choice::from(l.as_slice())), l)?;
                w.eq("Choice from iter", &Vec::from(l.iter().copied().collect::<Choice<U>>()), l)?;
                w.eq("Choice into_iter", &ch.into_iter().collect::<Vec<_>>(), l)?;
                let pv = PersistentVector::from(l.clone());
                w.eq("PersistentVector<->Vec", &Vec::from(pv.clone()), l)?;
                w.eq("PersistentVector from iter", &l.iter().copied().collect::<PersistentVector<U>>(), &pv)?;
                w.eq("Maybe collects the first", &l.iter().copied().collect::<Maybe<U>>().to_option(), &l.first().copied())
            });
        });
        // Composable errors: what flattening drops and what wrapping adds.
        let ctxs: Vec<Vec<&'static str>> = seqs(&["a", "b"], 4);
        c.par("composable errors", &ctxs, |w, ctx| {
            for core in 0..3u8 {
                for code in [None, Some(7u32)] {
                    w.case(|| format!("{core} {ctx:?} {code:?}"), |w| {
                        let mk = || {
                            let mut e = ComposableError::new(core);
                            for x in ctx {
                                e = e.with_context(*x);
                            }
                            code.map_or(e.clone(), |k| e.set_code(k))
                        };
                        composable(w, &mk(), core, ctx, code)?;
                        w.eq("composable_to_core", &composable_to_core(mk()), &core)?;
                        w.eq("flatten", &flatten_composable_result::<U, U>(Err(mk())), &Err(core))?;
                        w.eq("flatten Ok", &flatten_composable_result::<U, U>(Ok(core)), &Ok(core))?;
                        composable(w, &core_to_composable(core), core, &[], None)?;
                        for f in &fs {
                            composable(w, &mk().map_core(|e| f.at(e as usize)), f.at(core as usize), ctx, code)?;
                        }
                        Ok(())
                    });
                }
            }
        });
        // The old application error.
        c.par("app errors", &fs, |w, f| {
            for m in 0..3u8 {
                for x in [None, Some(0u8), Some(1), Some(2)] {
                    w.case(|| format!("{m} {x:?} f={:?}", f.0), |w| {
                        let e: AppError<U, U> = x.map_or_else(|| AppError::new(m), |x| AppError::with_context(m, x));
                        w.eq("message", e.message(), &m)?;
                        w.eq("context", &e.context(), &x.as_ref())?;
                        let mm = e.clone().map(|v| f.at(v as usize));
                        w.eq("map message", mm.message(), &f.at(m as usize))?;
                        w.eq("map keeps context", &mm.context(), &x.as_ref())?;
                        let mc = e.clone().map_context(|o| o.map(|v| f.at(v as usize)));
                        w.eq("map_context keeps message", mc.message(), &m)?;
                        w.eq("map_context", &mc.context().copied(), &x.map(|v| f.at(v as usize)))?;
                        let mp = e.clone().map_context(|o| Some(o.map_or(m, |v| f.at(v as usize))));
                        w.eq("map_context is also asked when there is none", &mp.context().copied(), &Some(x.map_or(m, |v| f.at(v as usize))))?;
                        w.eq("map_context away", &e.clone().map_context(|_| None::<U>).context(), &None)?;
                        let s = x.map_or(format!("{m:?}"), |x| format!("{m:?} (Context: {x:?})"));
                        w.eq("display", &e.to_string(), &s)?;
                        if let Some(x) = x {
                            w.eq("error_with_context", &er::error_with_context(m, x), &e)?;
                        }
                        w.eq("error", er::error(m).message(), &m)
                    });
                }
            }
        });
        // Conversions that take ownership move the payload: no clone, nothing dropped or duplicated.
        c.seq("ownership", |w| {
            for ok in [true, false] {
                w.case(|| format!("ok={ok}"), |w| {
                    let mk = || -> Result<Tok, Tok> { if ok { Ok(Tok(1)) } else { Err(Tok(2)) } };
                    CLONES.with(|c| c.set(0));
                    let e = result_to_either(mk());
                    w.eq("either_to_result", &either_to_result(e), &mk())?;
                    w.eq("validated", &validated_to_result(result_to_validated(mk())), &mk())?;
                    w.eq("validated either", &validated_to_either(either_to_validated(result_to_either(mk()))), &result_to_either(mk()))?;
                    w.eq("composable", &flatten_composable_result(wrap_in_composable_result(mk())), &mk())?;
                    w.eq("from_result_owned", &Validated::from_result_owned(mk()).to_result_owned(), &mk())?;
                    w.eq("option", &Maybe::from(mk().ok()).to_option(), &mk().ok())?;
                    w.eq("clones", &CLONES.with(|c| c.get()), &0)
                });
            }
            w.case(|| "Maybe::unwrap after conversion panics only on Nothing".into(), |w| {
                w.ok("Nothing", panics(|| Maybe::from(None::<U>).unwrap()))?;
                w.ok("Just", !panics(|| Maybe::from(Some(1u8)).unwrap()))
            });
        });
    })
}
