//! C27: sequencing and traversal helpers keep order and stop at the first failure.
//!
//! Every collection of success/failure values up to a length, every table of effects of the domain, with
//! the calls recorded; compared with an explicit left-to-right model.
use mc::dom::{HINTS, hint};
use mc::dom::{Fun, funs, seqs};
use mc::{Res, W};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::io::{IO, IOError};
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{last::Last, sum::Sum};
use rustica::utils::{categorical_utils as cu, error_utils as eu, hkt_utils as hu};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type U = u8;
thread_local! { static LOG: RefCell<Vec<(u8, u8)>> = const { RefCell::new(Vec::new()) } }
fn log(tag: u8, x: u8) {
    LOG.with(|l| l.borrow_mut().push((tag, x)));
}
fn take() -> Vec<(u8, u8)> {
    LOG.with(|l| l.take())
}
fn tagged(t: u8, l: &[U]) -> Vec<(u8, u8)> {
    l.iter().map(|x| (t, *x)).collect()
}
fn ress() -> Vec<Result<U, U>> {
    vec![Ok(0), Ok(1), Ok(2), Err(0), Err(1)]
}
/// The first failure and the inputs up to and including it.
fn first_err<T: Clone, B, E>(l: &[T], f: impl Fn(&T) -> Result<B, E>) -> (Result<Vec<B>, E>, usize) {
    let mut out = vec![];
    for (i, x) in l.iter().enumerate() {
        match f(x) {
            Ok(v) => out.push(v),
            Err(e) => return (Err(e), i + 1),
        }
    }
    (Ok(out), l.len())
}
fn val(r: Result<Vec<U>, Vec<U>>) -> Validated<U, Vec<U>> {
    r.map_or_else(Validated::invalid_many, Validated::valid)
}
fn all_errs<T>(l: &[T], f: impl Fn(&T) -> Result<U, U>) -> Result<Vec<U>, Vec<U>> {
    let rs: Vec<_> = l.iter().map(f).collect();
    if rs.iter().any(|r| r.is_err()) { Err(rs.into_iter().filter_map(|r| r.err()).collect()) } else { Ok(rs.into_iter().map(|r| r.unwrap()).collect()) }
}
fn an<T: Clone, E: Clone>(m: &Result<T, E>) -> Either<E, T> {
    match m.clone() {
        Ok(x) => Either::Right(x),
        Err(e) => Either::Left(e),
    }
}
/// An iterator that records how far it was driven.
struct Tracked<I> {
    it: I,
}
impl<I: Iterator<Item = U>> Iterator for Tracked<I> {
    type Item = U;
    fn next(&mut self) -> Option<U> {
        let r = self.it.next();
        if let Some(x) = r {
            log(9, x);
        }
        r
    }
}

/// Positions to fail at in a list of `n`: a few everywhere, and none.
fn far(n: usize) -> Vec<usize> {
    (0..=n).filter(|i| n <= 66 || i % 257 == 0 || i % 64 > 61 || i % 64 < 2 && n <= 200 || i + 2 > n).filter(|i| n <= 200 || i % 3 == 0 || i % 256 > 253).collect()
}
fn io_model(items: &[(bool, U)]) -> (Vec<U>, Vec<U>) {
    (items.iter().filter(|i| i.0).map(|i| i.1).collect(), items.iter().filter(|i| !i.0).map(|i| i.1).collect())
}

fn lists(w: &mut W, l: &[Result<U, U>]) -> Res {
    let (want, _) = first_err(l, |r| *r);
    w.eq("error_utils::sequence", &eu::sequence(l.to_vec()), &want)?;
    w.eq("sequence_results", &cu::sequence_results(l.to_vec()), &want)?;
    w.eq("sequence_with_error Result", &eu::sequence_with_error::<Result<U, U>, U, U>(l.to_vec()), &want)?;
    w.eq("sequence_with_error into", &eu::sequence_with_error::<Result<U, U>, u32, U>(l.to_vec()), &want.clone().map(|v| v.into_iter().map(u32::from).collect()))?;
    w.eq("sequence_with_error Either", &eu::sequence_with_error::<Either<U, U>, U, U>(l.iter().map(an).collect()), &want)?;
    let vs: Vec<Validated<U, U>> = l.iter().map(|r| r.map_or_else(|e| Validated::invalid_many([e, 77]), Validated::valid)).collect();
    w.eq("sequence_with_error Validated", &eu::sequence_with_error::<Validated<U, U>, U, U>(vs), &want)?;
    let ms: Vec<Maybe<U>> = l.iter().map(|r| r.map_or(Maybe::Nothing, Maybe::Just)).collect();
    w.eq("sequence_with_error Maybe", &eu::sequence_with_error::<Maybe<U>, U, MaybeError>(ms), &want.clone().map_err(|_| MaybeError::ValueNotPresent))?;
    let os: Vec<Option<U>> = l.iter().map(|r| r.ok()).collect();
    w.eq("sequence_options", &cu::sequence_options(os.clone()), &want.clone().ok())?;
    let ch: Choice<Option<U>> = os.iter().copied().collect();
    w.eq("Choice::sequence", &ch.sequence().map(|c| c.to_vec()), &want.clone().ok())?;
    w.eq("traverse_validated id", &eu::traverse_validated(l.iter().copied(), |r| r), &val(all_errs(l, |r| *r)))?;
    for h in HINTS {
        w.same("traverse id of an iterator", &eu::traverse(hint(l.to_vec(), h), |r| r), &want)?;
        w.same("traverse_validated id of an iterator", &eu::traverse_validated(hint(l.to_vec(), h), |r| r), &val(all_errs(l, |r| *r)))?;
        w.same("filter_map_collect of an iterator", &cu::filter_map_collect(hint(l.to_vec(), h), |r| r.ok()), &l.iter().filter_map(|r| r.ok()).collect::<Vec<_>>())?;
        w.same("filter_map of an iterator", &hu::filter_map(hint(l.to_vec(), h), |r| r.is_ok(), |r| r), &l.iter().copied().filter(|r| r.is_ok()).collect::<Vec<_>>())?;
    }
    // Values that are moved, not copied, arrive untouched.
    let rc: Vec<Result<Rc<U>, Rc<U>>> = l.iter().map(|r| r.map(Rc::new).map_err(Rc::new)).collect();
    let keep = rc.clone();
    let got = eu::sequence(rc);
    match (&got, keep.iter().position(|r| r.is_err())) {
        (Ok(v), None) => w.ok("same allocations in order", v.len() == keep.len() && v.iter().zip(&keep).all(|(a, b)| Rc::ptr_eq(a, b.as_ref().unwrap())))?,
        (Err(e), Some(i)) => w.ok("the first error itself", Rc::ptr_eq(e, keep[i].as_ref().unwrap_err()))?,
        _ => return Err(format!("sequence gave {got:?} for {keep:?}")),
    }
    drop(got);
    w.ok("nothing leaked or dropped twice", keep.iter().all(|r| Rc::strong_count(match r { Ok(x) | Err(x) => x }) == 1))
}
fn tables(w: &mut W, l: &[U], f: &Fun<Result<U, U>>) -> Res {
    let m = |x: &U| f.at(*x as usize);
    let g = |x: U| {
        log(1, x);
        m(&x)
    };
    let (want, n) = first_err(l, m);
    take();
    w.eq("traverse", &eu::traverse(l.to_vec(), g), &want)?;
    w.eq("traverse calls", &take(), &tagged(1, &l[..n]))?;
    let mut k = 0;
    let counted = eu::traverse(Tracked { it: l.iter().copied() }, |x| {
        k += 1;
        g(x)
    });
    w.eq("traverse over an iterator", &counted, &want)?;
    w.eq("stateful calls", &k, &n)?;
    let seen = take();
    let inter: Vec<(u8, u8)> = l[..n].iter().flat_map(|x| [(9, *x), (1, *x)]).collect();
    w.eq("elements are consumed one by one and none after the failure", &seen, &inter)?;
    w.eq("traverse_validated", &eu::traverse_validated(l.to_vec(), g), &val(all_errs(l, m)))?;
    w.eq("traverse_validated calls", &take(), &tagged(1, l))?;
    // The traversal laws: identity, and sequencing after mapping.
    w.eq("traverse = sequence . map", &eu::sequence(l.iter().map(m).collect()), &want)?;
    let keepm: Vec<U> = l.iter().filter_map(|x| m(x).ok()).collect();
    w.eq("filter_map_collect", &cu::filter_map_collect(l.to_vec(), |x| g(x).ok()), &keepm)?;
    w.eq("filter_map_collect calls", &take(), &tagged(1, l))?;
    let kept: Vec<U> = l.iter().copied().filter(|x| m(x).is_ok()).collect();
    w.eq("filter_map", &hu::filter_map(l.to_vec(), |x| g(*x).is_ok(), |x| { log(2, x); (x + 1) % 3 }), &kept.iter().map(|x| (x + 1) % 3).collect::<Vec<_>>())?;
    let calls: Vec<(u8, u8)> = l.iter().flat_map(|x| if m(x).is_ok() { vec![(1, *x), (2, *x)] } else { vec![(1, *x)] }).collect();
    let seen = take();
    w.eq("filter_map predicate calls", &seen.iter().filter(|c| c.0 == 1).collect::<Vec<_>>(), &calls.iter().filter(|c| c.0 == 1).collect::<Vec<_>>())?;
    w.eq("filter_map function calls", &seen.iter().filter(|c| c.0 == 2).collect::<Vec<_>>(), &calls.iter().filter(|c| c.0 == 2).collect::<Vec<_>>())
}

fn main() {
    mc::run("C27", |c| {
        let n = c.pick(7, 9);
        let mut rl = seqs(&ress(), n);
        for n in (8usize..20).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]).chain(mc::dom::LONG) {
            for i in far(n) {
                rl.push((0..n).map(|j| if j == i { Err((j % 7) as U) } else { Ok((j % 251) as U) }).collect());
                rl.push((0..n).map(|j| if j >= i && (j - i) % 5 != 3 { Err((j % 251) as U) } else { Ok(3) }).collect());
            }
        }
        c.par("lists of results", &rl, |w, l| {
            w.case(|| if l.len() < 10 { format!("{l:?}") } else { format!("{} results, first error at {:?}", l.len(), l.iter().position(|r| r.is_err())) }, |w| {
                w.state(mc::hash_debug(l));
                lists(w, l)
            });
        });
        let fs = funs(3, &ress());
        let ul = seqs(&[0u8, 1, 2], c.pick(6, 8));
        c.par("traversals", &fs, |w, f| {
            for l in &ul {
                w.case(|| format!("{l:?} f={:?}", f.0), |w| tables(w, l, f));
            }
        });
        c.par("long traversals", &(0..20usize).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]).chain(mc::dom::LONG).collect::<Vec<_>>(), |w, n| {
            // A failure at every position (or none) of every length across the inline-buffer boundary.
            for i in (0..=*n).filter(|i| *n <= 200 || i % 251 == 0 || i % 256 == 255 || i % 256 == 0 || *i + 2 > *n) {
                w.case(|| format!("length {n} failing at {i}"), |w| {
                    let l: Vec<U> = (0..*n as U).collect();
                    let m = |x: &U| if *x as usize == i { Err(*x) } else { Ok(x + 1) };
                    let (want, calls) = first_err(&l, m);
                    take();
                    w.eq("traverse", &eu::traverse(l.clone(), |x| { log(1, x); m(&x) }), &want)?;
                    w.eq("calls", &take(), &tagged(1, &l[..calls]))?;
                    w.eq("traverse_validated", &eu::traverse_validated(l.clone(), |x| m(&x)), &val(all_errs(&l, m)))?;
                    for h in HINTS {
                        w.same("traverse of an iterator", &eu::traverse(hint(l.clone(), h), |x| m(&x)), &want)?;
                        w.same("traverse_validated of an iterator", &eu::traverse_validated(hint(l.clone(), h), |x| m(&x)), &val(all_errs(&l, m)))?;
                    }
                    let inv = |x: &U| if *x as usize == i { Ok(0) } else { Err(*x) };
                    w.eq("traverse_validated mostly failing", &eu::traverse_validated(l.clone(), |x| inv(&x)), &val(all_errs(&l, inv)))?;
                    w.eq("sequence_options", &cu::sequence_options(l.iter().map(|x| m(x).ok()).collect()), &want.ok())
                });
            }
        });
        // Pipelines: every list of effectful steps.
        let mut steps = seqs(&(0..6usize).collect::<Vec<_>>(), c.pick(5, 7));
        for n in (8usize..20).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]).chain(mc::dom::LONG) {
            for i in far(n) {
                for k in [vec![0], vec![1, 0, 5], vec![0, 1]] {
                    steps.push((0..n).map(|j| if j == i { [4, 2, 3][i % 3] } else { k[j % k.len()] }).collect());
                }
            }
        }
        c.par("pipelines", &steps, |w, ops| {
            let table = |i: usize, x: U| -> Result<U, U> {
                match i {
                    0 => Ok((x + 1) % 3),
                    1 => Ok(2 - x),
                    2 => if x == 0 { Err(4) } else { Ok(x - 1) },
                    3 => if x == 2 { Err(5) } else { Ok(x) },
                    4 => Err(x),
                    _ => Ok(x),
                }
            };
            for x in 0..3u8 {
                w.case(|| if ops.len() < 8 { format!("{x} {ops:?}") } else { format!("{x} {} steps, {:?}.. special at {:?}", ops.len(), &ops[..7], ops.iter().position(|i| (2..5).contains(i))) }, |w| {
                    let mut want = Ok(x);
                    let mut calls = vec![];
                    for i in ops {
                        if let Ok(v) = want {
                            calls.push((*i as u8, v));
                            want = table(*i, v);
                        }
                    }
                    let fr = || ops.iter().map(|i| { let i = *i; move |x: U| { log(i as u8, x); table(i, x) } }).collect::<Vec<_>>();
                    take();
                    w.eq("pipeline_result", &hu::pipeline_result::<U, U, U, _>(x, fr()), &want)?;
                    w.eq("calls", &take(), &calls)?;
                    w.eq("try_pipeline", &hu::try_pipeline::<U, U, U, _>(x, fr()), &want)?;
                    w.eq("calls", &take(), &calls)?;
                    let fo: Vec<_> = fr().into_iter().map(|f| move |x: U| f(x).ok()).collect();
                    w.eq("pipeline_option", &hu::pipeline_option::<U, U, _, _>(x, fo), &want.ok())?;
                    w.eq("calls", &take(), &calls)?;
                    // later operations are not even asked for once one has failed
                    let asked = std::cell::Cell::new(0);
                    let lazy = fr().into_iter().inspect(|_| asked.set(asked.get() + 1)).map(|f| move |x: U| f(x).ok());
                    w.eq("pipeline_option, lazily", &hu::pipeline_option::<U, U, _, _>(x, lazy), &want.ok())?;
                    w.eq("operations asked for", &asked.get(), &calls.len())?;
                    take();
                    let fan: Vec<Result<U, U>> = ops.iter().map(|i| table(*i, x)).collect();
                    w.eq("fan_out", &hu::fan_out(x, fr()), &fan)?;
                    w.eq("fan_out calls", &take(), &ops.iter().map(|i| (*i as u8, x)).collect::<Vec<_>>())?;
                    let opt = ops.first().map(|i| table(*i, x));
                    w.eq("flat_map_option", &cu::flat_map_option(opt.and_then(|r| r.ok()), |v| table(2, v).ok()), &opt.and_then(|r| r.ok()).and_then(|v| table(2, v).ok()))?;
                    if let Some(r) = opt {
                        w.eq("flat_map_result", &cu::flat_map_result(r, |v| table(3, v)), &r.and_then(|v| table(3, v)))?;
                        w.eq("map_result", &cu::map_result(r, |v| v + 1), &r.map(|v| v + 1))?;
                        w.eq("hkt map_result", &hu::map_result(r, |v| v + 1), &r.map(|v| v + 1))?;
                        w.eq("bimap_result", &cu::bimap_result(r, |v| v + 1, |e| e + 10), &r.map(|v| v + 1).map_err(|e| e + 10))?;
                        w.eq("map_option", &cu::map_option(r.ok(), |v| v + 1), &r.ok().map(|v| v + 1))?;
                        w.eq("lift_option", &hu::lift_option(|v: U| v + 1)(r.ok()), &r.ok().map(|v| v + 1))?;
                    }
                    Ok(())
                });
            }
        });
        let zs = seqs(&[0u8, 1, 2], c.pick(5, 6));
        let zlong: Vec<Vec<U>> = (7usize..20).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]).chain(mc::dom::LONG).map(|n| (0..n).map(|i| (i * i % 251) as U).collect()).collect();
        let zl: Vec<(Vec<U>, bool)> = zs.iter().map(|l| (l.clone(), false)).chain(zlong.iter().map(|l| (l.clone(), true))).collect();
        c.par("zips and folds", &zl, |w, (a, long)| {
            for b in if *long { &zlong } else { &zs } {
                w.case(|| if *long { format!("{} and {} elements", a.len(), b.len()) } else { format!("{a:?} {b:?}") }, |w| {
                    take();
                    let want: Vec<(U, U)> = a.iter().copied().zip(b.iter().copied()).collect();
                    w.eq("zip_with", &hu::zip_with(a.clone(), b.clone(), |x, y| { log(x, y); (x, y) }), &want)?;
                    w.eq("zip_with calls", &take(), &want)
                });
            }
            w.case(|| if *long { format!("{} elements", a.len()) } else { format!("{a:?}") }, |w| {
                for h in HINTS {
                    w.same("fold_with Last of an iterator", &cu::fold_with::<_, U, Last<U>>(hint(a.clone(), h)).0, &a.last().copied())?;
                    w.same("fold_with String of an iterator", &cu::fold_with::<_, String, String>(hint(a.iter().map(|x| x.to_string()).collect(), h)), &a.iter().map(|x| x.to_string()).collect::<String>())?;
                }
                w.eq("fold_with Sum", &cu::fold_with::<_, u32, Sum<u32>>(a.iter().map(|x| *x as u32)).0, &a.iter().map(|x| *x as u32).sum::<u32>())?;
                w.eq("fold_with Last", &cu::fold_with::<_, U, Last<U>>(a.clone()).0, &a.last().copied())?;
                w.eq("fold_with String", &cu::fold_with::<_, String, String>(a.iter().map(|x| x.to_string())), &a.iter().map(|x| x.to_string()).collect::<String>())
            });
        });
        // Effects: sequences of IO actions, succeeding or panicking.
        let items: Vec<(bool, U)> = vec![(true, 0), (true, 1), (false, 0), (false, 1)];
        let mut il = seqs(&items, c.pick(6, 8));
        for n in (8usize..20).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]).chain(mc::dom::LONG) {
            for i in far(n) {
                il.push((0..n).map(|j| (j != i, (j % 200) as U)).collect());
                il.push((0..n).map(|j| (j == i, (j % 200) as U)).collect());
            }
        }
        c.par("io", &il, |w, l| {
            w.case(|| if l.len() < 9 { format!("{l:?}") } else { format!("{} steps failing first at {:?}", l.len(), l.iter().position(|i| !i.0)) }, |w| {
                let ran: Arc<Mutex<Vec<usize>>> = Arc::default();
                let mk = || -> Vec<IO<U>> {
                    l.iter().enumerate().map(|(i, (ok, x))| {
                        let (ran, ok, x) = (ran.clone(), *ok, *x);
                        IO::new(move || {
                            ran.lock().unwrap().push(i);
                            if ok { x } else { panic!("boom {x}") }
                        })
                    }).collect()
                };
                let (oks, errs) = io_model(l);
                let all: Vec<usize> = (0..l.len()).collect();
                // Accumulating: everything runs, in order, once.
                let got = mc::catch(|| IO::sequence_composable(mk()))?;
                w.eq("sequence_composable runs all in order", &std::mem::take(&mut *ran.lock().unwrap()), &all)?;
                match got {
                    Ok(v) => {
                        w.ok("success only without failures", errs.is_empty())?;
                        w.eq("values", &v, &oks)?;
                    },
                    Err(e) => {
                        w.eq("number of failures", &e.len(), &errs.len())?;
                        for (e, x) in e.iter().zip(&errs) {
                            let s = match e.core_error() {
                                IOError::Other(s) => s.clone(),
                                o => format!("{o:?}"),
                            };
                            w.ok(&format!("failure {s:?} is boom {x}"), s.contains(&format!("boom {x}")))?;
                        }
                    },
                }
                // Sequencing: nothing runs before run; each run is a full pass that ends at the first failure.
                let io = IO::sequence(mk());
                w.eq("nothing runs at build", &ran.lock().unwrap().len(), &0)?;
                let stop = l.iter().position(|i| !i.0).map_or(l.len(), |i| i + 1);
                for _ in 0..2 {
                    let r = mc::catch(|| io.run()).ok();
                    w.eq("values", &r, &errs.is_empty().then(|| oks.clone()))?;
                    w.eq("runs up to the first failure", &std::mem::take(&mut *ran.lock().unwrap()), &all[..stop].to_vec())?;
                }
                Ok(())
            });
        });
    })
}
