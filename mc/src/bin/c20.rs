//! C20: error contexts stack in order and pipelines transform only what they should.
//!
//! Every sequence of pipeline steps and every sequence of error-decorating steps up to a
//! length is run on the real types and compared with an explicit list-of-contexts model.
#![allow(deprecated)]
use mc::dom::{HINTS, LONG, hint};
use mc::dom::seqs;
use mc::prog::tbl;
use mc::{Res, W};
use rustica::error::*;
use std::cell::Cell;

thread_local! { static LAZY: Cell<u32> = const { Cell::new(0) }; static CALLS: Cell<u32> = const { Cell::new(0) }; }
fn called() {
    CALLS.with(|c| c.set(c.get() + 1));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Ctx(u8),
    MapErr,
    RecOk,
    RecIf0,
    RecErr,
    AndOk,
    AndIf,
    AndErr,
    Map,
}
const OPS: [Op; 12] = [
    Op::Ctx(0),
    Op::Ctx(1),
    Op::Ctx(2),
    Op::Ctx(3),
    Op::MapErr,
    Op::RecOk,
    Op::RecIf0,
    Op::RecErr,
    Op::AndOk,
    Op::AndIf,
    Op::AndErr,
    Op::Map,
];
/// A plain, a blank, a separator-like and a multi-line context.
const CTX: [&str; 4] = ["plain", "", "a -> b", " \n"];
fn lazy() -> impl FnOnce() -> String + Clone {
    || {
        LAZY.with(|c| c.set(c.get() + 1));
        CTX[3].to_string()
    }
}
type Pipe = ErrorPipeline<u8, u8>;
fn step(p: Pipe, o: Op) -> Pipe {
    match o {
        Op::Ctx(0) => p.with_context(CTX[0]),
        Op::Ctx(1) => p.with_context(CTX[1].to_string()),
        Op::Ctx(2) => p.with_context(ErrorContext::new(CTX[2])),
        Op::Ctx(_) => p.with_context(LazyContext::new(lazy())),
        Op::MapErr => p.map_error(|e| {
            called();
            tbl(0, e)
        }),
        Op::RecOk => p.recover(|e| {
            called();
            Ok(tbl(1, e))
        }),
        Op::RecIf0 => p.recover(|e| {
            called();
            if e == 0 { Ok(2) } else { Err(e) }
        }),
        Op::RecErr => p.recover(|e| {
            called();
            Err(tbl(0, e))
        }),
        Op::AndOk => p.and_then(|v| {
            called();
            Ok(tbl(0, v))
        }),
        Op::AndIf => p.and_then(|v| {
            called();
            if v == 0 { Err(1) } else { Ok(v) }
        }),
        Op::AndErr => p.and_then(|v| {
            called();
            Err(tbl(2, v))
        }),
        Op::Map => p.map(|v| {
            called();
            tbl(2, v)
        }),
    }
}
/// The model: result, contexts attached to the current error (oldest first), calls made.
type Model = (Result<u8, u8>, Vec<&'static str>, u32, u32);
fn model(m: &mut Model, o: Op) {
    if m.0.is_err() != matches!(o, Op::Ctx(_) | Op::MapErr | Op::RecOk | Op::RecIf0 | Op::RecErr) {
        return;
    }
    if let Op::Ctx(i) = o {
        m.1.push(CTX[i as usize]);
        m.3 += (i == 3) as u32;
        return;
    }
    m.2 += 1;
    m.0 = match (m.0, o) {
        (Err(e), Op::MapErr | Op::RecErr) => Err(tbl(0, e)),
        (Err(e), Op::RecOk) => Ok(tbl(1, e)),
        (Err(e), _) => {
            if e == 0 { Ok(2) } else { Err(e) }
        },
        (Ok(v), Op::AndOk) => Ok(tbl(0, v)),
        (Ok(v), Op::AndIf) => {
            if v == 0 { Err(1) } else { Ok(v) }
        },
        (Ok(v), Op::AndErr) => Err(tbl(2, v)),
        (Ok(v), _) => Ok(tbl(2, v)),
    };
    if m.0.is_ok() {
        m.1.clear();
    }
}
fn rev(v: &[&'static str]) -> Vec<String> {
    v.iter().rev().map(|s| s.to_string()).collect()
}
fn whole(w: &mut W, e: &ComposableError<u8>, core: u8, ctx: &[&'static str], code: Option<u32>) -> Res {
    let want = rev(ctx);
    w.eq("core", e.core_error(), &core)?;
    w.eq("context", &e.context(), &want)?;
    w.eq("context_iter", &e.context_iter().cloned().collect::<Vec<_>>(), &want)?;
    w.eq("extract_context", &extract_context(e), &want)?;
    w.eq("error_code", &e.error_code(), &code)?;
    let mut chain = want.clone();
    chain.push(core.to_string());
    let mut s = chain.join(" -> ");
    if let Some(c) = code {
        s.push_str(&format!(" (code: {c})"));
    }
    w.eq("error_chain", &e.error_chain(), &s)?;
    w.eq("format_error_chain", &format_error_chain(e), &s)?;
    w.eq("Display", &e.to_string(), &s)?;
    w.ok("clone equals", e.clone() == *e)
}
fn pipeline(w: &mut W, start: Result<u8, u8>, ops: &[Op], pre: usize) -> Res {
    LAZY.with(|c| c.set(0));
    CALLS.with(|c| c.set(0));
    let mk = || {
        let mut p = if pre == 0 { ErrorPipeline::new(start) } else { error_pipeline(start) };
        for o in ops {
            p = step(p, *o);
        }
        p
    };
    let mut m: Model = (start, vec![], 0, 0);
    for o in ops {
        model(&mut m, *o);
    }
    let got = mk().finish_without_box();
    w.op(ops.len() as u64);
    w.same("functions called", &CALLS.with(|c| c.get()), &m.2)?;
    w.same("lazy contexts evaluated", &LAZY.with(|c| c.get()), &m.3)?;
    match (&got, m.0) {
        (Ok(v), Ok(x)) => w.eq("value", v, &x)?,
        (Err(e), Err(x)) => whole(w, e, x, &m.1, None)?,
        (g, x) => return Err(format!("outcome: got {g:?} want {x:?}")),
    }
    w.ok("finish agrees with finish_without_box", mk().finish().map_err(|e| *e) == got)
}

#[derive(Clone, Copy, Debug)]
enum Dec {
    One(u8),
    Many,
    None,
    Code(u32),
    Map,
}
const DEC: [&str; 3] = ["", "b", "c (code: 7)"];
const MANY: [&str; 3] = ["b", "", "\u{e9} -> "];
fn decorate(w: &mut W, coded: Option<u32>, ops: &[Dec]) -> Res {
    let mut e = match coded {
        Some(n) => ComposableError::with_code(1u8, n),
        None => ComposableError::new(1u8),
    };
    let (mut core, mut ctx, mut code) = (1u8, vec![], coded);
    for o in ops {
        e = match o {
            Dec::One(i @ 0) => e.with_context(DEC[*i as usize]),
            Dec::One(i @ 1) => e.with_context(LazyContext::new(|| DEC[*i as usize].to_string())),
            Dec::One(i) => e.with_context(ErrorContext::new(DEC[*i as usize].to_string())),
            Dec::Many => e.with_contexts(MANY.map(String::from)),
            Dec::None => e.with_contexts(vec![]),
            Dec::Code(n) => e.set_code(*n),
            Dec::Map => e.map_core(|x| tbl(0, x)),
        };
        match o {
            Dec::One(i) => ctx.push(DEC[*i as usize]),
            Dec::Many => ctx.extend(MANY),
            Dec::None => {},
            Dec::Code(n) => code = Some(*n),
            Dec::Map => core = tbl(0, core),
        }
    }
    w.op(ops.len() as u64);
    whole(w, &e, core, &ctx, code)
}

#[derive(Clone, Copy, Debug)]
enum App {
    Msg,
    Map,
    Clear,
    Put,
    Or,
    Keep,
}
/// The message and the context after `ops`, against the two fields of the model.
fn application(w: &mut W, m: u8, x: Option<u8>, ops: &[App]) -> Res {
    let mut e: AppError<u8, u8> = x.map_or_else(|| AppError::new(m), |x| AppError::with_context(m, x));
    let (mut m, mut x) = (m, x);
    for op in ops {
        match op {
            App::Msg => {
                e = e.map(|v| (v + 1) % 3);
                m = (m + 1) % 3;
            },
            App::Map => {
                e = e.map_context(|o| o.map(|v| (v + 2) % 3));
                x = x.map(|v| (v + 2) % 3);
            },
            App::Clear => {
                e = e.map_context(|_| None);
                x = None;
            },
            App::Put => {
                e = e.map_context(|o| Some(o.map_or(1, |v| (v + 1) % 3)));
                x = Some(x.map_or(1, |v| (v + 1) % 3));
            },
            App::Or => {
                e = e.map_context(|o| o.or(Some(2)));
                x = x.or(Some(2));
            },
            App::Keep => e = e.clone(),
        }
    }
    w.op(ops.len() as u64);
    w.eq("message", e.message(), &m)?;
    w.eq("context", &e.context(), &x.as_ref())?;
    w.eq("display", &e.to_string(), &x.map_or(format!("{m:?}"), |x| format!("{m:?} (Context: {x:?})")))?;
    for m2 in 0..3u8 {
        for x2 in [None, Some(0u8), Some(1), Some(2)] {
            let o = x2.map_or_else(|| AppError::new(m2), |x| AppError::with_context(m2, x));
            w.eq("equality", &(e == o, o == e), &((m, x) == (m2, x2), (m, x) == (m2, x2)))?;
        }
    }
    Ok(())
}

fn main() {
    mc::run("C20", |c| {
        let n = c.pick(6, 7);
        let starts: Vec<Result<u8, u8>> = vec![Ok(0), Ok(1), Err(0), Err(1), Err(2)];
        let items: Vec<(Op, Op)> = OPS.iter().flat_map(|a| OPS.map(|b| (*a, b))).collect();
        let tails = seqs(&OPS, n - 2);
        c.note("pipelines", &format!("every sequence of up to {n} of {} pipeline steps from {} starting results", OPS.len(), starts.len()));
        c.seq("pipelines", |w| {
            for s in &starts {
                for ops in seqs(&OPS, 1) {
                    w.case(|| format!("{s:?} {ops:?}"), |w| pipeline(w, *s, &ops, 0));
                }
            }
        });
        c.par("pipelines", &items, |w, (a, b)| {
            for s in &starts {
                for t in &tails {
                    let ops: Vec<Op> = [*a, *b].into_iter().chain(t.iter().copied()).collect();
                    w.case(|| format!("{s:?} {ops:?}"), |w| pipeline(w, *s, &ops, t.len() % 2));
                }
            }
        });
        // long context chains, recovered at every point
        let m = c.pick(40, 100);
        let lens: Vec<usize> = (0..=m).chain(LONG).collect();
        c.note("long pipelines", &format!("n <= {m} contexts, a recovery and a new failure at every position"));
        c.par("long pipelines", &lens, |w, n| {
            for cut in (0..=*n).filter(|i| *n <= m || *i == 0 || *i == n / 2 || *i + 1 >= *n) {
                for ops2 in [vec![], vec![Op::RecOk, Op::AndErr], vec![Op::RecErr], vec![Op::RecIf0, Op::AndErr, Op::MapErr]] {
                    let mut ops: Vec<Op> = (0..*n).map(|i| Op::Ctx((i % 4) as u8)).collect();
                    let t = ops.split_off(cut);
                    ops.extend(ops2);
                    ops.extend(t);
                    w.case(|| format!("{ops:?}"), |w| pipeline(w, Err(0), &ops, 0));
                }
            }
        });
        let decs = [Dec::One(0), Dec::One(1), Dec::One(2), Dec::Many, Dec::None, Dec::Code(7), Dec::Code(u32::MAX), Dec::Code(0), Dec::Map];
        let n = c.pick(6, 7);
        let all = seqs(&decs, n);
        c.note("decorated errors", &format!("every sequence of up to {n} of {} decorating steps", decs.len()));
        c.par("decorated errors", &all, |w, ops| {
            w.case(|| format!("{ops:?}"), |w| {
                decorate(w, None, ops)?;
                decorate(w, Some(0), ops)?;
                decorate(w, Some(u32::MAX), ops)?;
                decorate(w, Some(5), ops)
            });
        });
        let jobs: Vec<usize> = (0..=70).chain(LONG).collect();
        let tails = seqs(&decs, 2);
        c.note("heavily decorated errors", "every pair of decorating steps on errors with up to 10001 contexts, before and after the contexts are added");
        c.par("heavily decorated errors", &jobs, |w, n| {
            for t in &tails {
                for many in [false, true] {
                    let body: Vec<Dec> = (0..*n).map(|i| if many && i % 5 == 0 { Dec::Many } else { Dec::One((i * 7 % 11 % 3) as u8) }).collect();
                    w.case(|| format!("{n} contexts (many={many}) and {t:?}"), |w| {
                        decorate(w, None, &[body.clone(), t.clone()].concat())?;
                        decorate(w, Some(9), &[t.clone(), body.clone()].concat())
                    });
                }
            }
        });
        // The older application error: one message, at most one context.
        let aops = [App::Msg, App::Map, App::Clear, App::Put, App::Or, App::Keep];
        let aprogs = seqs(&aops, c.pick(5, 6));
        c.note("application errors", "every sequence of transforming steps on the older application error, its results compared with each other");
        c.par("application errors", &aprogs, |w, p| {
            for m in 0..3u8 {
                for x in [None, Some(0u8), Some(1), Some(2)] {
                    w.case(|| format!("{m} {x:?} {p:?}"), |w| application(w, m, x, p));
                }
            }
        });
        let labels: [&'static str; 5] = ["x", "y", "x -> y", "", " "];
        let mut lists = seqs(&labels, c.pick(5, 6));
        lists.extend(LONG.map(|n| (0..n).map(|i| labels[i * 7 % 11 % 5]).collect()));
        c.par("helpers", &lists, |w, l| {
            w.case(
                || format!("{l:?}"),
                |w| {
                    whole(w, &accumulate_context(2u8, l.iter().copied()), 2, l, None)?;
                    whole(w, &accumulate_context(2u8, l.iter().map(|s| ErrorContext::new(*s))), 2, l, None)?;
                    for h in HINTS {
                        whole(w, &accumulate_context(2u8, hint(l.clone(), h)), 2, l, None)?;
                        whole(w, &context_accumulator(hint(l.clone(), h))(1u8), 1, l, None)?;
                        whole(w, &ComposableError::new(1u8).with_contexts(hint(l.iter().map(|s| s.to_string()).collect(), h)), 1, l, None)?;
                    }
                    let f = context_accumulator(l.iter().map(|s| s.to_string()).collect::<Vec<_>>());
                    for e in 0..3u8 {
                        whole(w, &f(e), e, l, None)?;
                    }
                    if let [x, rest @ ..] = &l[..] {
                        let g = context_fn(*x);
                        for e in 0..2u8 {
                            whole(w, &g(e), e, &[x], None)?;
                            whole(w, &with_context(e, x.to_string()), e, &[x], None)?;
                            let r = with_context_result(Err::<u8, u8>(e), *x);
                            whole(w, r.as_ref().unwrap_err(), e, &[x], None)?;
                            let mut r = *r.unwrap_err();
                            for y in rest {
                                r = r.with_context(*y);
                            }
                            whole(w, &r, e, l, None)?;
                        }
                        LAZY.with(|c| c.set(0));
                        w.eq("with_context_result Ok", &with_context_result(Ok::<u8, u8>(1), LazyContext::new(lazy())), &Ok(1))?;
                        w.eq("a success evaluates no lazy context", &LAZY.with(|c| c.get()), &0)?;
                        let y = x.to_string();
                        w.eq("context! on Ok", &with_context_result(Ok::<u8, u8>(1), rustica::context!("{y}{}", lazy()())), &Ok(1))?;
                        w.eq("context! on Ok formats nothing", &LAZY.with(|c| c.get()), &0)?;
                        let (y, n) = (x.to_string(), l.len());
                        let r = with_context_result(Err::<u8, u8>(2), rustica::context!("{y}/{} {:?}", n, Some(1)));
                        let r = *r.unwrap_err();
                        w.eq("context! on Err", &(*r.core_error(), r.context()), &(2, vec![format!("{x}/{n} Some(1)")]))?;
                        let ec = ErrorContext::new(*x);
                        w.eq("ErrorContext message", &ec.message(), x)?;
                        w.eq("ErrorContext Display", &ec.to_string(), &x.to_string())?;
                        w.eq("String into context", &x.to_string().into_error_context(), &ec)?;
                        w.eq("str into context", &x.into_error_context(), &ec)?;
                    }
                    whole(w, &ComposableError::from(1u8), 1, &[], None)
                },
            );
        });
    })
}
