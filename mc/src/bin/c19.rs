//! C19: IO programs perform each effect once per run, in order, and only when run.
//!
//! Every program up to a depth is built from the combinators of `IO`, including failing
//! (panicking) steps and recoveries, and run several times through every runner; value or
//! error, the order of effects and the effects of repeated runs are compared with a direct
//! evaluator over an explicit world (effect log and counter).
use mc::prog::*;
use mc::{Res, W};
use rustica::datatypes::io::{IO, IOError};
use rustica::error::ComposableError;
use rustica::traits::evaluate::Evaluate;
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    static REAL: Cell<u8> = const { Cell::new(0) };
    static REF: Cell<u8> = const { Cell::new(0) };
}
fn tick(c: &'static std::thread::LocalKey<Cell<u8>>) -> u8 {
    c.with(|c| {
        let v = c.get();
        c.set((v + 1) % D);
        v
    })
}
type Out = Result<u8, String>;

// Atoms: 0 pure 1, 1 tick (reads and advances the world), 2 effect, 3 fails with a literal,
// 4 fails with a formatted message, 5 when, 6 delay_sync, 7 fails with another payload.
fn r_atom(i: u8) -> Out {
    match i {
        0 => Ok(1),
        1 => {
            let v = tick(&REF);
            log(ev_a(1, v));
            Ok(v)
        },
        2 => {
            log(ev_a(2, 0));
            Ok(2)
        },
        3 => {
            log(ev_a(3, 0));
            Err("literal".into())
        },
        4 => {
            log(ev_a(4, 0));
            Err("formatted 4".into())
        },
        5 => {
            let v = tick(&REF);
            log(ev_a(5, v));
            log(ev_a(6, (v != 0) as u8));
            Ok(if v != 0 { 1 } else { 2 })
        },
        6 => Ok(0),
        7 => {
            log(ev_a(7, 0));
            Err("IO operation panicked with unknown error".into())
        },
        _ => unreachable!(),
    }
}
fn r_katom(i: u8, a: u8) -> Out {
    if i == 0 {
        log(ev_a(8, a));
        return Ok((a + 1) % D);
    }
    if a == 0 {
        log(ev_a(9, a));
        Err(format!("zero {a}"))
    } else {
        Ok(a)
    }
}
fn code(e: &str) -> u8 {
    (e.len() % 3) as u8
}
fn r(p: &P) -> Out {
    match p {
        P::Atom(i) => r_atom(*i),
        P::Fmap(t, p) => Ok(tbl(*t, r(p)?)),
        P::Bind(p, k) => {
            let a = r(p)?;
            match k {
                K::Ret(t) => Ok(tbl(*t, a)),
                K::Atom(i) => r_katom(*i, a),
                K::Const(p) => r(p),
                K::Sel(p, q) => r(if a == 0 { p } else { q }),
            }
        },
        P::Ap(p, q) | P::Two(0 | 1, p, q) => {
            let f = r(p)?;
            Ok(ap2(f, r(q)?))
        },
        P::Two(_, p, q) => match (r(p), r(q)) {
            (Ok(x), Ok(y)) => Ok(ap2(x, y)),
            (x, y) => {
                let es: Vec<String> = [x, y].into_iter().filter_map(|e| e.err()).collect();
                Ok(code(&es.join("|")))
            },
        },
        P::One(0, p) => r(p).or_else(|e| {
            log(ev_a(10, code(&e)));
            r_atom(1)
        }),
        P::One(1, p) => r(p).or(Ok(2)),
        P::One(2, p) => {
            let a = r(p)?;
            r_atom(2)?;
            Ok(ap2(a, r(p)?))
        },
        P::One(3, p) => r(p),
        P::One(4, p) => r(p).or_else(|e| Ok(code(&e))),
        P::One(5, p) => match r(p) {
            Ok(a) => Ok(tbl(0, a)),
            Err(_) => Ok(1),
        },
        _ => unreachable!(),
    }
}

struct L;
impl Lang for L {
    type T = IO<u8>;
    fn pure(a: u8) -> IO<u8> {
        IO::pure(a)
    }
    fn atom(i: u8) -> IO<u8> {
        match i {
            0 => IO::pure(1),
            1 => IO::new(|| {
                let v = tick(&REAL);
                log(ev_a(1, v));
                v
            }),
            2 => IO::new(|| {
                log(ev_a(2, 0));
                2
            }),
            3 => IO::new(|| {
                log(ev_a(3, 0));
                panic!("literal")
            }),
            4 => IO::new(|| {
                log(ev_a(4, 0));
                let n = 4;
                panic!("formatted {n}")
            }),
            5 => IO::when(
                || {
                    let v = tick(&REAL);
                    log(ev_a(5, v));
                    v != 0
                },
                || {
                    log(ev_a(6, 1));
                    1
                },
                || {
                    log(ev_a(6, 0));
                    2
                },
            ),
            6 => IO::delay_sync(Duration::ZERO, 0),
            7 => IO::new(|| {
                log(ev_a(7, 0));
                std::panic::panic_any(7u8)
            }),
            _ => unreachable!(),
        }
    }
    fn katom(i: u8, a: u8) -> IO<u8> {
        if i == 0 {
            IO::new(move || {
                log(ev_a(8, a));
                (a + 1) % D
            })
        } else if a == 0 {
            IO::new(move || {
                log(ev_a(9, a));
                panic!("zero {a}")
            })
        } else {
            IO::pure(a)
        }
    }
    fn fmap(p: IO<u8>, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> IO<u8> {
        p.fmap(f)
    }
    fn bind(p: IO<u8>, k: impl Fn(u8) -> IO<u8> + Send + Sync + Clone + 'static) -> IO<u8> {
        p.bind(k)
    }
    fn ap(p: IO<u8>, q: IO<u8>) -> IO<u8> {
        q.apply(p.fmap(|f| move |a| ap2(f, a)))
    }
    fn one(i: u8, p: IO<u8>) -> IO<u8> {
        match i {
            0 => p.recover(|e| {
                let c = match e.core_error() {
                    IOError::Other(m) => code(m),
                    IOError::ValueNotSet => 99,
                };
                IO::new(move || log(ev_a(10, c))).bind(|()| Self::atom(1))
            }),
            1 => p.recover_with(2),
            2 => IO::sequence(vec![p.clone(), Self::atom(2), p]).fmap(|v| {
                assert!(v.len() == 3 && v[1] == 2);
                ap2(v[0], v[2])
            }),
            3 => IO::new(move || p.clone().evaluate()),
            4 => IO::new(move || match p.try_get() {
                Ok(a) => a,
                Err(e) => code(&msg(&e)),
            }),
            _ => IO::new(move || p.clone().into_error_pipeline().map(|a| tbl(0, a)).recover(|_| Ok(1)).finish_without_box().ok().unwrap()),
        }
    }
    fn two(i: u8, p: IO<u8>, q: IO<u8>) -> IO<u8> {
        match i {
            0 => IO::<u8>::combine(&p, &q).fmap(|(x, y)| ap2(x, y)),
            1 => IO::sequence([p, q]).fmap(|v| ap2(v[0], v[1])),
            _ => IO::new(move || match IO::sequence_composable([p.clone(), q.clone()]) {
                Ok(v) => ap2(v[0], v[1]),
                Err(es) => code(&es.iter().map(|e| msg(e)).collect::<Vec<_>>().join("|")),
            }),
        }
    }
}
fn msg(e: &ComposableError<IOError>) -> String {
    match e.core_error() {
        IOError::Other(m) => m.clone(),
        IOError::ValueNotSet => "value not set".into(),
    }
}

fn check(w: &mut W, p: &P, thorough: bool) -> Res {
    REAL.with(|c| c.set(0));
    REF.with(|c| c.set(0));
    effects();
    let t = build::<L>(p);
    w.same("effects while building", &effects(), &Vec::<Ev>::new())?;
    let step = |w: &mut W, name: &str, run: &dyn Fn(&IO<u8>) -> (Out, Vec<String>), ctx: &[&str]| -> Res {
        let got = run(&t);
        let gt = effects();
        let want = r(p);
        let wt = effects();
        let c: Vec<String> = if want.is_err() { ctx.iter().map(|s| s.to_string()).collect() } else { vec![] };
        w.eq(name, &got, &(want, c))?;
        w.same("effects", &(name, gt), &(name, wt))?;
        w.same("world", &REAL.with(|c| c.get()), &REF.with(|c| c.get()))
    };
    fn split<X>(r: Result<u8, X>, f: impl Fn(X) -> ComposableError<IOError>) -> (Out, Vec<String>) {
        match r {
            Ok(a) => (Ok(a), vec![]),
            Err(e) => {
                let e = f(e);
                (Err(msg(&e)), e.context())
            },
        }
    }
    let run = |t: &IO<u8>| {
        let r = mc::catch(|| t.run()).map_err(|m| {
            let m = m.strip_prefix("panic: ").unwrap_or(&m).to_string();
            match m.rfind(" at ") {
                Some(i) if m[..i] == *"panic" => "IO operation panicked with unknown error".to_string(),
                Some(i) => m[..i].to_string(),
                None => m,
            }
        });
        (r, vec![])
    };
    step(w, "run", &run, &[])?;
    step(w, "run of a clone", &|t| run(&t.clone()), &[])?;
    step(w, "try_get", &|t| split(t.try_get(), |e| e), &[])?;
    step(w, "try_get_with_context", &|t| split(t.try_get_with_context("c1"), |e| e), &["c1"])?;
    step(w, "try_get_composable", &|t| split(t.try_get_composable(), |e| *e), &[])?;
    step(w, "try_get_composable_with_context", &|t| split(t.try_get_composable_with_context("c2"), |e| *e), &["c2"])?;
    step(w, "into_error_pipeline", &|t| split(t.clone().into_error_pipeline().finish_without_box().map_err(|e| *e.core_error().clone()), |e| e), &[])?;
    // each run has a world of its own
    let here = |n: u8| {
        let old = REAL.with(|c| c.replace(n));
        let r = t.try_get().map_err(|e| msg(&e));
        (r, REAL.with(|c| c.replace(old)))
    };
    let from: [&(dyn Fn() -> (Out, u8) + Sync); 3] = [&|| here(0), &|| here(1), &|| here(2)];
    let runs: Vec<_> = (0..D)
        .map(|n| {
            REF.with(|c| c.set(n));
            let want = r(p);
            (from[n as usize], (want, REF.with(|c| c.get())), effects())
        })
        .collect();
    overlap(w, switches(p, thorough), &runs)
}

fn main() {
    mc::run("C19", |c| {
        c.assume("in an applicative combination the program order is: the part yielding the function, then the part yielding the argument");
        let full = Spec {
            atoms: vec![1, 0, 3, 2, 4, 5, 6, 7],
            tables: vec![0, 1],
            katoms: vec![0, 1],
            ones: vec![0, 1, 2, 3, 4, 5],
            twos: vec![0, 1, 2],
            ap: true,
        };
        let small = Spec { atoms: vec![1, 0, 3], ones: vec![0, 1, 2, 4], twos: vec![0, 2], tables: vec![0], ..full.clone() };
        let mut ps = full.programs(c.pick(2, 3));
        ps.extend(if c.thorough() { full.bushy() } else { small.bushy() });
        // without the combinator that runs its operand twice: exponentially many effects
        let once = Spec { ones: vec![0, 1, 3, 4, 5], ..full.clone() };
        ps.extend(once.long(c.pick(&[6, 9, 17, 33, 65], &[6, 9, 17, 33, 65, 130]), 3));
        let n = "programs";
        c.note(
            n,
            &format!(
                "{} programs: all combinator chains of depth {} over 8 atoms, plus all binary combinations of depth-1 programs, plus every combinator iterated up to 65 (130) times and every pair alternating; each run 7 times through every runner",
                ps.len(),
                c.pick(2, 3)
            ),
        );
        c.par(n, &ps, |w, p| {
            w.case(|| format!("{p:?}"), |w| check(w, p, c.thorough()));
        });

        let mut fails = mc::dom::seqs(&[0u8, 2, 3, 4], c.pick(5, 7));
        // Long lists: every mix of steps, and one failing step at every (far) position.
        for n in (8usize..20).chain([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200]).chain(mc::dom::LONG) {
            fails.extend([vec![1, 0, 1, 2, 1], vec![1], vec![2], vec![0], vec![6, 1], vec![3, 4], vec![1, 2, 3], vec![5, 1]].map(|k: Vec<u8>| (0..n).map(|i| k[i % k.len()]).collect::<Vec<u8>>()));
            for i in (0..n).filter(|i| n < 300 || i % 257 == 0 || i % 256 > 254 || i + 2 > n) {
                fails.push((0..n).map(|j| if i == j { 3 + (i % 2) as u8 } else { 1 + (j % 2) as u8 }).collect());
            }
        }
        let n = "sequences";
        c.note(n, &format!("every list of up to {} steps (2 succeed, 2 fail), and lists of up to 10001 steps mixing all kinds of steps or failing at one position", c.pick(5, 7)));
        c.par(n, &fails, |w, v| {
            w.case(
                || if v.len() < 40 { format!("{v:?}") } else { format!("{} steps {:?}.. failing at {:?}", v.len(), &v[..10], v.iter().position(|i| [3, 4, 7].contains(i))) },
                |w| {
                    REAL.with(|c| c.set(0));
                    REF.with(|c| c.set(0));
                    let ios: Vec<IO<u8>> = v.iter().map(|i| L::atom(*i)).collect();
                    effects();
                    let seq = IO::sequence(ios.clone());
                    w.same("building runs nothing", &effects(), &Vec::<Ev>::new())?;
                    for _ in 0..2 {
                        let got = seq.try_get().map_err(|e| msg(&e));
                        let gt = effects();
                        let want: Result<Vec<u8>, String> = v.iter().map(|i| r_atom(*i)).collect();
                        w.eq("sequence", &got, &want)?;
                        w.same("effects of sequence", &gt, &effects())?;
                    }
                    let got = IO::sequence_composable(ios).map_err(|es| es.iter().map(|e| msg(e)).collect::<Vec<_>>());
                    let gt = effects();
                    let all: Vec<Out> = v.iter().map(|i| r_atom(*i)).collect();
                    let errs: Vec<String> = all.iter().filter_map(|x| x.clone().err()).collect();
                    let want = if errs.is_empty() { Ok(all.into_iter().map(|x| x.unwrap()).collect::<Vec<u8>>()) } else { Err(errs) };
                    w.eq("sequence_composable", &got, &want)?;
                    w.same("effects of sequence_composable", &gt, &effects())
                },
            );
        });
        c.seq("queries", |w| {
            for i in 0..8u8 {
                w.case(
                    || format!("atom {i}"),
                    |w| {
                        let t = L::atom(i);
                        w.ok("is_pure is not is_effect", t.is_pure() != t.is_effect())?;
                        w.eq("is_pure", &t.is_pure(), &(i == 0))?;
                        w.eq("clone is_pure", &t.clone().is_pure(), &(i == 0))
                    },
                );
            }
        });
    })
}
