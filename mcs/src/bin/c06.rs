//! C06: an IO built from a future runs it once and every run gets its value.
use rustica::datatypes::io::IO;
use std::collections::HashSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vstd::sched::{Explorer, Outcome, Slot, local_point, on_behalf};

/// Reports not-ready `left` times; counts how often it was started and finished.
struct Fut {
    left: u32,
    begun: bool,
    throws: bool,
    started: Arc<AtomicU32>,
    slot: Option<Arc<Slot>>,
}
impl Future for Fut {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        if !self.begun {
            self.begun = true;
            self.started.fetch_add(1, SeqCst);
        }
        if let Some(s) = &self.slot {
            on_behalf(s, local_point);
        }
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.throws {
            panic!("the future failed");
        }
        Poll::Ready(100 + self.started.load(SeqCst))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Op {
    Run,
    Clone,
    Mapped,
    Bound,
    Twice,
    TryGet,
    Async,
    AsyncMapped,
    Blocking,
    CurrentThread,
    Spawned,
    Joined,
    OtherRuntime,
    /// runs of programs whose own function panics once it has the value
    BoomMapped,
    BoomBound,
    BoomAsync,
}
use Op::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Yields(u32),
    Sleeps,
    Spawns,
    Joins,
    Blocks,
    WokenOutside,
    Nested(u32),
    Chained,
    /// not ready so often, then it panics
    Throws(u32),
    /// a task it waits for panics
    ThrowsInTask,
}
/// A future of a kind; counts its starts and yields 100 + starts.
fn future(k: Kind, started: Arc<AtomicU32>) -> Pin<Box<dyn Future<Output = u32> + Send>> {
    let begin = move || 101 + started.fetch_add(1, SeqCst);
    match k {
        Kind::Yields(n) => Box::pin(async move {
            let r = begin();
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
            r
        }),
        Kind::Sleeps => Box::pin(async move {
            let r = begin();
            tokio::time::sleep(std::time::Duration::from_micros(300)).await;
            r
        }),
        Kind::Spawns => Box::pin(async move { tokio::spawn(async move { begin() }).await.unwrap() }),
        Kind::Joins => Box::pin(async move {
            let (a, _, b) = tokio::join!(async { begin() }, tokio::task::yield_now(), tokio::spawn(async { 7 }));
            a + b.unwrap() - 7
        }),
        Kind::Blocks => Box::pin(async move { tokio::task::spawn_blocking(begin).await.unwrap() }),
        Kind::WokenOutside => Box::pin(async move {
            let (tx, rx) = tokio::sync::oneshot::channel();
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_micros(100));
                let _ = tx.send(0);
            });
            begin() + rx.await.unwrap()
        }),
        Kind::Nested(n) => Box::pin(async move {
            let mut io = IO::new_async(async move { begin() });
            for _ in 0..n {
                let inner = io.clone();
                io = IO::new_async(async move { inner.run_async().await }).fmap(|x| x);
            }
            io.run_async().await
        }),
        Kind::Throws(n) => Box::pin(async move {
            begin();
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
            panic!("the future failed")
        }),
        Kind::ThrowsInTask => Box::pin(async move {
            begin();
            tokio::spawn(async { panic!("the task failed") }).await.unwrap()
        }),
        Kind::Chained => {
            let io = IO::new_async(async { 1u32 }).bind(|x| IO::new_async(async move { x + 1 }));
            Box::pin(async move {
                let n = begin();
                io.run_async().await + io.run_async().await + n - 4
            })
        },
    }
}
struct Env {
    io: IO<u32>,
    mapped: IO<u32>,
    bound: IO<u32>,
    started: Arc<AtomicU32>,
}
fn env(pending: u32, throws: bool, slot: Option<Arc<Slot>>) -> Env {
    env_of(|started| Fut { left: pending, begun: false, throws, started, slot })
}
fn env_of<F: Future<Output = u32> + Send + 'static>(f: impl FnOnce(Arc<AtomicU32>) -> F) -> Env {
    let started = Arc::new(AtomicU32::new(0));
    let io = IO::new_async(f(started.clone()));
    let io2 = io.clone();
    Env {
        mapped: io.fmap(|x| x + 1000),
        bound: io.bind(move |x| {
            let x = x;
            io2.fmap(move |y| x * 1000 + y)
        }),
        io,
        started,
    }
}
const BOOM: &str = "the program's own function failed";
/// Whether a run came out as it must: the value, or a panic where the future or the program's own function panics.
fn right(o: Op, throws: bool, r: &Result<u32, String>) -> bool {
    match o {
        _ if throws => r.is_err(),
        BoomMapped | BoomBound => r.as_ref().is_err_and(|m| m.contains(BOOM)),
        BoomAsync => r.is_err(),
        _ => *r == Ok(101),
    }
}
/// Runs one operation; `Ok(value with the derivation undone)`.
fn exec(e: &Env, o: Op, rt: &tokio::runtime::Runtime) -> Result<u32, String> {
    mc::catch(|| match o {
        Run => Ok(e.io.run()),
        Clone => Ok(e.io.clone().run()),
        Mapped => Ok(e.mapped.run().wrapping_sub(1000)),
        Bound => {
            let v = e.bound.run();
            if v / 1000 == v % 1000 { Ok(v % 1000) } else { Err(format!("two runs in one program disagree: {v}")) }
        },
        Twice => {
            let (a, b) = (e.io.run(), e.io.run());
            if a == b { Ok(a) } else { Err(format!("second run gives {b}, first {a}")) }
        },
        TryGet => e.io.try_get().map_err(|e| format!("try_get fails: {e:?}")),
        Async => Ok(rt.block_on(e.io.run_async())),
        AsyncMapped => Ok(rt.block_on(e.mapped.run_async()).wrapping_sub(1000)),
        Blocking => {
            let io = e.io.clone();
            rt.block_on(async move { tokio::task::spawn_blocking(move || io.run()).await.map_err(|e| format!("{e}")) })
        },
        CurrentThread => {
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            Ok(rt.block_on(e.io.run_async()))
        },
        Spawned => {
            let io = e.io.clone();
            rt.block_on(async move { tokio::spawn(async move { io.run_async().await }).await.map_err(|e| format!("{e}")) })
        },
        Joined => {
            let (a, b, m) = rt.block_on(async { tokio::join!(e.io.run_async(), e.io.run_async(), e.mapped.run_async()) });
            if a == b && m == a + 1000 { Ok(a) } else { Err(format!("joined runs disagree: {a} {b} {m}")) }
        },
        OtherRuntime => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().unwrap();
            let io = e.bound.clone();
            let v = rt.block_on(async move { tokio::spawn(async move { io.run_async().await }).await.map_err(|e| format!("{e}")) })?;
            if v / 1000 == v % 1000 { Ok(v % 1000) } else { Err(format!("two runs in one program disagree: {v}")) }
        },
        BoomMapped => Ok(e.io.fmap(|_: u32| -> u32 { panic!("{BOOM}") }).run()),
        BoomBound => Ok(e.io.bind(|_: u32| -> IO<u32> { panic!("{BOOM}") }).run()),
        BoomAsync => Ok(rt.block_on(e.io.fmap(|_: u32| -> u32 { panic!("{BOOM}") }).run_async())),
    })
    .and_then(|r| r)
}
fn runtime(slot: Option<Arc<Slot>>) -> tokio::runtime::Runtime {
    let mut b = tokio::runtime::Builder::new_multi_thread();
    b.worker_threads(1);
    if let Some(s) = slot {
        b.on_thread_start(move || vstd::sched::act_for(&s));
    }
    b.build().unwrap()
}
#[derive(Debug)]
struct Driver {
    pending: u32,
    throws: bool,
    threads: Vec<Vec<Op>>,
    bound: Option<u32>,
}
fn teams(p: &[Vec<Op>], from: usize, n: usize, acc: &mut Vec<Vec<Op>>, out: &mut Vec<Vec<Vec<Op>>>) {
    if n == 0 {
        out.push(acc.clone());
        return;
    }
    for i in from..p.len() {
        acc.push(p[i].clone());
        teams(p, i, n - 1, acc, out);
        acc.pop();
    }
}
fn all(p: &[Vec<Op>], n: usize) -> Vec<Vec<Vec<Op>>> {
    let mut o = vec![];
    teams(p, 0, n, &mut vec![], &mut o);
    o
}

fn main() {
    mc::run("C06", |c| {
        // the library's own runtime starts outside any exploration
        if mc::catch(|| IO::new_async(async { 1u32 }).run()).is_err() {
            c.seq("start", |w| {
                w.case(|| "run from an ordinary thread".into(), |_| {
                    IO::new_async(async { 1u32 }).run();
                    Ok(())
                });
            });
            return;
        }
        let ops = [Run, Clone, Mapped, Bound, Twice, TryGet, Async, AsyncMapped, Blocking];
        let depth = c.pick(3, 4);
        c.note("sequential histories", &format!("all histories of up to {depth} runs through 9 routes (plain thread, clone, derived programs, error-reporting runner, asynchronous runner), futures not ready 0-2 times"));
        let mut items = vec![];
        for p in 0..3u32 {
            for h in mc::dom::seqs(&ops, depth) {
                items.push((p, h));
            }
        }
        let chunks: Vec<&[(u32, Vec<Op>)]> = items.chunks(64).collect();
        c.par("sequential histories", &chunks, |w, ch| {
            let rt = runtime(None);
            for (p, h) in ch.iter() {
                w.case(|| format!("not ready {p}x: {h:?}"), |w| {
                    let e = env(*p, false, None);
                    w.eq("started before any run", &e.started.load(SeqCst), &0)?;
                    for (i, o) in h.iter().enumerate() {
                        let r = exec(&e, *o, &rt);
                        w.eq(&format!("run {i} ({o:?})"), &r, &Ok(101))?;
                        w.eq("times started", &e.started.load(SeqCst), &1)?;
                    }
                    Ok(())
                });
            }
        });
        // what the future is made of, and where its runs come from
        let kinds = [Kind::Yields(0), Kind::Yields(3), Kind::Yields(130), Kind::Sleeps, Kind::Spawns, Kind::Joins, Kind::Blocks, Kind::WokenOutside, Kind::Nested(1), Kind::Nested(5), Kind::Chained];
        let routes = [Run, TryGet, Bound, Async, AsyncMapped, Blocking, CurrentThread, Spawned, Joined, OtherRuntime];
        let depth = c.pick(2, 3);
        c.note(
            "kinds of futures",
            &format!("futures that yield, sleep, spawn, join, block a thread, are woken by another thread, or run other asynchronous IO values (nested up to 5 deep); all histories of up to {depth} runs through 10 routes (also a current-thread runtime, a spawned task, joined runs, a runtime of its own), and 300 runs in a row of each route"),
        );
        let mut items = vec![];
        for k in kinds {
            for h in mc::dom::seqs(&routes, depth) {
                items.push((k, h));
            }
            for r in routes {
                items.push((k, vec![r; 300]));
            }
        }
        let chunks: Vec<&[(Kind, Vec<Op>)]> = items.chunks(16).collect();
        c.par("kinds of futures", &chunks, |w, ch| {
            let rt = runtime(None);
            for (k, h) in ch.iter() {
                w.case(|| format!("{k:?}: {} runs, {:?}", h.len(), &h[..h.len().min(5)]), |w| {
                    let e = env_of(|started| future(*k, started));
                    w.eq("started before any run", &e.started.load(SeqCst), &0)?;
                    for (i, o) in h.iter().enumerate() {
                        let r = exec(&e, *o, &rt);
                        w.eq(&format!("run {i} ({o:?})"), &r, &Ok(101))?;
                        w.eq("times started", &e.started.load(SeqCst), &1)?;
                    }
                    Ok(())
                });
            }
        });
        c.note("abandoned runs", "an asynchronous run dropped unpolled or after its first poll, then runs through every pair of routes");
        let items: Vec<(Kind, u32, Vec<Op>)> = kinds.iter().flat_map(|k| {
            mc::dom::seqs(&routes, 2).into_iter().filter(|h| !h.is_empty()).flat_map(move |h| [(*k, 0, h.clone()), (*k, 1, h.clone()), (*k, 3, h)])
        }).collect();
        let chunks: Vec<&[(Kind, u32, Vec<Op>)]> = items.chunks(16).collect();
        c.par("abandoned runs", &chunks, |w, ch| {
            let rt = runtime(None);
            for (k, n, h) in ch.iter() {
                w.case(|| format!("{k:?}: {n} runs abandoned after a poll, then {h:?}"), |w| {
                    let e = env_of(|started| future(*k, started));
                    rt.block_on(async {
                        drop(e.io.run_async());
                        for _ in 0..*n {
                            let mut r = Box::pin(e.io.run_async());
                            std::future::poll_fn(|cx| {
                                let _ = r.as_mut().poll(cx);
                                Poll::Ready(())
                            })
                            .await;
                        }
                    });
                    for (i, o) in h.iter().enumerate() {
                        w.eq(&format!("run {i} ({o:?})"), &exec(&e, *o, &rt), &Ok(101))?;
                        w.eq("times started", &e.started.load(SeqCst), &1)?;
                    }
                    Ok(())
                });
            }
        });
        // futures and continuations that panic
        let bad = [Kind::Throws(0), Kind::Throws(1), Kind::Throws(5), Kind::ThrowsInTask];
        let depth = c.pick(2, 3);
        c.note("panicking futures", &format!("futures that panic at once, after 1 or 5 suspensions, or through a task of theirs: all histories of up to {depth} runs through 10 routes panic (or report the failure), each at once, and start the future once; programs whose own function panics, among other runs, all histories of up to {} runs", depth + 1));
        let mut items = vec![];
        for k in bad {
            for h in mc::dom::seqs(&routes, depth) {
                items.push((k, true, h));
            }
        }
        for k in [Kind::Yields(0), Kind::Yields(2), Kind::Sleeps] {
            for h in mc::dom::seqs(&[Run, AsyncMapped, Blocking, BoomMapped, BoomBound, BoomAsync], depth + 1) {
                items.push((k, false, h));
            }
        }
        let chunks: Vec<&[(Kind, bool, Vec<Op>)]> = items.chunks(16).collect();
        c.par("panicking futures", &chunks, |w, ch| {
            let rt = runtime(None);
            for (k, throws, h) in ch.iter() {
                w.case(|| format!("{k:?}: {h:?}"), |w| {
                    let e = env_of(|started| future(*k, started));
                    for (i, o) in h.iter().enumerate() {
                        let r = exec(&e, *o, &rt);
                        w.op(1);
                        if !right(*o, *throws, &r) {
                            return Err(format!("run {i} ({o:?}): {r:?}"));
                        }
                        w.eq("times started", &e.started.load(SeqCst), &1)?;
                    }
                    Ok(())
                });
            }
        });
        // values that are never run
        c.seq("never run", |w| {
            for k in kinds {
                w.case(|| format!("{k:?}"), |w| {
                    let e = env_of(|started| future(k, started));
                    let started = e.started.clone();
                    drop(e.mapped.clone());
                    drop(e);
                    w.eq("times started", &started.load(SeqCst), &0)
                });
            }
        });
        let ones: Vec<Vec<Op>> = ops.iter().map(|o| vec![*o]).collect();
        let twos: Vec<Vec<Op>> = mc::dom::seqs(&[Run, Mapped, Async], 2).into_iter().filter(|s| s.len() == 2).collect();
        let mut ds = vec![];
        for p in [0, 1] {
            for t in all(&ones, 2) {
                ds.push(Driver { throws: false, pending: p, threads: t, bound: None });
            }
        }
        for t in all(&[vec![Run], vec![Mapped], vec![Async]], 3) {
            ds.push(Driver { throws: false, pending: 1, threads: t, bound: None });
        }
        for t in all(&twos, 2) {
            ds.push(Driver { throws: false, pending: 0, threads: t, bound: if c.thorough() { None } else { Some(3) } });
        }
        // a future that panics, and programs whose own function panics
        for p in [0, 1] {
            for t in all(&ones, 2) {
                ds.push(Driver { throws: true, pending: p, threads: t, bound: None });
            }
            for t in all(&[vec![Run], vec![Async], vec![BoomMapped], vec![BoomBound], vec![BoomAsync]], 2) {
                ds.push(Driver { throws: false, pending: p, threads: t, bound: None });
            }
        }
        for t in all(&[vec![Run], vec![BoomMapped], vec![Async]], 3) {
            ds.push(Driver { throws: true, pending: 0, threads: t.clone(), bound: None });
            ds.push(Driver { throws: false, pending: 0, threads: t, bound: None });
        }
        if c.thorough() {
            for t in all(&ones, 3) {
                ds.push(Driver { throws: false, pending: 2, threads: t, bound: None });
            }
            for t in all(&[vec![Run, Run], vec![Run, Async], vec![Bound]], 3) {
                ds.push(Driver { throws: false, pending: 1, threads: t, bound: Some(3) });
            }
            for t in all(&[vec![Run], vec![Async], vec![Mapped]], 4) {
                ds.push(Driver { throws: false, pending: 1, threads: t, bound: Some(3) });
            }
        }
        ds.sort_by_key(|d| std::cmp::Reverse((d.threads.iter().map(|t| t.len()).sum::<usize>(), d.bound.is_none())));
        c.note("schedules", "every schedule of every pair of runs (each of 9 routes, future not ready 0 or 1 times), of triples over 3 routes, and of pairs of two-run programs (up to 3 preemptions in the quick tier); the same pairs and triples for a future that panics and for programs whose own function panics");
        let tot = Mutex::new([0u64; 6]);
        c.par("schedules", &ds, |w, d| {
            w.case(|| format!("{d:?}"), |w| {
                let slot = Slot::new();
                let rt = Arc::new(runtime(Some(slot.clone())));
                let mut ex = Explorer::new(d.bound, 2_000_000);
                ex.slot = Some(slot.clone());
                let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
                let r = ex.explore(|| {
                    let e = Arc::new(env(d.pending, d.throws, Some(slot.clone())));
                    let out: Arc<Mutex<Vec<(usize, Op, Result<u32, String>)>>> = Default::default();
                    let bodies = d
                        .threads
                        .iter()
                        .cloned()
                        .enumerate()
                        .map(|(t, p)| {
                            let (e, rt, out) = (e.clone(), rt.clone(), out.clone());
                            Box::new(move || {
                                for o in p {
                                    let r = exec(&e, o, &rt);
                                    out.lock().unwrap().push((t, o, r));
                                }
                            }) as Box<dyn FnOnce() + Send>
                        })
                        .collect();
                    let (seen, rt2) = (seen.clone(), rt.clone());
                    let check = move |o: &Outcome| {
                        mc::beat();
                        let v = out.lock().unwrap().clone();
                        if *o != Outcome::Complete {
                            return Err(format!("{o:?}; finished runs: {v:?}"));
                        }
                        seen.lock().unwrap().insert(mc::hash_debug(&v));
                        if let Some(b) = v.iter().find(|x| !right(x.1, d.throws, &x.2)) {
                            let want = if d.throws { "a panic" } else { "the value 101" };
                            return Err(format!("thread {} {:?}: {:?} (expected {want})", b.0, b.1, b.2));
                        }
                        if e.started.load(SeqCst) != 1 {
                            return Err(format!("the future was started {} times", e.started.load(SeqCst)));
                        }
                        let late = exec(&e, Run, &rt2);
                        if !right(Run, d.throws, &late) {
                            return Err(format!("a later run gives {late:?}"));
                        }
                        Ok(())
                    };
                    (bodies, check)
                });
                let s = &ex.stats;
                for x in seen.lock().unwrap().iter() {
                    w.state(*x);
                }
                w.op(s.steps);
                w.add_cases(s.executions);
                let mut g = tot.lock().unwrap();
                g[0] += s.executions;
                g[1] += s.complete;
                g[2] += s.steps;
                g[3] = g[3].max(s.max_depth as u64);
                g[4] += (!s.exhausted) as u64;
                g[5] += s.nondet;
                r.map_err(|(m, sch)| format!("{m}; schedule {sch:?}"))
            });
        });
        let g = *tot.lock().unwrap();
        if g[4] > 0 {
            c.incomplete();
        }
        c.extra("drivers", ds.len() as u64);
        c.extra("schedules_executed", g[0]);
        c.extra("schedules_complete_not_redundant", g[1]);
        c.extra("scheduler_steps", g[2]);
        c.extra("max_schedule_length", g[3]);
        c.extra("drivers_not_exhausted", g[4]);
        c.extra("executions_with_uncontrolled_blocking", g[5]);
        c.assume("threads interleave at the library's own synchronisation operations and at the polls of the future; the async runtime's internals are not explored");
        c.assume("the future does not run the same IO value itself");
    })
}
