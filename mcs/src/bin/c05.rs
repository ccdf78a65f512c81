//! C05: the shared memoizer is linearizable and computes each key once, in every schedule.
use mc::hash_debug;
use mcs::{Hist, Rec, Spec, linearizable};
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use vstd::sched::{Explorer, Outcome};

/// Keys whose hashes all collide: only equality tells them apart.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
enum Op {
    Get(u8),
    /// a lookup whose function panics
    Boom(u8),
    Clear,
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct K(u8);
impl std::hash::Hash for K {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
/// Which key and which operation computed a value.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
struct V(u8, u16);
/// An operation as recorded: its number identifies the value its own function computes.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Rop(Op, u16);
/// Result: value and keys the function was called with.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Ret {
    Value(V, Vec<u8>),
    Unit,
    /// the function's own panic, after these calls of it
    Threw(Vec<u8>),
    Panic(String),
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct Map(BTreeMap<u8, V>);
impl Spec<Rop, Ret> for Map {
    fn step(&mut self, o: &Rop) -> Ret {
        match o.0 {
            Op::Clear => {
                self.0.clear();
                Ret::Unit
            },
            Op::Boom(k) => match self.0.get(&k) {
                Some(v) => Ret::Value(*v, vec![]),
                None => Ret::Threw(vec![k]),
            },
            Op::Get(k) => match self.0.get(&k) {
                Some(v) => Ret::Value(*v, vec![]),
                None => {
                    let v = V(k, o.1);
                    self.0.insert(k, v);
                    Ret::Value(v, vec![k])
                },
            },
        }
    }
}
fn exec(m: &Memoizer<K, V>, o: Rop) -> Ret {
    let mut thrown = vec![];
    match mc::catch(|| match o.0 {
        Op::Boom(k) => {
            let v = m.get_or_compute(K(k), |kk| {
                vstd::sched::local_point();
                thrown.push(kk.0);
                panic!("boom {}", kk.0)
            });
            Ret::Value(v, thrown.clone())
        },
        Op::Clear => {
            m.clear();
            Ret::Unit
        },
        Op::Get(k) => {
            let mut calls = vec![];
            let v = m.get_or_compute(K(k), |kk| {
                vstd::sched::local_point();
                calls.push(kk.0);
                V(kk.0, o.1)
            });
            Ret::Value(v, calls)
        },
    }) {
        Ok(r) => r,
        Err(p) if matches!(o.0, Op::Boom(k) if p.contains(&format!("boom {k}"))) => Ret::Threw(thrown),
        Err(p) => Ret::Panic(p),
    }
}

#[derive(Clone, Debug)]
struct Driver {
    pre: Vec<Op>,
    threads: Vec<Vec<Op>>,
    bound: Option<u32>,
}
impl Driver {
    fn label(&self) -> String {
        let s = |v: &Vec<Op>| {
            v.iter()
                .map(|o| match o {
                    Op::Get(k) => format!("get{k}"),
                    Op::Boom(k) => format!("panicking{k}"),
                    Op::Clear => "clear".into(),
                })
                .collect::<Vec<_>>()
                .join(",")
        };
        format!(
            "[{}] {} ({})",
            s(&self.pre),
            self.threads.iter().map(s).collect::<Vec<_>>().join(" || "),
            self.bound.map_or("all schedules".into(), |b| format!("at most {b} preemptions"))
        )
    }
}
/// Multisets of `n` thread programs out of `progs`.
fn teams(progs: &[Vec<Op>], n: usize) -> Vec<Vec<Vec<Op>>> {
    fn go(p: &[Vec<Op>], from: usize, n: usize, acc: &mut Vec<Vec<Op>>, out: &mut Vec<Vec<Vec<Op>>>) {
        if n == 0 {
            out.push(acc.clone());
            return;
        }
        for i in from..p.len() {
            acc.push(p[i].clone());
            go(p, i, n - 1, acc, out);
            acc.pop();
        }
    }
    let mut out = vec![];
    go(progs, 0, n, &mut vec![], &mut out);
    out
}

fn main() {
    mc::run("C05", |c| {
        let g0 = Op::Get(0);
        let g1 = Op::Get(1);
        let alpha = [g0, g1, Op::Clear];
        // ---- sequential histories
        let depth = c.pick(6, 7);
        let hs: Vec<Vec<Op>> = mc::dom::seqs(&[g0, g1, Op::Get(2), Op::Boom(0), Op::Boom(1), Op::Clear], depth);
        c.note("sequential histories", &format!("all histories of up to {depth} operations over 3 keys, including lookups whose function panics"));
        let chunks: Vec<&[Vec<Op>]> = hs.chunks(512).collect();
        c.par("sequential histories", &chunks, |w, ch| {
            for h in ch.iter() {
                w.case(
                    || format!("{h:?}"),
                    |w| {
                        let m = Memoizer::new();
                        let mut s = Map::default();
                        for (i, o) in h.iter().enumerate() {
                            let r = Rop(*o, i as u16);
                            let got = exec(&m, r);
                            w.eq("result", &got, &s.step(&r))?;
                        }
                        Ok(())
                    },
                );
            }
        });
        c.note("many keys", "n distinct keys stored, every one looked up again, in both orders, before and after a clear");
        let sizes: Vec<u32> = vec![1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, c.pick(10_001, 70_000)];
        c.par("many keys", &sizes, |w, n| {
            w.case(
                || format!("{n} keys"),
                |w| {
                    let m: Memoizer<u32, u32> = Memoizer::new();
                    for round in 0..2u32 {
                        for k in 0..*n {
                            let v = m.get_or_compute(k, |x| x * 7 + round);
                            w.same("first lookup", &v, &(k * 7 + round))?;
                        }
                        for k in (0..*n).rev().chain(0..*n) {
                            let mut called = false;
                            let v = m.get_or_compute(k, |_| {
                                called = true;
                                u32::MAX
                            });
                            w.same("later lookup (value, computed again)", &(v, called), &(k * 7 + round, false))?;
                        }
                        m.clear();
                    }
                    Ok(())
                },
            );
        });
        // ---- schedules
        let one = mc::dom::seqs(&alpha, 1)[1..].to_vec();
        let two: Vec<Vec<Op>> = mc::dom::seqs(&alpha, 2)[1..].to_vec();
        let mut ds = vec![];
        for pre in [vec![], vec![g0]] {
            for t in teams(&two, 2) {
                ds.push(Driver { pre: pre.clone(), threads: t, bound: None });
            }
            for t in teams(&one, 3) {
                ds.push(Driver { pre: pre.clone(), threads: t, bound: None });
            }
        }
        // a lookup whose function panics, among others
        let boom = [g0, g1, Op::Boom(0), Op::Clear];
        let progs: Vec<Vec<Op>> = mc::dom::seqs(&boom, 2)[1..].to_vec();
        let has = |t: &Vec<Vec<Op>>| t.iter().flatten().any(|o| matches!(o, Op::Boom(_)));
        let size = |t: &Vec<Vec<Op>>| t.iter().map(|p| p.len()).sum::<usize>();
        for pre in [vec![], vec![g0], vec![Op::Boom(1)]] {
            for t in teams(&progs, 2).into_iter().filter(|t| has(t) && size(t) <= c.pick(3, 4)) {
                let bound = (size(&t) > 3).then_some(3);
                ds.push(Driver { pre: pre.clone(), threads: t, bound });
            }
            for t in teams(&progs[..4], 3).into_iter().filter(has) {
                ds.push(Driver { pre: pre.clone(), threads: t, bound: None });
            }
        }
        // longer programs of two threads and three busier threads, up to a preemption bound
        let three: Vec<Vec<Op>> = mc::dom::seqs(&alpha, 3).into_iter().filter(|p| p.len() == 3).collect();
        if c.thorough() {
            for t in teams(&three, 2) {
                ds.push(Driver { pre: vec![], threads: t, bound: Some(3) });
            }
            for t in teams(&two, 3) {
                ds.push(Driver { pre: vec![], threads: t, bound: Some(2) });
            }
            for t in teams(&one, 4) {
                ds.push(Driver { pre: vec![], threads: t, bound: Some(3) });
            }
        } else {
            for t in teams(&two, 3).into_iter().filter(|t| t.iter().map(|p| p.len()).sum::<usize>() <= 4) {
                ds.push(Driver { pre: vec![], threads: t, bound: Some(2) });
            }
        }
        ds.sort_by_key(|d| std::cmp::Reverse((d.bound.is_none(), d.threads.iter().map(|t| t.len()).sum::<usize>())));
        let tot = Mutex::new((0u64, 0u64, 0u64, 0usize, 0u64, 0u64));
        c.note(
            "schedules",
            "every schedule (up to commuting independent operations, by sleep sets) of every pair of programs of up to two operations and every triple of one-operation programs, empty and prefilled; larger teams up to the stated preemption bound",
        );
        c.par("schedules", &ds, |w, d| {
            w.case(
                || d.label(),
                |w| {
                    let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
                    let mut ex = Explorer::new(d.bound, 3_000_000);
                    let r = ex.explore(|| {
                        let m: Arc<Memoizer<K, V>> = Arc::new(Memoizer::new());
                        let h: Arc<Hist<Rop, Ret>> = Hist::new();
                        let mut n = 0u16;
                        for o in &d.pre {
                            let r = Rop(*o, n);
                            n += 1;
                            h.run(9, r, || exec(&m, r));
                        }
                        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
                        for (t, p) in d.threads.iter().enumerate() {
                            let (m, h) = (m.clone(), h.clone());
                            let ops: Vec<Rop> = p
                                .iter()
                                .map(|o| {
                                    n += 1;
                                    Rop(*o, n)
                                })
                                .collect();
                            bodies.push(Box::new(move || {
                                for r in ops {
                                    h.run(t, r, || exec(&m, r));
                                }
                            }));
                        }
                        let seen = seen.clone();
                        let check = move |o: &Outcome| {
                            mc::beat();
                            if *o != Outcome::Complete {
                                return Err(format!("{o:?} after {:?}", h.take()));
                            }
                            // what the cache holds at the end
                            for k in [0u8, 1] {
                                let r = Rop(Op::Get(k), 100 + k as u16);
                                h.run(9, r, || exec(&m, r));
                            }
                            let hist = h.take();
                            if let Some(p) = hist.iter().find(|r| matches!(r.ret, Some(Ret::Panic(_)) | None)) {
                                return Err(format!("panic or no answer: {p:?} in {hist:?}"));
                            }
                            if seen.lock().unwrap().insert(hash_debug(&hist)) && !linearizable(&Map::default(), &hist) {
                                return Err(format!("not linearizable: {}", show(&hist)));
                            }
                            Ok(())
                        };
                        (bodies, check)
                    });
                    let s = &ex.stats;
                    let distinct = seen.lock().unwrap().clone();
                    for x in &distinct {
                        w.state(*x);
                    }
                    w.op(s.steps);
                    w.add_cases(s.executions);
                    let mut g = tot.lock().unwrap();
                    g.0 += s.executions;
                    g.1 += s.complete;
                    g.2 += s.steps;
                    g.3 = g.3.max(s.max_depth);
                    g.4 += (!s.exhausted) as u64;
                    g.5 += distinct.len() as u64;
                    drop(g);
                    r.map_err(|(m, sch)| format!("{m}; schedule {sch:?}"))
                },
            );
        });
        let g = *tot.lock().unwrap();
        if g.4 > 0 {
            c.incomplete();
        }
        c.extra("drivers", ds.len() as u64);
        c.extra("schedules_executed", g.0);
        c.extra("schedules_complete_not_redundant", g.1);
        c.extra("scheduler_steps", g.2);
        c.extra("max_schedule_length", g.3 as u64);
        c.extra("drivers_not_exhausted", g.4);
        c.extra("distinct_histories_checked_for_linearizability", g.5);
        c.assume("threads interleave at synchronisation operations; memory is sequentially consistent; no spurious failures of weak operations");
        c.assume("the function given to a lookup does not itself use the same memoizer");
    })
}
fn show(h: &[Rec<Rop, Ret>]) -> String {
    h.iter()
        .map(|r| format!("T{}:{:?}#{} [{}..{}] -> {:?}", r.thread, r.op.0, r.op.1, r.inv, r.resp, r.ret.as_ref().unwrap()))
        .collect::<Vec<_>>()
        .join("; ")
}
