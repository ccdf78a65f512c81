//! C02: old versions never change. Version trees over instrumented elements.
use mc::live::{self, Live};
use mc::pv::*;
use mc::{Res, W};

type S = St<Live>;

fn inits() -> Vec<(String, S)> {
    let mut r = vec![];
    for (route, n) in [("bulk", 3usize), ("bulk", 64), ("push_front", 70), ("bulk", 130), ("both_ends", 140), ("concat_halves", 150), ("left_nested_concat", 200)] {
        r.push((format!("{route}({n})"), st::<Live>(route, ids(1, n))));
    }
    r
}

fn ops(n: usize, nsrc: usize) -> Vec<Op> {
    let mut o = vec![Op::PushBack(1), Op::PushFront(1), Op::PopBack(1), Op::PopFront(1), Op::PushBack(65), Op::PushFront(65), Op::PopBack(66), Op::PopFront(66), Op::ConcatSelf, Op::Extend(2)];
    for i in [0, 1, 64, 65, n / 2, n.saturating_sub(1)] {
        if i < n {
            o.extend([Op::Update(i), Op::Insert(i), Op::Remove(i), Op::SplitL(i), Op::SplitR(i), Op::Swap(i)]);
        }
    }
    for j in 0..nsrc {
        o.extend([Op::ConcatR(j), Op::ConcatL(j)]);
    }
    let mut seen = std::collections::HashSet::new();
    o.retain(|x| seen.insert(*x));
    o
}

fn deep_ops(n: usize) -> Vec<Op> {
    let mut o = vec![];
    for k in [1, 65, 130] {
        o.extend([Op::PushBack(k), Op::PushFront(k), Op::PopBack(k), Op::PopFront(k)]);
    }
    o.extend([Op::Extend(70), Op::ConcatSelf, Op::ConcatR(0), Op::ConcatL(0), Op::ConcatR(1), Op::ConcatL(1)]);
    for i in [0, 63, 64, 100, 1000, 2047, 2048, 2112, n / 2, n.saturating_sub(2113), n.saturating_sub(65), n.saturating_sub(1)] {
        if i < n {
            o.extend([Op::Update(i), Op::Insert(i), Op::Remove(i), Op::SplitL(i), Op::SplitR(i), Op::Swap(i)]);
        }
    }
    o
}

/// Explores every history below `versions.last()`; after each step every version on the
/// path and every concatenation source must still show its own contents.
fn dfs(w: &mut W, versions: &mut Vec<S>, srcs: &[S], path: &mut Vec<Op>, init: &str, depth: usize, fresh: u32) {
    if depth == 0 || w.stopped() {
        return;
    }
    let at = versions.len() - 1;
    let base = live::count();
    for op in ops(versions[at].m.len(), srcs.len()) {
        path.push(op);
        let mut f = fresh;
        let mut next = None;
        let p = &*path;
        // once while the version is also held by a clone ...
        w.case(|| format!("{init} {p:?} on a cloned version"), |w| {
            let keep = versions[at].clone();
            if apply(w, &versions[at], op, srcs, &mut fresh.clone()).is_err() {
                return Ok(());
            }
            observe(w, &keep).map_err(|e| format!("the clone changed: {e}"))?;
            observe(w, &versions[at]).map_err(|e| format!("version {at} changed: {e}"))
        });
        // ... and once while its only owner is this history
        let ok = w.case(|| format!("{init} {p:?}"), |w| {
            // a wrong result is C01's business: here only versions matter
            let Ok(r) = apply(w, &versions[at], op, srcs, &mut f) else { return Ok(()) };
            for (k, v) in versions.iter().enumerate() {
                observe(w, v).map_err(|e| format!("version {k} changed: {e}"))?;
            }
            for (k, v) in srcs.iter().enumerate() {
                observe(w, v).map_err(|e| format!("concatenation source {k} changed: {e}"))?;
            }
            w.state(mc::hash_of(&(&r.m, op)));
            if observe(w, &r).is_ok() {
                next = Some(r);
            }
            Ok(())
        });
        if ok && let Some(n) = next {
            versions.push(n);
            dfs(w, versions, srcs, path, init, depth - 1, f);
            versions.pop();
        }
        // descendants dropped: versions intact, nothing leaked or dropped twice
        let p = &*path;
        w.case(|| format!("{init} {p:?} dropped"), |w| {
            observe(w, versions.last().unwrap()).map_err(|e| format!("version changed after its descendants were dropped: {e}"))?;
            if let Some(b) = live::take_bad() {
                return Err(b);
            }
            if live::count() != base {
                return Err(format!("{} element instances alive, {} before the step", live::count(), base));
            }
            Ok(())
        });
        path.pop();
    }
}

fn orders(w: &mut W, order: &[usize]) -> Res {
    // a chain of six versions sharing structure, dropped in the given order
    let base = live::count();
    let mut f = 500_000;
    let mut vs: Vec<Option<S>> = vec![];
    {
        let mut s = st::<Live>("bulk", ids(1, 140));
        for op in [Op::PushBack(1), Op::PushFront(66), Op::Update(100), Op::SplitR(70), Op::ConcatSelf] {
            match apply(w, &s, op, &[], &mut f) {
                Ok(n) => vs.push(Some(std::mem::replace(&mut s, n))),
                Err(_) => break,
            }
        }
        vs.push(Some(s));
    }
    for i in order {
        if *i < vs.len() {
            vs[*i] = None;
        }
        for (k, v) in vs.iter().enumerate() {
            if let Some(v) = v {
                observe(w, v).map_err(|e| format!("version {k} changed after dropping {i}: {e}"))?;
            }
        }
        if let Some(b) = live::take_bad() {
            return Err(b);
        }
    }
    drop(vs);
    if live::count() != base {
        return Err(format!("{} element instances leaked", live::count() - base));
    }
    Ok(())
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

#[derive(Clone, Debug)]
enum Job {
    Op(Op),
    Bulk(&'static str),
}
const BULK: &[&str] = &["map", "filter", "filter_map", "flat_map", "fold", "partition", "dedup", "sorted", "zip", "chunk", "to_vec", "into_iter", "collect", "from_slice", "==", "cmp"];
/// What an operation yields, or nothing if it panicked.
fn perform(w: &mut W, s: &S, job: &Job, srcs: &[S]) -> Result<Vec<u32>, ()> {
    use live::burn;
    mc::catch(|| {
        let v = &s.v;
        let flat = |v: &mc::pv::PV<Live>| v.iter().map(|x| x.v).collect::<Vec<u32>>();
        match job {
            Job::Op(op) => {
                let mut f = 700_000;
                apply(w, s, *op, srcs, &mut f).map(|r| r.m)
            },
            Job::Bulk("map") => Ok(flat(&v.map(|x| {
                burn();
                x.clone()
            }))),
            Job::Bulk("filter") => Ok(flat(&v.filter(|x| {
                burn();
                x.v % 3 != 0
            }))),
            Job::Bulk("filter_map") => Ok(flat(&v.filter_map(|x| {
                burn();
                (x.v % 3 != 0).then(|| x.clone())
            }))),
            Job::Bulk("flat_map") => Ok(flat(&v.flat_map(|x| {
                burn();
                vec![x.clone(); (x.v % 3) as usize]
            }))),
            Job::Bulk("fold") => Ok(vec![v.fold(0, |a: u32, x| {
                burn();
                a.wrapping_mul(31).wrapping_add(x.v)
            })]),
            Job::Bulk("partition") => {
                let (a, b) = v.partition(|x| {
                    burn();
                    x.v % 3 == 0
                });
                Ok([flat(&a), flat(&b)].concat())
            },
            Job::Bulk("dedup") => Ok(flat(&v.dedup())),
            Job::Bulk("sorted") => Ok(flat(&v.sorted())),
            Job::Bulk("zip") => Ok(v.zip(v).iter().map(|x| x.0.v + x.1.v).collect()),
            Job::Bulk("chunk") => Ok(v.chunk(7).iter().flat_map(|c| c.iter().map(|x| x.v).collect::<Vec<_>>()).collect()),
            Job::Bulk("to_vec") => Ok(v.to_vec().iter().map(|x| x.v).collect()),
            Job::Bulk("into_iter") => Ok(v.clone().into_iter().map(|x| x.v).collect()),
            Job::Bulk("collect") => Ok(flat(&v.iter().map(|x| x.clone()).collect())),
            Job::Bulk("from_slice") => Ok(flat(&mc::pv::PV::from_slice(&v.to_vec()))),
            Job::Bulk("==") => Ok(vec![(*v == s.v.clone()) as u32]),
            _ => Ok(vec![v.cmp(&s.v.clone()) as i32 as u32]),
        }
    })
    .and_then(|r| r)
    .map_err(|_| ())
}
fn main() {
    mc::run("C02", |c| {
        c.assume("instances of the instrumented element are created and dropped on one thread");
        let depth = c.pick(3, 4);
        c.note("version_tree", &format!("all histories to depth {depth}; all versions on the path and all sources re-read after every step and after dropping descendants"));
        let n_init = inits().len();
        let n_ops = 60;
        let mut jobs = vec![];
        for i in 0..n_init {
            for k in 0..n_ops {
                jobs.push((i, k));
            }
        }
        c.par("version_tree", &jobs, |w, (i, k)| {
            // every worker builds its own vectors: instances never cross threads
            let (name, s) = inits().swap_remove(*i);
            let srcs = vec![st::<Live>("bulk", ids(10_000, 66)), st::<Live>("push_front", ids(11_000, 135))];
            let all = ops(s.m.len(), srcs.len());
            let Some(op) = all.get(*k).copied() else { return };
            let mut f = 500_000;
            let mut next = None;
            w.case(|| format!("{name} [{op:?}]"), |w| {
                let Ok(r) = apply(w, &s, op, &srcs, &mut f) else { return Ok(()) };
                observe(w, &s).map_err(|e| format!("original changed: {e}"))?;
                for v in &srcs {
                    observe(w, v).map_err(|e| format!("concatenation source changed: {e}"))?;
                }
                if observe(w, &r).is_ok() {
                    next = Some(r);
                }
                Ok(())
            });
            if let Some(r) = next {
                let mut versions = vec![s, r];
                dfs(w, &mut versions, &srcs, &mut vec![op], &name, depth - 1, f);
            }
        });
        // trees of several levels, where branches are shared below the root
        let mut deep = vec![];
        for (route, n) in [("bulk", 2113usize), ("push_back", 2300), ("push_front", 2300), ("concat_halves", 4300), ("both_ends", 4170), ("popped_front", 2500), ("left_nested_concat", 2400)] {
            deep.push((route, n, c.pick(24, 80)));
        }
        for route in c.pick(&["bulk", "push_front"][..], &["bulk", "push_front", "push_back", "concat_halves"]) {
            deep.push((route, 66_000, c.pick(6, 15)));
        }
        let mut jobs = vec![];
        for (route, n, breadth) in deep {
            let Ok(s) = mc::catch(|| std::sync::Arc::new(st::<u32>(route, ids(1, n)))) else { continue };
            for op in deep_ops(n) {
                jobs.push((route, n, breadth, s.clone(), op));
            }
        }
        let srcs = [st::<u32>("bulk", ids(1_000_000, 66)), st::<u32>("push_front", ids(1_100_000, 2200))];
        c.note("deep", "two operations in a row at every kind of position on vectors of 2113..66000 elements (three and four levels); the original, the intermediate version and the sources re-read after each");
        c.par("deep", &jobs, |w, (route, n, breadth, s, op)| {
            let mut f = 5_000_000;
            let mut next = None;
            w.case(|| format!("{route}({n}) [{op:?}]"), |w| {
                let Ok(r) = apply(w, s, *op, &srcs, &mut f) else { return Ok(()) };
                observe(w, s).map_err(|e| format!("original changed: {e}"))?;
                if observe(w, &r).is_ok() {
                    next = Some(r);
                }
                Ok(())
            });
            let Some(r) = next else { return };
            let all = deep_ops(r.m.len());
            for op2 in all.iter().step_by(all.len().div_ceil(*breadth)) {
                w.case(|| format!("{route}({n}) [{op:?}, {op2:?}]"), |w| {
                    if apply(w, &r, *op2, &srcs, &mut f).is_err() {
                        return Ok(());
                    }
                    observe(w, s).map_err(|e| format!("original changed: {e}"))?;
                    observe(w, &r).map_err(|e| format!("intermediate version changed: {e}"))?;
                    if matches!(op2, Op::ConcatR(_) | Op::ConcatL(_)) {
                        for v in &srcs {
                            observe(w, v).map_err(|e| format!("concatenation source changed: {e}"))?;
                        }
                    }
                    Ok(())
                });
                // the same operation on the original, which shares its tree with both
                w.case(|| format!("{route}({n}) [{op:?}] and [{op2:?}]"), |w| {
                    if apply(w, s, *op2, &srcs, &mut f).is_err() {
                        return Ok(());
                    }
                    observe(w, s).map_err(|e| format!("original changed: {e}"))?;
                    observe(w, &r).map_err(|e| format!("sibling version changed: {e}"))
                });
                if w.stopped() {
                    return;
                }
            }
        });
        c.note("drop_orders", "a chain of six versions dropped in each of the 720 orders");
        c.par("drop_orders", &perms(6), |w, o| {
            w.case(|| format!("{o:?}"), |w| orders(w, o));
        });
        // element code or a function that panics in the middle of an operation
        c.note("panicking elements and functions", "every operation of the alphabet and every bulk operation on vectors of 1-2113 instrumented elements, where one clone, comparison or function call panics (the first ones, the last ones, evenly spaced ones): the original, a clone, a sibling and the operands re-read afterwards, then the operation repeated undisturbed");
        let mut jobs = vec![];
        for r in ["bulk", "push_front", "concat_halves", "both_ends"] {
            for n in [1usize, 2, 65, 130, 200, 2113] {
                jobs.push((r, n));
            }
        }
        let points = c.pick(9, 30);
        c.par("panicking elements and functions", &jobs, |w, (r, n)| {
            let base = live::count();
            let run = |w: &mut W| -> Res {
                let Ok(s) = mc::catch(|| st::<Live>(r, ids(1, *n))) else { return Ok(()) };
                if observe(w, &s).is_err() {
                    return Ok(());
                }
                let mut f = 500_000;
                let sibling = apply(w, &s, Op::PushBack(1), &[], &mut f).ok();
                let copy = s.clone();
                let srcs = vec![st::<Live>("bulk", ids(10_000, 66)), st::<Live>("push_front", ids(11_000, 135))];
                let mut all: Vec<Job> = alphabet(*n, false, srcs.len()).into_iter().map(Job::Op).collect();
                all.extend([Job::Op(Op::Extend(70)), Job::Op(Op::Take(n / 2)), Job::Op(Op::Skip(n / 2)), Job::Op(Op::Swap(n / 2))]);
                all.extend(BULK.iter().map(|b| Job::Bulk(b)));
                for job in all {
                    // how many steps does it take when nothing goes wrong?
                    live::arm(Some(usize::MAX));
                    let clean = perform(w, &s, &job, &srcs);
                    let steps = usize::MAX - live::left().unwrap_or(usize::MAX);
                    live::arm(None);
                    if clean.is_err() {
                        continue;
                    }
                    let mut at: Vec<usize> = [0, 1, 2, steps.wrapping_sub(2), steps.wrapping_sub(1)].into_iter().chain((1..points).map(|i| steps * i / points)).filter(|k| *k < steps).collect();
                    at.sort();
                    at.dedup();
                    for k in at {
                        live::arm(Some(k));
                        let broken = perform(w, &s, &job, &srcs);
                        live::arm(None);
                        let what = |x: &str, e: String| format!("{job:?}, panic at step {k} of {steps}: {x}: {e}");
                        w.op(1);
                        observe(w, &s).map_err(|e| what("original changed", e))?;
                        observe(w, &copy).map_err(|e| what("clone changed", e))?;
                        if let Some(x) = &sibling {
                            observe(w, x).map_err(|e| what("sibling version changed", e))?;
                        }
                        for v in &srcs {
                            observe(w, v).map_err(|e| what("source changed", e))?;
                        }
                        if let Some(b) = live::take_bad() {
                            return Err(what("instances", b));
                        }
                        drop(broken);
                        if let Some(b) = live::take_bad() {
                            return Err(what("instances", b));
                        }
                    }
                    let again = perform(w, &s, &job, &srcs);
                    w.same("the same operation, undisturbed", &again, &clean).map_err(|e| format!("{job:?}: {e}"))?;
                }
                Ok(())
            };
            w.case(|| format!("{r}({n})"), run);
            let _ = base;
        });
        // a version abandoned part way through iteration or popped to nothing stays intact
        c.par("consuming", ROUTES, |w, r| {
            for n in [1usize, 64, 65, 130, 200] {
                w.case(|| format!("{r}({n})"), |w| {
                    let base = live::count();
                    {
                        let s = st::<Live>(r, ids(1, n));
                        if observe(w, &s).is_err() {
                            return Ok(());
                        }
                        for k in [0, 1, n / 2, n] {
                            let mut it = s.v.clone().into_iter();
                            for _ in 0..k {
                                it.next();
                            }
                            drop(it);
                            observe(w, &s)?;
                        }
                        let mut t = s.clone();
                        while let Some((v, _)) = t.v.pop_back() {
                            t.v = v;
                        }
                        observe(w, &s)?;
                        let m = s.v.map(|x| Live::new(x.v + 1));
                        drop(s);
                        w.same("mapped length", &m.len(), &n)?;
                    }
                    if let Some(b) = live::take_bad() {
                        return Err(b);
                    }
                    w.same("live instances", &live::count(), &base)
                });
            }
        });
    })
}
