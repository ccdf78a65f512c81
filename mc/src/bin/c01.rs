//! C01: persistent vector vs list, under all operation histories up to the bounds.
use mc::dom::{HINTS, hint};
use mc::pv::*;
use mc::{Ctx, Res, W};

type S = St<u32>;

fn sources() -> Vec<S> {
    let mk = |r: &str, b: u32, n| st::<u32>(r, ids(b, n));
    let mut v = vec![
        mk("bulk", 10_000, 0),
        mk("bulk", 10_100, 1),
        mk("bulk", 10_200, 64),
        mk("bulk", 10_300, 65),
        mk("bulk", 10_500, 129),
        mk("push_front", 10_700, 140),
        mk("push_back", 10_900, 140),
        mk("both_ends", 11_100, 150),
        mk("bulk", 20_000, 2120),
    ];
    // a tree representation holding very few elements
    v.push(St { v: mk("bulk", 11_300, 70).v.skip(67), m: ids(11_367, 3) });
    v.push(St { v: mk("bulk", 11_400, 70).v.take(0), m: vec![] });
    // a tree with elements only in its front buffer
    let mut t = mk("bulk", 11_500, 65);
    for _ in 0..65 {
        t.v = t.v.pop_front().expect("pop").0;
        t.m.remove(0);
    }
    for x in [3u32, 2, 1] {
        t.v = t.v.push_front(x);
        t.m.insert(0, x);
    }
    v.push(t);
    v
}

fn inits(sizes: &[usize], routes: &[&str]) -> Vec<(String, S)> {
    let mut r = vec![];
    for n in sizes {
        for route in routes {
            if let Ok(s) = mc::catch(|| st::<u32>(route, ids(1, *n))) {
                r.push((format!("{route}({n})"), s));
            }
        }
    }
    r
}

/// Depth-first exploration of every history of length <= depth from `s`.
fn dfs(w: &mut W, s: &S, path: &mut Vec<Op>, init: &str, depth: usize, fine: bool, srcs: &[S], fresh: u32) {
    if depth == 0 || w.stopped() {
        return;
    }
    for op in alphabet(s.m.len(), fine, srcs.len()) {
        if s.m.len() > 6000 && matches!(op, Op::ConcatSelf) {
            continue;
        }
        path.push(op);
        let mut next = None;
        let mut f = fresh;
        let p = &*path;
        let ok = w.case(
            || format!("{init} {p:?}"),
            |w| {
                let r = apply(w, s, op, srcs, &mut f)?;
                observe(w, &r)?;
                w.state(mc::hash_of(&(&r.m, op)));
                next = Some(r);
                Ok(())
            },
        );
        if ok && let Some(n) = next {
            dfs(w, &n, path, init, depth - 1, fine, srcs, f);
        }
        path.pop();
    }
}

fn explore(c: &Ctx, group: &str, inits: &[(String, S)], depth: usize, fine: bool, srcs: &[S]) {
    c.note(group, &format!("depth {depth}, {} initial vectors, {} alphabet, {} concatenation sources", inits.len(), if fine { "fine" } else { "coarse" }, srcs.len()));
    // split the first level over the cores
    let mut jobs = vec![];
    for (name, s) in inits {
        for op in alphabet(s.m.len(), fine, srcs.len()) {
            jobs.push((name.clone(), s.clone(), op));
        }
    }
    c.par(group, &jobs, |w, (name, s, op)| {
        let mut f = 500_000;
        let mut next = None;
        let ok = w.case(
            || format!("{name} [{op:?}]"),
            |w| {
                observe(w, s)?;
                let r = apply(w, s, *op, srcs, &mut f)?;
                observe(w, &r)?;
                w.state(mc::hash_of(&(&r.m, *op)));
                next = Some(r);
                Ok(())
            },
        );
        if ok && let Some(n) = next {
            dfs(w, &n, &mut vec![*op], name, depth - 1, fine, srcs, f);
        }
    });
}

/// Steps of the cycles: what a long-lived vector goes through again and again.
const STEPS: &[&str] = &[
    "push_back", "push_front", "pop_back", "pop_front", "cat3", "pre3", "cat200", "pre200", "cat3000", "pre3000", "cat_thin", "pre_thin",
    "cat_tall", "pre_tall", "insert", "remove", "rotate", "resplit", "double", "left_half", "right_half", "update",
];

/// Extra sources for the cycles, after the eleven common ones.
fn step_sources() -> Vec<S> {
    let mk = |b: u32, n| St { v: from_model::<u32>(&ids(b, n)), m: ids(b, n) };
    let part = |b: u32, n: usize, i: usize, left: bool| {
        let s = mk(b, n);
        let (l, r) = s.v.split_at(i);
        if left { St { v: l, m: s.m[..i].to_vec() } } else { St { v: r, m: s.m[i..].to_vec() } }
    };
    vec![
        mk(20_000, 3),
        mk(21_000, 200),
        mk(22_000, 3000),
        part(30_000, 3000, 2990, false),
        part(30_000, 3000, 10, true),
        part(100_000, 70_000, 69_990, false),
        part(100_000, 70_000, 10, true),
    ]
}

fn step(name: &str, n: usize) -> Vec<Op> {
    match name {
        "push_back" => vec![Op::PushBack(65)],
        "push_front" => vec![Op::PushFront(65)],
        "pop_back" => vec![Op::PopBack(65)],
        "pop_front" => vec![Op::PopFront(65)],
        "cat3" => vec![Op::ConcatR(0)],
        "pre3" => vec![Op::ConcatL(0)],
        "cat200" => vec![Op::ConcatR(1)],
        "pre200" => vec![Op::ConcatL(1)],
        "cat3000" => vec![Op::ConcatR(2)],
        "pre3000" => vec![Op::ConcatL(2)],
        "cat_thin" => vec![Op::ConcatR(3)],
        "pre_thin" => vec![Op::ConcatL(4)],
        "cat_tall" => vec![Op::ConcatR(5)],
        "pre_tall" => vec![Op::ConcatL(6)],
        "insert" => vec![Op::Insert(n / 2)],
        "remove" if n > 0 => vec![Op::Remove(n / 2)],
        "rotate" => vec![Op::Swap(n / 3)],
        "resplit" => vec![Op::Resplit(n / 3)],
        "double" if n < 8000 => vec![Op::Swap(n / 2), Op::ConcatSelf],
        "left_half" | "double" => vec![Op::SplitL(n / 2)],
        "right_half" => vec![Op::SplitR(n / 2)],
        "update" if n > 0 => vec![Op::Update(n / 2)],
        _ => vec![],
    }
}

/// One cycle of steps, repeated; complete comparison every few steps and at the end.
fn cycle(w: &mut W, start: &S, steps: &[&str], times: usize, srcs: &[S]) -> Res {
    let mut s = start.clone();
    let mut f = 1_000_000;
    for i in 0..times * steps.len() {
        let name = steps[i % steps.len()];
        let ctx = |e| format!("step {i} ({name}): {e}");
        for op in step(name, s.m.len()) {
            s = apply(w, &s, op, srcs, &mut f).map_err(ctx)?;
        }
        if i % 16 == 15 { observe(w, &s) } else { observe_light(w, &s) }.map_err(ctx)?;
        if s.m.len() > 20_000 {
            // bounded: drop all but the last elements
            s = apply(w, &s, Op::Skip(s.m.len() - 500), srcs, &mut f).map_err(ctx)?;
        }
        w.state(mc::hash_of(&(&s.m.len(), s.m.first(), s.m.last())));
    }
    observe(w, &s)
}

fn drain(w: &mut W, s: &S, pat: &str, light: bool) -> Res {
    let mut s = s.clone();
    let mut f = 0;
    let mut i = 0;
    while !s.m.is_empty() {
        let op = match pat {
            "front" => Op::PopFront(1),
            "back" => Op::PopBack(1),
            "alternate" if i % 2 == 0 => Op::PopFront(1),
            "alternate" => Op::PopBack(1),
            "front3_push_back1" if i % 4 == 3 && s.m.len() > 2 => Op::PushBack(1),
            "front3_push_back1" => Op::PopFront(1),
            "back3_push_front1" if i % 4 == 3 && s.m.len() > 2 => Op::PushFront(1),
            "back3_push_front1" => Op::PopBack(1),
            _ => unreachable!(),
        };
        s = apply(w, &s, op, &[], &mut f)?;
        if light && i % 97 != 0 {
            observe_light(w, &s)?;
        } else {
            observe(w, &s)?;
        }
        i += 1;
    }
    // and it can be refilled from either end
    for op in [Op::PushFront(1), Op::PushBack(70), Op::PushFront(70), Op::PopFront(1), Op::PopBack(1)] {
        s = apply(w, &s, op, &[], &mut f)?;
        observe(w, &s)?;
    }
    Ok(())
}

/// Operations that yield a vector, with what they yield.
const DERIVED: &[&str] = &[
    "from_slice", "from_hinted", "extend_hinted", "flat_map_hinted", "from_vec", "policy", "extend_new", "unit_concat", "map", "fmap", "fmap_owned", "filter", "filter_map", "flat_map",
    "dedup", "sorted", "zip", "partition_yes", "partition_no", "chunk_first", "chunk_last", "into_vec", "into_iter", "iter_rev",
    "combine", "combine_owned", "combine_all", "clone_pushed", "fold_push",
];

fn derive(d: &str, s: &S) -> S {
    use rustica::prelude::{Functor, Monoid, Semigroup};
    let (v, m) = (&s.v, s.m.clone());
    let n = m.len();
    match d {
        "from_slice" => St { v: PV::from_slice(&m), m },
        "from_hinted" => {
            let all: Vec<PV<u32>> = HINTS.map(|h| hint(m.clone(), h).collect()).collect();
            assert!(all.iter().all(|a| a == v), "collecting depends on the size hint");
            St { v: all[2].clone(), m }
        },
        "extend_hinted" => {
            let mut t = v.clone();
            let mut k = m.clone();
            for h in HINTS {
                let more = ids(50_000 + 1000 * h as u32, (n % 70) + 1);
                t.extend(hint(more.clone(), h));
                k.extend(more);
            }
            St { v: t, m: k }
        },
        "flat_map_hinted" => {
            let part = |x: &u32| ids(*x, (*x % 4) as usize);
            St { v: v.flat_map(|x| hint(part(x), (*x % 5) as u8)), m: m.iter().flat_map(part).collect() }
        },
        "from_vec" => St { v: PV::from(m.clone()), m },
        "policy" => St { v: PV::from_slice_with_cache_policy(&m, ()), m },
        "extend_new" => {
            let mut t = PV::with_cache_policy(());
            t.extend(v.iter().copied());
            St { v: t, m }
        },
        "unit_concat" => St { v: PV::unit(7).concat(v), m: [&[7], &m[..]].concat() },
        "map" => St { v: v.map(|x| x + 1), m: m.iter().map(|x| x + 1).collect() },
        "fmap" => St { v: v.fmap(|x| x + 1), m: m.iter().map(|x| x + 1).collect() },
        "fmap_owned" => St { v: v.clone().fmap_owned(|x| x + 1), m: m.iter().map(|x| x + 1).collect() },
        "filter" => St { v: v.filter(|x| x % 3 != 0), m: m.into_iter().filter(|x| x % 3 != 0).collect() },
        "filter_map" => St { v: v.filter_map(|x| (x % 2 == 0).then_some(x * 2)), m: m.iter().filter(|x| *x % 2 == 0).map(|x| x * 2).collect() },
        "flat_map" => St { v: v.flat_map(|x| vec![*x; (*x % 3) as usize]), m: m.iter().flat_map(|x| vec![*x; (*x % 3) as usize]).collect() },
        "dedup" => {
            let h = |x: &u32| x / 2;
            let mut k: Vec<u32> = m.iter().map(h).collect();
            k.dedup();
            St { v: v.map(h).dedup(), m: k }
        },
        "sorted" => {
            let h = |x: &u32| x.wrapping_mul(7919) % 1009;
            let mut k: Vec<u32> = m.iter().map(h).collect();
            k.sort();
            St { v: v.map(h).sorted(), m: k }
        },
        "zip" => {
            let short = v.skip(n / 3);
            St { v: v.zip(&short).map(|p| p.0 * 1000 + p.1), m: m.iter().zip(&m[n / 3..]).map(|p| p.0 * 1000 + p.1).collect() }
        },
        "partition_yes" => St { v: v.partition(|x| x % 3 == 0).0, m: m.into_iter().filter(|x| x % 3 == 0).collect() },
        "partition_no" => St { v: v.partition(|x| x % 3 == 0).1, m: m.into_iter().filter(|x| x % 3 != 0).collect() },
        "chunk_first" | "chunk_last" => {
            let k = (n / 2 + 1).min(70);
            let c = v.chunk(k);
            let mut want: Vec<Vec<u32>> = m.chunks(k).map(|x| x.to_vec()).collect();
            if n == 0 {
                assert!(c.is_empty(), "chunks of an empty vector");
                return St { v: PV::new(), m };
            }
            let i = if d == "chunk_first" { 0 } else { want.len() - 1 };
            assert_eq!(c.len(), want.len(), "number of chunks");
            St { v: c[i].clone(), m: want.swap_remove(i) }
        },
        "into_vec" => St { v: PV::from(Vec::from(v.clone())), m },
        "into_iter" => St { v: v.clone().into_iter().collect(), m },
        "iter_rev" => {
            let mut t: Vec<u32> = v.iter().copied().collect();
            t.reverse();
            St { v: PV::from(t), m: m.into_iter().rev().collect() }
        },
        "combine" => St { v: v.combine(v), m: [&m[..], &m].concat() },
        "combine_owned" => St { v: v.clone().combine_owned(PV::unit(9)), m: [&m[..], &[9]].concat() },
        "combine_all" => St { v: rustica::traits::monoid::combine_all([v.clone(), PV::empty(), PV::unit(5), v.clone()]), m: [&m[..], &[5], &m].concat() },
        "clone_pushed" => St { v: v.clone().push_back(3).push_front(4), m: [&[4], &m[..], &[3]].concat() },
        "fold_push" => St { v: v.fold(PV::new(), |t, x| t.push_front(*x)), m: m.into_iter().rev().collect() },
        _ => unreachable!(),
    }
}

fn main() {
    mc::run("C01", |c| {
        let srcs = match mc::catch(sources) {
            Ok(s) => s,
            Err(e) => {
                c.seq("sources", |w| {
                    w.case(|| "building the concatenation sources".into(), |_| Err(e));
                });
                return;
            },
        };
        c.assume("element type is a machine integer; element values do not influence the vector's control flow");
        c.assume("histories are exhaustive up to the stated depth over the stated alphabet; arguments are taken at and around capacity boundaries and, in group every_position, at every position");

        // every construction route gives the contents it was asked for
        let sizes: Vec<usize> = (0..=c.pick(330, 1200)).chain([2047, 2048, 2049, 2111, 2112, 2113, 2176, 2177, 4096, 4160]).collect();
        let mut jobs = vec![];
        for n in &sizes {
            for r in ROUTES {
                jobs.push((*r, *n));
            }
        }
        c.note("routes", "every construction route x every length up to the bound and around the fan-out capacity");
        c.par("routes", &jobs, |w, (r, n)| {
            w.case(|| format!("{r}({n})"), |w| {
                let s = st::<u32>(r, ids(1, *n));
                w.state(mc::hash_of(&(r, n)));
                observe(w, &s)
            });
        });

        // single operations at every position of every length up to the bound
        let lim = c.pick(260usize, 420);
        let mut jobs = vec![];
        for n in 0..=lim {
            for r in ["bulk", "push_back", "push_front", "both_ends", "concat_halves", "left_nested_concat", "popped_front", "popped_back", "rotated"] {
                if n % c.pick(3, 1) == 0 || n.is_multiple_of(64) || n % 64 == 1 || n % 64 == 63 {
                    jobs.push((r, n));
                }
            }
        }
        c.note("every_position", "split, split+rejoin, rotate, insert, remove, update at every position");
        c.par("every_position", &jobs, |w, (r, n)| {
            let Ok(s) = mc::catch(|| st::<u32>(r, ids(1, *n))) else { return };
            for i in 0..=*n {
                for op in [Op::SplitL(i), Op::SplitR(i), Op::Resplit(i), Op::Swap(i), Op::Insert(i), Op::Remove(i), Op::Update(i)] {
                    let mut f = 500_000;
                    w.case(|| format!("{r}({n}) [{op:?}]"), |w| {
                        let t = apply(w, &s, op, &[], &mut f)?;
                        observe(w, &t)
                    });
                }
            }
        });

        // every operation that yields a vector: the result is a fully working vector
        let mut jobs = vec![];
        for n in c.pick(vec![0usize, 1, 2, 5, 63, 64, 65, 66, 127, 128, 129, 130, 193, 260], (0..=300).chain([2112, 2113, 2200]).collect()) {
            for r in ROUTES {
                jobs.push((*r, n));
            }
        }
        c.note("derived", "every construction route x every other operation that yields a vector (map, filter, partition, chunk, zip, dedup, sorted, conversions, ...), the result put through the fine alphabet");
        c.par("derived", &jobs, |w, (r, n)| {
            let Ok(s) = mc::catch(|| st::<u32>(r, ids(1, *n))) else { return };
            for d in DERIVED {
                w.case(|| format!("{r}({n}) {d}"), |w| {
                    let t = derive(d, &s);
                    observe(w, &t)?;
                    for op in alphabet(t.m.len(), *n <= 2 || *n % 64 < 2, 3) {
                        let mut f = 500_000;
                        let ctx = |e| format!("then {op:?}: {e}");
                        let u = apply(w, &t, op, &srcs, &mut f).map_err(ctx)?;
                        observe(w, &u).map_err(ctx)?;
                    }
                    // and the original is what it was
                    observe(w, &s)
                });
            }
        });

        // concatenation of every pair of shapes
        let mut shapes: Vec<(String, S)> = inits(&[0, 1, 63, 64, 65, 70, 128, 129, 193, 260], ROUTES);
        shapes.extend(inits(&[2049, 2113, 2300], &["bulk", "push_front", "both_ends"]));
        c.note("concat_pairs", "all ordered pairs of shapes; the result is then split in the middle and popped from both ends");
        c.par("concat_pairs", &shapes, |w, (na, a)| {
            for (nb, b) in &shapes {
                if c.tier == mc::Tier::Quick && (a.m.len() + b.m.len()) % 2 == 1 && a.m.len() + b.m.len() > 400 {
                    continue;
                }
                w.case(|| format!("{na} ++ {nb}"), |w| {
                    let mb: Vec<u32> = b.m.iter().map(|x| x + 100_000).collect();
                    let b2 = St { v: b.v.map(|x| x + 100_000), m: mb };
                    let _ = b2; // shape of a mapped vector is the bulk one; use the original shape below
                    let mut f = 500_000;
                    let t = apply(w, a, Op::ConcatR(0), std::slice::from_ref(b), &mut f)?;
                    observe(w, &t)?;
                    for op in [Op::PopBack(1), Op::PopFront(1), Op::SplitR(t.m.len() / 2), Op::SplitL(t.m.len() / 2), Op::PushFront(1), Op::PushBack(1)] {
                        let t = apply(w, &t, op, &[], &mut f)?;
                        observe(w, &t)?;
                    }
                    Ok(())
                });
            }
        });

        // histories, fine alphabet
        let routes_small = ["bulk", "push_front", "both_ends", "left_nested_concat", "popped_front"];
        explore(c, "histories_fine", &inits(c.pick(&[0, 2, 63, 64, 65, 66, 128, 130, 193][..], &[0, 1, 2, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193]), &routes_small), 2, true, &srcs[..c.pick(8, srcs.len())]);
        // histories, coarse alphabet, deeper
        let few: Vec<S> = [3usize, 5, 9, 10, 11].iter().map(|i| srcs[*i].clone()).collect();
        explore(c, "histories_coarse", &inits(&[0, 64, 129], &["bulk", "push_front"]), c.pick(4, 5), false, &few);
        explore(c, "histories_ends", &inits(&[62, 127], &["bulk", "push_front"]), 2, false, &few);

        explore(c, "histories_deep", &inits(&[2047, 2112, 2113, 4161, 4300], &["bulk", "push_front", "push_back", "left_nested_concat", "both_ends"]), c.pick(2, 3), false, &few);
        // long runs from and to empty
        let mut jobs = vec![];
        for n in c.pick(vec![70usize, 200, 400, 2200, 4300], vec![70, 200, 400, 700, 2200, 4300]) {
            for r in ROUTES {
                for p in ["front", "back", "alternate", "front3_push_back1", "back3_push_front1"] {
                    jobs.push((*r, n, p));
                }
            }
        }
        for r in ["bulk", "push_front", "concat_halves", "both_ends"] {
            for p in ["front", "back", "alternate"] {
                jobs.push((r, 66_000, p));
            }
        }
        c.note("drain", "every construction route drained completely under every pop pattern, checked after every step, then refilled");
        c.par("drain", &jobs, |w, (r, n, p)| {
            w.case(|| format!("{r}({n}) drained {p}"), |w| {
                let s = st::<u32>(r, ids(1, *n));
                drain(w, &s, p, *n > 800)
            });
        });

        // big trees: more than one level of full nodes
        let mut big = inits(&[2048, 2112, 2113, 2300], &["bulk", "push_back", "push_front"]);
        big.extend(inits(&[66_000], if c.thorough() { &["bulk", "push_back", "push_front"][..] } else { &["bulk"][..] }));
        let mut jobs = vec![];
        for (n, s) in &big {
            for op in alphabet(s.m.len(), true, srcs.len()) {
                jobs.push((n.clone(), s.clone(), op));
            }
            for i in [2047, 2048, 2049, 2111, 2112, 2113] {
                for op in [Op::SplitL(i), Op::SplitR(i), Op::Resplit(i), Op::Insert(i), Op::Remove(i), Op::Update(i)] {
                    if i < s.m.len() {
                        jobs.push((n.clone(), s.clone(), op));
                    }
                }
            }
        }
        // one more level: more than 64 * 32 * 32 * 32 elements
        for (n, s) in inits(&[2_097_300], if c.thorough() { &["bulk", "push_back", "push_front"][..] } else { &["bulk"][..] }) {
            let k = s.m.len();
            let mut ops = vec![Op::PushBack(65), Op::PushFront(65), Op::PopBack(220), Op::PopFront(130), Op::ConcatSelf, Op::Extend(70), Op::ConcatR(3), Op::ConcatL(3)];
            for i in [0, 65_536, 2_097_151, 2_097_152, k / 2, k - 1] {
                ops.extend([Op::SplitL(i), Op::SplitR(i), Op::Insert(i), Op::Remove(i), Op::Update(i)]);
            }
            jobs.extend(ops.into_iter().map(|op| (n.clone(), s.clone(), op)));
        }
        c.note("big", "one operation (fine alphabet) then one pop and push at each end, on vectors of 2048..66000 elements and, for a part of the alphabet, 2097300 elements (five levels of nodes)");
        c.par("big", &jobs, |w, (n, s, op)| {
            w.case(|| format!("{n} [{op:?}]"), |w| {
                let mut f = 500_000;
                let t = apply(w, s, *op, &srcs, &mut f)?;
                observe(w, &t)?;
                for op in [Op::PopBack(1), Op::PopFront(1), Op::PushFront(1), Op::PushBack(1)] {
                    let t = apply(w, &t, op, &[], &mut f)?;
                    observe_light(w, &t)?;
                }
                Ok(())
            });
        });

        // long lives: every cycle of steps, again and again, on threads with a stack of 1 MiB
        let mut seqs: Vec<Vec<&str>> = vec![];
        for a in STEPS {
            seqs.push(vec![a]);
            for b in STEPS.iter().filter(|b| *b != a) {
                seqs.push(vec![a, b]);
                for d in STEPS.iter().filter(|d| *d != a && *d != b) {
                    seqs.push(vec![a, b, d]);
                }
            }
        }
        let ss = step_sources();
        let starts = inits(c.pick(&[300][..], &[0, 300, 2300]), c.pick(&["bulk"][..], &["bulk", "both_ends"]));
        let total = c.pick(96, 600);
        let jobs: Vec<_> = starts.iter().flat_map(|s| seqs.iter().map(move |q| (s, q))).collect();
        c.note("cycles", &format!("every sequence of 1..3 different steps out of {} (pushes, pops, concatenations with small, large, thin and tall vectors, inserts, removes, rotations, halvings), repeated to {total} steps, on a stack of 1 MiB", STEPS.len()));
        c.par_stack("cycles", &jobs, 1 << 20, |w, ((n, s), q)| {
            w.case(|| format!("{n} {q:?} repeated"), |w| cycle(w, s, q, total / q.len(), &ss));
        });

        // grown one element at a time to a million, then every operation, on a small stack
        c.note("tall", "1.2 million single pushes (back, front, both), then one of every operation, on a stack of 512 KiB");
        c.par_stack("tall", &["back", "front", "both"], 512 << 10, |w, p| {
            let n = 1_200_000u32;
            let mut s: S = St { v: PV::new(), m: vec![] };
            let chunks = 12;
            for k in 0..chunks {
                w.case(|| format!("{p}: pushes up to {}", n / chunks * (k + 1)), |w| {
                    for i in n / chunks * k..n / chunks * (k + 1) {
                        let front = *p == "front" || *p == "both" && i % 2 == 0;
                        s.v = if front { s.v.push_front(i) } else { s.v.push_back(i) };
                    }
                    let n = n / chunks * (k + 1);
                    s.m = match *p {
                        "back" => (0..n).collect(),
                        "front" => (0..n).rev().collect(),
                        _ => (0..n).step_by(2).collect::<Vec<_>>().into_iter().rev().chain((1..n).step_by(2)).collect(),
                    };
                    observe(w, &s)
                });
            }
            let k = s.m.len();
            let mut ops = vec![Op::PushBack(65), Op::PushFront(65), Op::PopBack(130), Op::PopFront(130), Op::ConcatSelf, Op::Extend(70), Op::ConcatR(3), Op::ConcatL(3)];
            for i in [0, 100, k / 2, k.saturating_sub(1)] {
                ops.extend([Op::Swap(i), Op::Insert(i), Op::Remove(i), Op::Update(i)]);
            }
            for op in ops {
                w.case(|| format!("{p}: {k} elements, {op:?}"), |w| {
                    let mut f = 2_000_000;
                    let t = apply(w, &s, op, &ss, &mut f)?;
                    observe(w, &t)
                });
            }
        });

        // long single-element growth: every intermediate version checked at its ends
        c.note("growth", "single pushes to the bound, at the back, at the front, alternating; light check after each, full check every 61 steps");
        let bound = c.pick(2600, 9000);
        c.par("growth", &["back", "front", "alternate", "concat1", "concat1_left", "insert_mid"], |w, p| {
            w.case(|| format!("{p} to {bound}"), |w| {
                let mut s: S = St { v: PV::new(), m: vec![] };
                let mut f = 0;
                let one = st::<u32>("bulk", vec![7]);
                let lim = if matches!(*p, "concat1" | "concat1_left" | "insert_mid") { 700 } else { bound };
                for i in 0..lim {
                    let op = match *p {
                        "back" => Op::PushBack(1),
                        "front" => Op::PushFront(1),
                        "concat1" => Op::ConcatR(0),
                        "concat1_left" => Op::ConcatL(0),
                        "insert_mid" => Op::Insert(s.m.len() / 2),
                        _ if i % 2 == 0 => Op::PushBack(1),
                        _ => Op::PushFront(1),
                    };
                    s = apply(w, &s, op, std::slice::from_ref(&one), &mut f)?;
                    if i % 61 == 0 { observe(w, &s)? } else { observe_light(w, &s)? }
                    w.add_cases(0);
                }
                observe(w, &s)
            });
        });
    })
}
