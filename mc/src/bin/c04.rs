//! C04: traversals and bulk operations of the persistent vector vs list semantics.
use mc::dom::{full, seqs, Tie};
use mc::pv::*;
use mc::{Res, W};
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;

type V = PV<u32>;

fn bulk(w: &mut W, v: &V, m: &[u32]) -> Res {
    let vec = m.to_vec();
    w.same("to_vec", &lst(v), &vec)?;
    w.same("Vec::from", &Vec::from(v.clone()), &vec)?;
    w.same("into_iter", &v.clone().into_iter().collect::<Vec<_>>(), &vec)?;
    w.same("&into_iter", &(v).into_iter().copied().collect::<Vec<_>>(), &vec)?;
    w.same("try_value", &Identity::try_value(v), &m.first())?;
    w.same("try_into_value", &Identity::try_into_value(v.clone()), &m.first().copied())?;
    if !m.is_empty() {
        w.same("value", &(*Identity::value(v), Identity::into_value(v.clone())), &(m[0], m[0]))?;
    }
    w.same("map", &lst(&v.map(|x| x * 3 + 1)), &vec.iter().map(|x| x * 3 + 1).collect::<Vec<_>>())?;
    w.same("map to other type", &lst(&v.map(|x| x.to_string())), &vec.iter().map(|x| x.to_string()).collect::<Vec<_>>())?;
    w.same("fmap", &lst(&v.fmap(|x| x + 1)), &vec.iter().map(|x| x + 1).collect::<Vec<_>>())?;
    w.same("fmap_owned", &lst(&v.clone().fmap_owned(|x| x + 1)), &vec.iter().map(|x| x + 1).collect::<Vec<_>>())?;
    for md in [2u32, 3, 65] {
        let p = |x: &u32| x.is_multiple_of(md);
        w.same("filter", &lst(&v.filter(p)), &vec.iter().copied().filter(p).collect::<Vec<_>>())?;
        let (a, b) = v.partition(p);
        let (ma, mb): (Vec<u32>, Vec<u32>) = vec.iter().partition(|x| p(x));
        w.same("partition", &(lst(&a), lst(&b)), &(ma, mb))?;
        let g = |x: &u32| if x % md == 1 { Some(x * 2) } else { None };
        w.same("filter_map", &lst(&v.filter_map(g)), &vec.iter().filter_map(g).collect::<Vec<_>>())?;
        let h = |x: &u32| vec![*x; (*x % md % 4) as usize];
        w.same("flat_map", &lst(&v.flat_map(h)), &vec.iter().flat_map(h).collect::<Vec<_>>())?;
        let red: Vec<u32> = vec.iter().map(|x| x / md).collect();
        let mut dd = red.clone();
        dd.dedup();
        w.same("dedup", &lst(&v.map(|x| x / md).dedup()), &dd)?;
        let key = |x: &u32| x.wrapping_mul(2654435761) % 97 % (md + 5);
        let mut so: Vec<(u32, u32)> = vec.iter().map(|x| (key(x), *x)).collect();
        so.sort();
        w.same("sorted", &lst(&v.map(|x| (key(x), *x)).sorted()), &so)?;
        // equal elements that can be told apart: the sort is stable, each run keeps its first
        for d in [1, md, md * 7] {
            let i = std::cell::Cell::new(0);
            let tie = |x: &u32| {
                i.set(i.get() + 1);
                Tie(key(x) / d, i.get())
            };
            let t: PV<Tie> = v.map(tie);
            i.set(0);
            let mut so: Vec<Tie> = vec.iter().map(tie).collect();
            let mut dd = so.clone();
            so.sort();
            dd.dedup();
            w.same("stable sort", &full(&t.sorted()), &full(&so))?;
            w.same("dedup keeps the first", &full(&t.dedup()), &full(&dd))?;
            w.same("sort is idempotent on ties", &full(&t.sorted().sorted()), &full(&so))?;
        }
    }
    // the supplied functions see every element once, in order
    let seen = std::cell::RefCell::new(Vec::with_capacity(vec.len()));
    let note = |x: &u32| {
        seen.borrow_mut().push(*x);
        true
    };
    v.map(|x| note(x));
    w.same("map calls", &seen.take(), &vec)?;
    v.filter(note);
    w.same("filter calls", &seen.take(), &vec)?;
    v.partition(note);
    w.same("partition calls", &seen.take(), &vec)?;
    v.filter_map(|x| note(x).then_some(()));
    w.same("filter_map calls", &seen.take(), &vec)?;
    v.flat_map(|x| Some(note(x)));
    w.same("flat_map calls", &seen.take(), &vec)?;
    v.fmap(|x| note(x));
    w.same("fmap calls", &seen.take(), &vec)?;
    v.clone().fmap_owned(|x| note(&x));
    w.same("fmap_owned calls", &seen.take(), &vec)?;
    // non-commutative folds
    let fl = |a: &Vec<u32>, x: &u32| {
        let mut a = a.clone();
        a.push(*x);
        a
    };
    if vec.len() <= 140 {
        w.same("fold_left", &v.fold_left(&vec![], fl), &vec)?;
        let rev: Vec<u32> = vec.iter().rev().copied().collect();
        w.same("fold_right", &v.fold_right(&vec![], |x, a: &Vec<u32>| fl(a, x)), &rev)?;
    }
    let h = |a: u64, x: &u32| a.wrapping_mul(31).wrapping_add(*x as u64);
    w.same("fold", &v.fold(7, h), &vec.iter().fold(7, h))?;
    w.same("fold_right hash", &v.fold_right(&7u64, |x, a| h(*a, x)), &vec.iter().rev().fold(7, h))?;
    w.same("length", &v.length(), &vec.len())?;
    // zipping with shorter, equal and longer vectors
    for k in [0, 1, vec.len() / 2, vec.len(), vec.len() + 3] {
        let o: Vec<u32> = (0..k as u32).map(|x| x + 7000).collect();
        let z: Vec<(u32, u32)> = vec.iter().copied().zip(o.iter().copied()).collect();
        w.same("zip", &lst(&v.zip(&build::<u32>("push_front", &o))), &z)?;
    }
    w.same("combine", &lst(&v.combine(&from_model(&[1, 2]))), &[&vec[..], &[1, 2]].concat())?;
    w.same("combine_owned", &lst(&v.clone().combine_owned(from_model(&[1, 2]))), &[&vec[..], &[1, 2]].concat())?;
    w.same("empty right", &lst(&v.combine(&V::empty())), &vec)?;
    w.same("empty left", &lst(&V::empty().combine(v)), &vec)?;
    for i in [0, 1, vec.len() / 2, vec.len().saturating_sub(1), vec.len(), vec.len() + 1].into_iter().chain(FAR) {
        w.same("try_get ok", &v.try_get(i).ok(), &vec.get(i))?;
        let outside = |e: &rustica::pvec::PVecError| matches!(e, rustica::pvec::PVecError::IndexOutOfBounds { index, len } if (*index, *len) == (i, vec.len()));
        if i < vec.len() {
            w.same("index", &v[i], &vec[i])?;
        } else {
            w.ok("index out of range panics", mc::panics(|| v[i]))?;
            w.ok("try_update error", v.try_update(i, 1).is_err_and(|e| outside(&e)))?;
            w.ok("try_get error", v.try_get(i).is_err_and(|e| outside(&e)))?;
        }
    }
    Ok(())
}

fn iters(w: &mut W, v: &V, m: &[u32]) -> Res {
    let n = m.len();
    let mut it = v.iter();
    let mut own = v.clone().into_iter();
    for i in 0..=n + 1 {
        let rem = n.saturating_sub(i);
        w.same("size_hint", &it.size_hint(), &(rem, Some(rem)))?;
        w.same("len", &it.len(), &rem)?;
        w.same("owned size_hint", &own.size_hint(), &(rem, Some(rem)))?;
        w.same("owned len", &own.len(), &rem)?;
        w.same("next", &it.next(), &m.get(i))?;
        w.same("owned next", &own.next(), &m.get(i).copied())?;
    }
    for k in [1, 2, 63, 64, 65].into_iter().chain(FAR) {
        w.same("step_by", &v.iter().step_by(k).collect::<Vec<_>>(), &m.iter().step_by(k).collect::<Vec<_>>())?;
        w.same("skip", &v.iter().skip(k).collect::<Vec<_>>(), &m.iter().skip(k).collect::<Vec<_>>())?;
        w.same("nth", &v.iter().nth(k), &m.iter().nth(k))?;
        w.same("owned nth", &v.clone().into_iter().nth(k), &m.get(k).copied())?;
    }
    w.same("count", &v.iter().count(), &n)?;
    w.same("last", &v.iter().last(), &m.last())?;
    if n < 300 || n % 7 == 0 {
        mc::iter_protocol!(w, "iter", v.iter(), m.iter().collect::<Vec<_>>(), true)?;
        mc::iter_protocol!(w, "&into_iter", v.into_iter(), m.iter().collect::<Vec<_>>(), true)?;
        mc::iter_protocol!(w, "into_iter", v.clone().into_iter(), m.to_vec(), true)?;
    }
    Ok(())
}

fn chunks(w: &mut W, v: &V, m: &[u32], size: usize) -> Res {
    let c: Vec<Vec<u32>> = v.chunk(size).iter().map(lst).collect();
    let want: Vec<Vec<u32>> = if size == 0 { vec![] } else { m.chunks(size).map(|x| x.to_vec()).collect() };
    w.same("chunk", &c, &want)
}

fn main() {
    mc::run("C04", |c| {
        let lim = c.pick(300, 1100);
        let sizes: Vec<usize> = (0..=lim).chain([320, 384, 385, 2048, 2112, 2113, 2177, 4160, 4161, 4225, 8300]).collect();
        let mut jobs = vec![];
        for n in c.pick(vec![33_000usize, 66_000], vec![33_000, 66_000, 140_000]) {
            for r in ["bulk", "push_front", "concat_halves"] {
                jobs.push((r, n, n == 33_000));
            }
        }
        for n in &sizes {
            for r in ROUTES {
                jobs.push((*r, *n, false));
                jobs.push((*r, *n, true));
            }
        }
        c.note("bulk_ops", "every construction route x every length up to the bound x scrambled contents and contents with runs of equal neighbours across every boundary");
        c.par("bulk_ops", &jobs, |w, (r, n, runs)| {
            let m: Vec<u32> = (0..*n as u32).map(|i| if *runs { i / 3 } else { (i * 7919 + 13) % 1009 }).collect();
            let Ok(v) = mc::catch(|| build::<u32>(r, &m)) else { return };
            // a route that lost elements is C01's violation
            if (0..m.len()).any(|i| v.get(i) != Some(&m[i])) {
                return;
            }
            w.case(|| format!("{r}({n}) runs={runs}"), |w| {
                w.state(mc::hash_of(&(r, n, runs)));
                bulk(w, &v, &m)
            });
            w.case(|| format!("{r}({n}) runs={runs} iterators"), |w| iters(w, &v, &m));
            for k in [0, 1, 2, 3, 31, 63, 64, 65, 66, 127, 128, 129, n / 2, n.saturating_sub(1), *n, n + 1].into_iter().chain(FAR) {
                w.case(|| format!("{r}({n}) runs={runs} chunk {k}"), |w| chunks(w, &v, &m, k));
            }
        });
        c.note("small_alphabet", "all sequences over two letters up to length 7 (9 thorough), every operation");
        let all = seqs(&[0u32, 1], c.pick(7, 9));
        c.par("small_alphabet", &all, |w, m| {
            for r in ["bulk", "push_front", "popped_front", "tail_of_longer"] {
                let Ok(v) = mc::catch(|| build::<u32>(r, m)) else { continue };
                if v.to_vec() != *m {
                    continue;
                }
                w.case(|| format!("{r} {m:?}"), |w| {
                    bulk(w, &v, m)?;
                    iters(w, &v, m)?;
                    for k in 0..9 {
                        chunks(w, &v, m, k)?;
                    }
                    Ok(())
                });
            }
        });
        c.seq("constructors", |w| {
            w.case(|| "new/unit/default/pvec!/cache policy".into(), |w| {
                w.same("new", &lst(&V::new()), &Vec::<u32>::new())?;
                w.same("default", &lst(&V::default()), &Vec::<u32>::new())?;
                w.same("unit", &lst(&V::unit(4)), &vec![4])?;
                w.same("pvec!", &lst(&rustica::pvec![1, 2, 3]), &vec![1, 2, 3])?;
                let n = std::cell::Cell::new(0u32);
                let t = || { n.set(n.get() + 1); n.get() };
                w.same("pvec! evaluates in order", &lst(&rustica::pvec![t(), t(), 7, t(), t(), t(), t(), t(), t(), t(), t(), t(),]), &vec![1, 2, 7, 3, 4, 5, 6, 7, 8, 9, 10, 11])?;
                let e: V = rustica::pvec![];
                w.same("pvec![]", &e.len(), &0)?;
                w.same("policy", &lst(&V::with_cache_policy(())), &Vec::<u32>::new())?;
                w.same("policy slice", &lst(&V::from_slice_with_cache_policy(&[1, 2], ())), &vec![1, 2])
            });
        });
    })
}
