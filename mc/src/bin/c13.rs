#![allow(deprecated)]
//! C13: a choice is an ordered list of alternatives. All operation sequences up to a depth
//! against a plain list, plus every nested shape for flattening.
use mc::dom::{HINTS, LONG, hint};
use mc::dom::{full, seqs, Tie};
use mc::{Ctx, Res, W};
use rustica::datatypes::choice::Choice;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

type C = Choice<u32>;

/// Every way of reading a choice agrees with the list.
fn agree(w: &mut W, ch: &C, m: &[u32]) -> Res {
    let v = m.to_vec();
    let tail: Vec<u32> = v.iter().skip(1).copied().collect();
    w.eq("values", &ch.iter().copied().collect::<Vec<_>>(), &v)?;
    w.same("first", &ch.first().copied(), &v.first().copied())?;
    w.same("alternatives", &ch.alternatives().to_vec(), &tail)?;
    w.same("iter_alternatives", &ch.iter_alternatives().copied().collect::<Vec<_>>(), &tail)?;
    w.same("len", &ch.len(), &v.len())?;
    w.same("is_empty", &ch.is_empty(), &v.is_empty())?;
    w.same("has_alternatives", &ch.has_alternatives(), &(v.len() > 1))?;
    w.same("to_vec", &ch.to_vec(), &v)?;
    w.same("into Vec", &Vec::<u32>::from(ch.clone()), &v)?;
    w.same("into_iter", &ch.clone().into_iter().collect::<Vec<_>>(), &v)?;
    w.same("reversed into_iter", &ch.clone().into_iter().rev().collect::<Vec<_>>(), &v.iter().rev().copied().collect::<Vec<_>>())?;
    w.same("ref into_iter", &ch.into_iter().copied().collect::<Vec<_>>(), &v)?;
    w.same("fold", &ch.fold(vec![], |mut a, x| { a.push(*x); a }), &v)?;
    w.same("fold_left", &ch.fold_left(&vec![], |a: &Vec<u32>, x| { let mut a = a.clone(); a.push(*x); a }), &v)?;
    let text = match v.split_first() {
        None => String::new(),
        Some((h, [])) => h.to_string(),
        Some((h, t)) => format!("{h} | {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
    };
    w.same("display", &ch.to_string(), &text)?;
    if !v.is_empty() {
        w.same("value", ch.value(), &v[0])?;
        w.same("Identity::into_value", &Identity::into_value(ch.clone()), &v[0])?;
    }
    w.same("equality with a rebuilt choice", ch, &v.iter().copied().collect::<C>())?;
    w.same("hash", &mc::hash_of(ch), &mc::hash_of(&v.iter().copied().collect::<C>()))
}

#[derive(Clone, Debug)]
enum Op {
    Add(u32),
    Remove(usize),
    TryRemove(usize),
    Swap(usize),
    TrySwap(usize),
    Filter(u32),
    FilterValues(u32),
    MapAlts,
    Map,
    MapOwned,
    Dedup,
    DedupKey,
    CombineR(u32),
    CombineOwnedL(u32),
    AltR(u32),
    MPlusL(u32),
    MPlusOwnedR(u32),
    Bind(u8),
    BindOwned(u8),
    BindLazy(u8),
    Lift2(u32),
    Lift2OwnedL(u32),
    OfMany,
    FromVec,
    FromSlice,
    FromChoices,
    Sum,
    Sequence,
    Flatten,
    Join,
}

/// A collection whose iterator gives the size hint of kind `.1`.
#[derive(Clone, Debug, PartialEq)]
struct Loose(Vec<u32>, u8);
impl IntoIterator for Loose {
    type Item = u32;
    type IntoIter = mc::dom::Hint<u32>;
    fn into_iter(self) -> Self::IntoIter {
        hint(self.0, self.1)
    }
}

fn kids(k: u8, x: u32) -> Vec<u32> {
    match k {
        0 => vec![x, x + 1],
        1 if x % 2 == 0 => vec![],
        1 => vec![x],
        _ => vec![x % 3; (x % 3) as usize],
    }
}
fn fresh(n: u32) -> Vec<u32> {
    (0..n).map(|i| 50 + i * 2 % 3).collect()
}
fn ch(v: &[u32]) -> C {
    v.iter().copied().collect()
}

/// The library's result and the list's; `Err` when the operation must be refused.
fn step(op: &Op, c: &C, m: &[u32]) -> (Result<C, String>, Option<Vec<u32>>) {
    let v = m.to_vec();
    let cat = |a: &[u32], b: &[u32]| [a, b].concat();
    let del = |i: usize| (i < v.len().saturating_sub(1)).then(|| { let mut v = v.clone(); v.remove(i + 1); v });
    let swp = |i: usize| (i < v.len().saturating_sub(1)).then(|| { let mut v = v.clone(); v.swap(0, i + 1); v });
    let c = c.clone();
    match *op {
        Op::Add(n) => (Ok(c.add_alternatives(fresh(n))), Some(cat(&v, &fresh(n)))),
        Op::Remove(i) => (mc::catch(|| c.remove_alternative(i)), del(i)),
        Op::TryRemove(i) => (c.try_remove_alternative(i).map_err(|e| e.to_string()), del(i)),
        Op::Swap(i) => (mc::catch(|| c.swap_with_alternative(i)), swp(i)),
        Op::TrySwap(i) => (c.try_swap_with_alternative(i).map_err(|e| e.to_string()), swp(i)),
        Op::Filter(k) => (
            Ok(c.filter(|x| x % 3 == k)),
            Some(v.iter().enumerate().filter(|(i, x)| *i == 0 || **x % 3 == k).map(|(_, x)| *x).collect()),
        ),
        Op::FilterValues(k) => (Ok(c.filter_values(|x| x % 3 == k)), Some(v.iter().filter(|x| **x % 3 == k).copied().collect())),
        Op::MapAlts => (Ok(c.fmap_alternatives(|x| x + 1)), Some(v.iter().enumerate().map(|(i, x)| if i == 0 { *x } else { x + 1 }).collect())),
        Op::Map => (Ok(c.fmap(|x| x + 1)), Some(v.iter().map(|x| x + 1).collect())),
        Op::MapOwned => (Ok(c.fmap_owned(|x| x + 2)), Some(v.iter().map(|x| x + 2).collect())),
        Op::Dedup => {
            let mut s = HashSet::new();
            (Ok(c.dedup()), Some(v.iter().filter(|x| s.insert(**x)).copied().collect()))
        },
        Op::DedupKey => {
            let mut s = HashSet::new();
            (Ok(c.dedup_by_key(|x| x / 2)), Some(v.iter().filter(|x| s.insert(**x / 2)).copied().collect()))
        },
        Op::CombineR(n) => (Ok(c.combine(&ch(&fresh(n)))), Some(cat(&v, &fresh(n)))),
        Op::CombineOwnedL(n) => (Ok(ch(&fresh(n)).combine_owned(c)), Some(cat(&fresh(n), &v))),
        Op::AltR(n) => (Ok(c.alt(&ch(&fresh(n)))), Some(cat(&v, &fresh(n)))),
        Op::MPlusL(n) => (Ok(ch(&fresh(n)).mplus(&c)), Some(cat(&fresh(n), &v))),
        Op::MPlusOwnedR(n) => (Ok(c.mplus_owned(ch(&fresh(n)))), Some(cat(&v, &fresh(n)))),
        Op::Bind(k) => (Ok(c.bind(|x| ch(&kids(k, *x)))), Some(v.iter().flat_map(|x| kids(k, *x)).collect())),
        Op::BindOwned(k) => (Ok(c.bind_owned(|x| ch(&kids(k, x)))), Some(v.iter().flat_map(|x| kids(k, *x)).collect())),
        Op::BindLazy(k) => (Ok(c.bind_lazy(|x| ch(&kids(k, *x))).collect()), Some(v.iter().flat_map(|x| kids(k, *x)).collect())),
        Op::Lift2(n) => (
            Ok(C::lift2(|a: &u32, b: &u32| a * 2 + b, &c, &ch(&fresh(n)))),
            Some(v.iter().flat_map(|a| fresh(n).into_iter().map(move |b| a * 2 + b)).collect()),
        ),
        Op::Lift2OwnedL(n) => (
            Ok(C::lift2_owned(|a: u32, b: u32| a + b * 2, ch(&fresh(n)), c)),
            Some(fresh(n).iter().flat_map(|a| v.iter().map(move |b| a + b * 2)).collect()),
        ),
        Op::OfMany => (Ok(C::of_many(c)), Some(v)),
        Op::FromVec => (Ok(C::from(Vec::from(c))), Some(v)),
        Op::FromSlice => (Ok(C::from(&c.to_vec()[..])), Some(v)),
        Op::FromChoices => (Ok([c.clone(), C::new_empty(), ch(&fresh(1)), c].into_iter().collect()), Some([cat(&v, &fresh(1)), v].concat())),
        Op::Sum => (Ok([C::empty(), c.clone(), ch(&fresh(2)), C::default()].into_iter().sum()), Some(cat(&v, &fresh(2)))),
        Op::Sequence => (Ok(c.fmap(|x| Some(*x)).sequence().expect("all present")), Some(v)),
        Op::Flatten => (
            mc::catch(|| c.fmap(|x| kids(2, *x)).flatten()),
            match v.first() {
                Some(x) if kids(2, *x).is_empty() => None,
                _ => Some(v.iter().flat_map(|x| kids(2, *x)).collect()),
            },
        ),
        Op::Join => (Ok(c.fmap(|x| ch(&kids(2, *x))).join()), Some(v.iter().flat_map(|x| kids(2, *x)).collect())),
    }
}

fn check(w: &mut W, op: &Op, cur: &C, m: &[u32]) -> Result<Option<(C, Vec<u32>)>, String> {
    w.op(1);
    let (got, want) = step(op, cur, m);
    match (got, want) {
        (Ok(g), Some(l)) => {
            agree(w, &g, &l)?;
            w.same("operand unchanged", &cur.iter().copied().collect::<Vec<_>>(), &m.to_vec())?;
            w.state(mc::hash_of(&l));
            Ok(Some((g, l)))
        },
        (Err(_), None) => Ok(None),
        (g, l) => Err(format!("refused/accepted differently: got {g:?} want {l:?}")),
    }
}

fn go(w: &mut W, ops: &[Op], left: usize, path: &mut Vec<usize>, c: &C, m: &[u32]) {
    for (i, op) in ops.iter().enumerate() {
        path.push(i);
        let mut next = None;
        w.case(|| format!("from {:?}: {}", m, path.iter().map(|i| format!("{:?}", ops[*i])).collect::<Vec<_>>().join(" ")), |w| {
            next = check(w, op, c, m)?;
            Ok(())
        });
        if let (Some((c2, m2)), true) = (next, left > 1) {
            if m2.len() <= 140 && m2.iter().all(|x| *x < 1 << 16) {
                go(w, ops, left - 1, path, &c2, &m2);
            }
        }
        path.pop();
    }
}

fn histories(c: &Ctx) {
    let ops = vec![
        Op::Add(0), Op::Add(1), Op::Add(7), Op::Remove(0), Op::Remove(1), Op::TryRemove(0), Op::TryRemove(2), Op::Remove(7), Op::Remove(usize::MAX), Op::TryRemove(usize::MAX), Op::Swap(usize::MAX), Op::TrySwap(1 << 32),
        Op::Swap(0), Op::Swap(6), Op::TrySwap(0), Op::TrySwap(1), Op::Filter(0), Op::Filter(1), Op::FilterValues(0),
        Op::FilterValues(1), Op::FilterValues(2), Op::MapAlts, Op::Map, Op::MapOwned, Op::Dedup, Op::DedupKey,
        Op::CombineR(0), Op::CombineR(2), Op::CombineOwnedL(1), Op::CombineOwnedL(0), Op::CombineOwnedL(9), Op::AltR(2), Op::AltR(0), Op::MPlusL(2),
        Op::MPlusL(0), Op::MPlusOwnedR(1), Op::MPlusOwnedR(0), Op::Bind(0), Op::Bind(1), Op::Bind(2), Op::BindOwned(1), Op::BindOwned(2), Op::BindLazy(1), Op::Lift2(2),
        Op::Lift2(0), Op::Lift2OwnedL(3), Op::OfMany, Op::FromVec, Op::FromSlice, Op::FromChoices, Op::Sum, Op::Sequence, Op::Flatten, Op::Join,
    ];
    let starts: Vec<Vec<u32>> = vec![vec![], vec![1], vec![2, 1, 1], (0..8).collect(), (0..9).map(|x| x * 2 % 5).collect(), (0..17).collect(), (0..33).map(|x| x * 7 % 11).collect(), (0..66).map(|x| x * 5 % 31).collect()];
    let depth = c.pick(3, 4);
    c.note("operation sequences", &format!("{} operations, sequences up to length {depth} from {} starting lists", ops.len(), starts.len()));
    let jobs: Vec<(Vec<u32>, usize)> = starts.iter().flat_map(|s| (0..ops.len()).map(move |i| (s.clone(), i))).collect();
    c.par("operation sequences", &jobs, |w, (s, i)| {
        let cur = ch(s);
        let mut next = None;
        w.case(|| format!("{s:?}: {:?}", ops[*i]), |w| {
            agree(w, &cur, s)?;
            next = check(w, &ops[*i], &cur, s)?;
            Ok(())
        });
        if let Some((c2, m2)) = next {
            go(w, &ops, depth - 1, &mut vec![*i], &c2, &m2);
        }
    });
}

fn construction(c: &Ctx) {
    c.seq("construction at every length", |w| {
        for n in (0..=40u32).chain([63, 64, 65, 127, 128, 129, 200, 257]).chain(LONG.map(|n| n as u32)) {
            for h in HINTS {
                w.case(|| format!("n={n} hint={h}"), |w| {
                    let l: Vec<u32> = (0..n).map(|i| i ^ 3).collect();
                    let it = || hint(l.clone(), h);
                    agree(w, &it().collect(), &l)?;
                    agree(w, &C::of_many(it()), &l)?;
                    agree(w, &C::new(77, it()), &[vec![77], l.clone()].concat())?;
                    agree(w, &ch(&l).add_alternatives(it()), &[l.clone(), l.clone()].concat())?;
                    agree(w, &C::from(l.clone()), &l)?;
                    agree(w, &C::from(&l[..]), &l)?;
                    let seen = RefCell::new(vec![]);
                    let r = ch(&l).fmap_owned(|x| { seen.borrow_mut().push(x); x + 1 });
                    w.eq("fmap_owned visits in order", &seen.into_inner(), &l)?;
                    agree(w, &r, &l.iter().map(|x| x + 1).collect::<Vec<_>>())?;
                    for i in (0..n as usize).filter(|i| n <= 257 || [0, 1, n as usize / 2, n as usize - 2, n as usize - 1].contains(i)) {
                        let mut d = l.clone();
                        if i + 1 < d.len() {
                            d.swap(0, i + 1);
                            agree(w, &ch(&l).swap_with_alternative(i), &d)?;
                            let mut d = l.clone();
                            d.remove(i + 1);
                            agree(w, &ch(&l).remove_alternative(i), &d)?;
                        } else {
                            w.ok("removal refused", mc::panics(|| ch(&l).remove_alternative(i)))?;
                            w.ok("try removal refused", ch(&l).try_remove_alternative(i).is_err())?;
                            w.ok("swap refused", mc::panics(|| ch(&l).swap_with_alternative(i)))?;
                            w.ok("try swap refused", ch(&l).try_swap_with_alternative(i).is_err())?;
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}

fn nested(c: &Ctx) {
    let inner = seqs(&[1u32, 0], c.pick(2, 3));
    let outer = seqs(&inner, c.pick(3, 4));
    c.par("nested lists", &outer, |w, l| {
        w.case(|| format!("{l:?}"), |w| {
            // distinct tags make order visible
            let mut t = 0;
            let l: Vec<Vec<u32>> = l.iter().map(|v| v.iter().map(|x| { t += 10; t + x }).collect()).collect();
            let nest: Choice<Vec<u32>> = l.iter().cloned().collect();
            let cnest: Choice<C> = {
                let mut it = l.iter().map(|v| ch(v));
                match it.next() {
                    None => Choice::new_empty(),
                    Some(h) => Choice::new(h, it.collect::<Vec<_>>()),
                }
            };
            let flat: Vec<u32> = l.concat();
            if l.first().is_some_and(|v| v.is_empty()) {
                w.ok("flatten with an empty primary panics", mc::panics(|| nest.flatten()))?;
                w.ok("flatten_sorted with an empty primary panics", mc::panics(|| nest.flatten_sorted()))?;
                w.ok("try_flatten with an empty primary", nest.try_flatten().is_err())?;
            } else {
                agree(w, &nest.flatten(), &flat)?;
                agree(w, &nest.try_flatten().map_err(|e| e.to_string())?, &flat)?;
                let mut s = flat.clone();
                if let Some(t) = s.get_mut(1..) {
                    t.sort();
                }
                agree(w, &nest.flatten_sorted(), &s)?;
            }
            // inner collections whose iterators do not know their length
            for h in HINTS {
                let nest: Choice<Loose> = l.iter().map(|v| Loose(v.clone(), h)).collect();
                if l.first().is_some_and(|v| v.is_empty()) {
                    w.ok("flatten of unsized inner values, empty primary", mc::panics(|| nest.flatten()) && nest.try_flatten().is_err())?;
                    continue;
                }
                agree(w, &nest.flatten(), &flat)?;
                agree(w, &nest.try_flatten().map_err(|e| e.to_string())?, &flat)?;
                let mut s = flat.clone();
                if let Some(t) = s.get_mut(1..) {
                    t.sort();
                }
                agree(w, &nest.flatten_sorted(), &s)?;
            }
            agree(w, &cnest.join(), &flat)?;
            agree(w, &cnest.clone().join_owned(), &flat)?;
            agree(w, &cnest.clone().into_iter().collect::<C>(), &flat)?;
            agree(w, &cnest.into_iter().sum::<C>(), &flat)
        });
    });
    let lists = seqs(&[0u32, 1, 2, 3], c.pick(5, 7));
    c.par("selection and lookup", &lists, |w, l| {
        w.case(|| format!("{l:?}"), |w| {
            let x = ch(l);
            for k in 0..4u32 {
                w.eq("find_first", &x.find_first(|v| **v >= k).copied(), &l.iter().find(|v| **v >= k).copied())?;
                agree(w, &x.filter_values(|v| *v != k), &l.iter().filter(|v| **v != k).copied().collect::<Vec<_>>())?;
                let o: Vec<Option<u32>> = l.iter().map(|v| (*v != k).then_some(*v)).collect();
                let got = o.iter().copied().collect::<Choice<Option<u32>>>().sequence();
                w.eq("sequence", &got.map(|c| c.to_vec()), &(!l.contains(&k)).then(|| l.clone()))?;
            }
            let ties: Vec<Tie> = l.iter().zip(0..).map(|(k, i)| Tie(*k / 2, i)).collect();
            let mut seen = HashSet::new();
            let firsts: Vec<Tie> = ties.iter().filter(|t| seen.insert(t.0)).cloned().collect();
            let tc: Choice<Tie> = ties.iter().cloned().collect();
            w.same("dedup keeps first occurrences", &full(&tc.dedup()), &full(&firsts))?;
            w.same("dedup_by_key keeps first occurrences", &full(&tc.dedup_by_key(|t| t.0)), &full(&firsts))?;
            w.same("dedup_by_key with equal keys", &full(&tc.dedup_by_key(|t| t.clone())), &full(&firsts))?;
            let tagged: Choice<(u32, usize)> = l.iter().copied().zip(0..).collect();
            let map = tagged.to_map_with_key(|p| p.0);
            let mut want = HashMap::new();
            for (i, v) in l.iter().enumerate() {
                want.entry(*v).or_insert((*v, i));
            }
            w.eq("to_map_with_key keeps the first", &map, &want)?;
            let keep: Vec<(u32, usize)> = l.iter().copied().zip(0..).filter(|(v, i)| !l[..*i].contains(v)).collect();
            w.eq("dedup_by_key keeps the first", &tagged.dedup_by_key(|p| p.0).to_vec(), &keep)?;
            w.eq("many", &x.many().to_vec(), &l.first().map(|v| vec![*v]).into_iter().collect::<Vec<_>>())
        });
    });
}

/// Operations on two lists, for every pair of lengths.
fn two_lengths(c: &Ctx) {
    let mut ns: Vec<u32> = (0..=10).chain([15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130]).collect();
    ns.extend(c.pick(vec![257, 1000], vec![255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2050, 4097]));
    let jobs: Vec<(u32, u32)> = ns.iter().flat_map(|a| ns.iter().map(move |b| (*a, *b))).collect();
    c.note("two lengths", &format!("every pair of {} lengths up to {}", ns.len(), ns[ns.len() - 1]));
    c.par("two lengths", &jobs, |w, &(n, m)| {
        w.case(|| format!("{n} and {m} elements"), |w| {
            let (a, b): (Vec<u32>, Vec<u32>) = ((0..n).collect(), (5000..5000 + m).collect());
            let (x, y) = (|| ch(&a), || ch(&b));
            let ab = [a.clone(), b.clone()].concat();
            agree(w, &x().combine(&y()), &ab)?;
            agree(w, &x().combine_owned(y()), &ab)?;
            agree(w, &x().alt(&y()), &ab)?;
            agree(w, &x().mplus(&y()), &ab)?;
            agree(w, &x().mplus_owned(y()), &ab)?;
            for h in HINTS {
                agree(w, &x().add_alternatives(hint(b.clone(), h)), &ab)?;
            }
            agree(w, &[x(), y()].into_iter().collect::<C>(), &ab)?;
            agree(w, &[x(), y(), x()].into_iter().sum::<C>(), &[ab.clone(), a.clone()].concat())?;
            // a small choice that was large before
            let mut d = ab.clone();
            let mut z = x().combine(&y());
            for i in [0usize, 1, 0, 2] {
                if i + 1 < d.len() {
                    d.remove(i + 1);
                    z = z.remove_alternative(i);
                }
            }
            agree(w, &z, &d)?;
            let few: Vec<u32> = ab.iter().copied().filter(|v| v % 16 == 3).collect();
            agree(w, &x().combine(&y()).filter_values(|v| v % 16 == 3), &few)?;
            let seen = RefCell::new(vec![]);
            let r = x().fmap_alternatives(|v| { seen.borrow_mut().push(*v); v + seen.borrow().len() as u32 });
            let tail: Vec<u32> = a.iter().skip(1).copied().collect();
            w.eq("fmap_alternatives visits in order", &seen.into_inner(), &tail)?;
            agree(w, &r, &a.iter().enumerate().map(|(i, v)| v + i as u32).collect::<Vec<_>>())?;
            if n * m <= 20_000 {
                let prod: Vec<u32> = a.iter().flat_map(|p| b.iter().map(move |q| p * 3 + q)).collect();
                agree(w, &C::lift2(|p: &u32, q: &u32| p * 3 + q, &x(), &y()), &prod)?;
                agree(w, &C::lift2_owned(|p: u32, q: u32| p * 3 + q, x(), y()), &prod)?;
                let prod: Vec<u32> = a.iter().flat_map(|p| (0..m).map(move |q| p * 3 + q)).collect();
                agree(w, &x().bind(|p| (0..m).map(|q| p * 3 + q).collect()), &prod)?;
                agree(w, &x().bind_owned(|p| (0..m).map(|q| p * 3 + q).collect()), &prod)?;
                // n inner lists, of m elements each but the first (j elements)
                for j in [0, 1, 2, 9] {
                    let l: Vec<Vec<u32>> = (0..n).map(|p| (0..if p == 0 { j } else { m }).map(|q| p * 3 + q).collect()).collect();
                    let nest: Choice<Vec<u32>> = l.iter().cloned().collect();
                    let flat = l.concat();
                    if n > 0 && j == 0 {
                        w.ok("flatten refused", mc::panics(|| nest.flatten()) && mc::panics(|| nest.flatten_sorted()))?;
                        w.ok("try_flatten refused", nest.try_flatten().is_err())?;
                    } else {
                        agree(w, &nest.flatten(), &flat)?;
                        agree(w, &nest.try_flatten().map_err(|e| e.to_string())?, &flat)?;
                        let mut s = flat.clone();
                        s.get_mut(1..).map(|t| t.sort());
                        agree(w, &nest.flatten_sorted(), &s)?;
                    }
                    let c2: Vec<C> = l.iter().map(|v| ch(v)).collect();
                    agree(w, &c2.iter().cloned().collect::<Choice<C>>().join(), &flat)?;
                    agree(w, &c2.iter().cloned().collect::<Choice<C>>().join_owned(), &flat)?;
                    agree(w, &c2.iter().cloned().collect::<C>(), &flat)?;
                    agree(w, &c2.into_iter().sum::<C>(), &flat)?;
                }
            }
            // one absent value at a chosen place
            for at in [0, 1, n / 2, n.wrapping_sub(1)] {
                let o: Choice<Option<u32>> = a.iter().map(|v| (*v != at).then_some(*v)).collect();
                w.same("sequence", &o.sequence().map(|c| c.to_vec()), &(!a.contains(&at)).then(|| a.clone()))?;
            }
            Ok(())
        });
    });
    // keys whose hashes collide are still different keys
    let lists = seqs(&[0u32, 1, 2, 3], c.pick(5, 6));
    c.par("colliding hashes", &lists, |w, l| {
        w.case(|| format!("{l:?}"), |w| {
            let x: Choice<Coll> = l.iter().map(|v| Coll(*v)).collect();
            let mut seen = vec![];
            for v in l {
                if !seen.contains(v) {
                    seen.push(*v);
                }
            }
            w.eq("dedup", &x.dedup().iter().map(|v| v.0).collect::<Vec<_>>(), &seen)?;
            w.eq("dedup_by_key", &ch(l).dedup_by_key(|v| Coll(*v)).to_vec(), &seen)?;
            let map = ch(l).to_map_with_key(|v| Coll(*v));
            w.eq("to_map_with_key", &map.len(), &seen.len())?;
            w.ok("to_map_with_key values", map.iter().all(|(k, v)| k.0 == *v))
        });
    });
}

/// Distinct values that all hash alike.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Coll(u32);
impl std::hash::Hash for Coll {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(1)
    }
}

/// Everything the iterators offer, from every point of an iteration.
fn protocol(c: &Ctx) {
    let jobs: Vec<u32> = (0..=c.pick(12, 30)).chain([63, 64, 65, 70]).collect();
    c.note("iterators", "choices of 0..12 and 63..70 alternatives; every iterator, stopped after every number of items, then finished in every way the standard iterator trait offers");
    c.par("iterators", &jobs, |w, &n| {
        w.case(|| format!("{n} alternatives"), |w| {
            let v: Vec<u32> = (0..n).collect();
            let ch: C = v.iter().copied().collect();
            mc::iter_protocol!(w, "iter", ch.iter().copied(), v.clone(), false)?;
            mc::iter_protocol!(w, "iter_alternatives", ch.iter_alternatives().copied(), v.iter().skip(1).copied().collect::<Vec<_>>(), false)?;
            mc::iter_protocol!(w, "into_iter", ch.clone().into_iter(), v.clone(), true)?;
            mc::iter_protocol!(w, "&into_iter", (&ch).into_iter().copied(), v.clone(), true)?;
            for k in 0..4 {
                let want: Vec<u32> = v.iter().flat_map(|x| kids(k, *x)).collect();
                mc::iter_protocol!(w, "bind_lazy", ch.bind_lazy(|x| kids(k, *x).into_iter().collect::<C>()), want.clone(), false)?;
            }
            Ok(())
        });
    });
}

fn main() {
    mc::run("C13", |c| {
        protocol(c);
        two_lengths(c);
        histories(c);
        construction(c);
        nested(c);
    })
}
