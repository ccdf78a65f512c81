//! C11: semigroup associativity, monoid identity, and derived combinations.
use mc::dom::{HINTS, hint};
use mc::dom::seqs;
use mc::fam::{self, Kind};
use mc::{Ctx, W};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, predicate::Predicate, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

fn semi<T: Semigroup + Clone + PartialEq + Debug + Send + Sync>(
    c: &Ctx, name: &str, long: bool, xs: &[T], op: impl Fn(&T, &T) -> T + Sync,
) {
    let op = &op;
    c.par(&format!("semigroup {name}"), xs, |w, a| {
        for b in xs {
            w.case(|| format!("{a:?} {b:?}"), |w| {
                let want = op(a, b);
                let ab = a.combine(b);
                w.eq("combine", &ab, &want)?;
                w.eq("combine_owned", &a.clone().combine_owned(b.clone()), &want)?;
                for d in xs {
                    let want = op(&op(a, b), d);
                    w.same("reference is associative", &want, &op(a, &op(b, d)))?;
                    w.same("(ab)c", &ab.combine(d), &want)?;
                    w.same("a(bc)", &a.combine(&b.combine(d)), &want)?;
                    w.same("owned (ab)c", &ab.clone().combine_owned(d.clone()), &want)?;
                    w.same("owned a(bc)", &a.clone().combine_owned(b.clone().combine_owned(d.clone())), &want)?;
                }
                Ok(())
            });
        }
        w.case(|| format!("n-fold {a:?}"), |w| {
            let mut want = a.clone();
            // up to a count, and (by the reference) at some larger ones
            let top = if long { c.pick(70usize, 260) } else { 17 };
            for n in 1..=top {
                if n > 33 && n % 32 > 1 {
                    want = op(&want, a);
                    continue;
                }
                w.eq("combine_n", &a.combine_n(&n), &want)?;
                w.eq("combine_n_owned", &a.clone().combine_n_owned(n), &want)?;
                want = op(&want, a);
            }
            w.eq("combine_n and combine_n_owned agree at 0", &a.combine_n(&0), &a.clone().combine_n_owned(0))
        });
    });
    // folding of every list over a few elements
    let step = (xs.len() / c.pick(4, 6)).max(1);
    let few: Vec<T> = xs.iter().rev().step_by(step).take(c.pick(4, 5)).cloned().collect();
    let mut lists = seqs(&few, c.pick(5, 6));
    if long {
        // lists long enough for any chunking of the work, each element in turn the odd one out
        for n in (6..=20).chain([31, 32, 33, 64, 65, 100, 129, 255, 256, 257, 1000, 1024, 1025, 4097]) {
            lists.push((0..n).map(|i| xs[i * 7 % xs.len()].clone()).collect());
            lists.push((0..n).map(|i| xs[i % xs.len()].clone()).collect());
        }
    }
    c.par(&format!("lists of {name}"), &lists, |w, l| {
        w.case(|| format!("{l:?}"), |w| {
            let want = l.iter().skip(1).fold(l.first().cloned(), |a, x| a.map(|a| op(&a, x)));
            w.eq("combine_all_values", &semigroup::combine_all_values(l.clone()), &want)?;
            for h in HINTS {
                w.same("combine_all_values of an iterator", &semigroup::combine_all_values(hint(l.clone(), h)), &want)?;
                if let Some(v) = &want {
                    w.same("combine_all of an iterator", &l[0].clone().combine_all(hint(l[1..].to_vec(), h)), v)?;
                    w.same("combine_values of an iterator", &semigroup::combine_values(l[0].clone(), hint(l[1..].to_vec(), h)), v)?;
                }
            }
            if let Some(v) = &want {
                w.eq("combine_all_owned", &SemigroupExt::combine_all_owned(l.clone()), v)?;
                w.eq("combine_all", &l[0].clone().combine_all(l[1..].to_vec()), v)?;
                w.eq("combine_values", &semigroup::combine_values(l[0].clone(), l[1..].to_vec()), v)?;
            }
            Ok(())
        });
    });
}

fn mono<T: Monoid + Clone + PartialEq + Debug + Send + Sync>(
    c: &Ctx, name: &str, long: bool, xs: &[T], unit: T, truly: bool, op: impl Fn(&T, &T) -> T + Sync + Clone,
) {
    semi(c, name, long, xs, op.clone());
    c.seq(&format!("monoid {name}"), |w| {
        w.case(|| "empty".into(), |w| {
            w.eq("empty", &T::empty(), &unit)?;
            w.ok("empty is empty", T::empty().is_empty_monoid())
        });
        for a in xs {
            w.case(|| format!("{a:?}"), |w| {
                if truly {
                    w.eq("right identity", &a.combine(&T::empty()), a)?;
                    w.eq("left identity", &T::empty().combine(a), a)?;
                    w.eq("right identity owned", &a.clone().combine_owned(T::empty()), a)?;
                    w.eq("left identity owned", &T::empty().combine_owned(a.clone()), a)?;
                }
                w.eq("is_empty_monoid", &a.is_empty_monoid(), &(*a == unit))?;
                let mut want = unit.clone();
                for n in 0..=c.pick(12usize, 17) {
                    w.eq("repeat", &monoid::repeat(a.clone(), n), &want)?;
                    w.eq("power", &monoid::power(a.clone(), n), &want)?;
                    want = if n == 0 { a.clone() } else { op(&want, a) };
                }
                Ok(())
            });
        }
        let step = (xs.len() / 4).max(1);
        let few: Vec<T> = xs.iter().rev().step_by(step).take(4).cloned().collect();
        for a in few.iter().take(if long { 3 } else { 0 }) {
            w.case(|| format!("many times {a:?}"), |w| {
                let mut want = a.clone();
                for n in 1..=c.pick(1026usize, 2_050) {
                    if n > 17 && (mc::dom::LONG.contains(&n) || (n < 300 && n % 16 < 2)) {
                        w.same("repeat", &monoid::repeat(a.clone(), n), &want)?;
                        w.same("power", &monoid::power(a.clone(), n), &want)?;
                        w.same("combine_n", &a.combine_n(&n), &want)?;
                        w.same("combine_n_owned", &a.clone().combine_n_owned(n), &want)?;
                    }
                    want = op(&want, a);
                }
                Ok(())
            });
        }
        let mut lists = seqs(&few, c.pick(5, 6));
        if long {
            for n in (6..=20).chain([31, 32, 33, 64, 65, 100, 129, 255, 256, 257, 1000, 1024, 1025, 4097]) {
                lists.push((0..n).map(|i| xs[i * 7 % xs.len()].clone()).collect());
            }
        }
        for l in lists {
            w.case(|| format!("list {l:?}"), |w| {
                let want = match l.split_first() {
                    Some((h, t)) => t.iter().fold(h.clone(), |a, x| op(&a, x)),
                    None => unit.clone(),
                };
                w.eq("mconcat", &monoid::mconcat(&l), &want)?;
                for h in HINTS {
                    w.same("combine_all of an iterator", &monoid::combine_all(hint(l.clone(), h)), &want)?;
                }
                w.eq("combine_all", &monoid::combine_all(l.clone()), &want)
            });
        }
    });
}

/// A value ordered by its first part only, so that equal values stay distinguishable.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Keyed(u8, u8);
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

/// A number-like value whose addition and multiplication show the order of their operands.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Ord2(String);
impl std::ops::Add for Ord2 {
    type Output = Ord2;
    fn add(self, o: Ord2) -> Ord2 {
        Ord2(self.0 + &o.0)
    }
}
impl std::ops::Mul for Ord2 {
    type Output = Ord2;
    fn mul(self, o: Ord2) -> Ord2 {
        Ord2(self.0 + &o.0)
    }
}

fn opt() -> Vec<Option<u8>> {
    vec![None, Some(0), Some(1), Some(2), Some(255)]
}

fn main() {
    mc::run("C11", |c| {
        c.assume("numbers stay within range (overflow of the underlying + and * is outside the property); Min's empty value is its type's default, documented as not a true identity for most types, so identity is not required of it");
        // sequences
        let words: Vec<String> = seqs(&['a', 'é'], c.pick(2, 3)).into_iter().map(|v| v.into_iter().collect()).collect();
        mono(c, "String", true, &words, String::new(), true, |a, b| format!("{a}{b}"));
        let n = c.pick(2, 3);
        let vecs: Vec<Vec<u8>> = seqs(&[0u8, 1], n).into_iter().chain([8, 9].map(|k| (0..k).collect())).collect();
        let cat = |a: &Vec<u8>, b: &Vec<u8>| [&a[..], &b[..]].concat();
        mono(c, "Vec", true, &vecs, vec![], true, cat);
        let pv: Vec<PersistentVector<u8>> = vecs.iter().cloned().chain([32, 33, 70].map(|k| (0..k).collect()))
            .map(|v| PersistentVector::from_slice(&v)).collect();
        mono(c, "PersistentVector", true, &pv, PersistentVector::new(), true, |a, b| {
            PersistentVector::from_slice(&[a.iter().copied().collect::<Vec<_>>(), b.iter().copied().collect()].concat())
        });
        let ch: Vec<Choice<u8>> = vecs.iter().map(|v| v.iter().copied().collect()).collect();
        mono(c, "Choice", true, &ch, Choice::new_empty(), true, |a, b| a.iter().chain(b.iter()).copied().collect());
        // sets and maps
        let sets: Vec<Vec<u8>> = seqs(&[0u8, 1, 2], 3);
        let bs: Vec<BTreeSet<u8>> = { let s: BTreeSet<BTreeSet<u8>> = sets.iter().map(|v| v.iter().copied().collect()).collect(); s.into_iter().chain([(0..40).collect(), (20..60).collect(), (5..9).collect()]).collect() };
        semi(c, "BTreeSet", true, &bs, |a, b| a | b);
        let hs: Vec<HashSet<u8>> = bs.iter().map(|s| s.iter().copied().collect()).collect();
        semi(c, "HashSet", true, &hs, |a, b| a | b);
        let bm: Vec<BTreeMap<u8, String>> = {
            let mut r = vec![];
            for x in [None, Some("a"), Some("b")] {
                for y in [None, Some("c"), Some("d")] {
                    let mut m = BTreeMap::new();
                    if let Some(x) = x { m.insert(0, x.to_string()); }
                    if let Some(y) = y { m.insert(1, y.to_string()); }
                    r.push(m);
                }
            }
            for ks in [0..40u8, 20..60, 1..6, 2..70] {
                let t = ks.len();
                r.push(ks.map(|k| (k, format!("<{t}.{k}>"))).collect());
            }
            r
        };
        fn merge(a: &BTreeMap<u8, String>, b: &BTreeMap<u8, String>) -> BTreeMap<u8, String> {
            let mut r = BTreeMap::new();
            for k in 0..70 {
                match (a.get(&k), b.get(&k)) {
                    (Some(x), Some(y)) => { r.insert(k, format!("{x}{y}")); },
                    (Some(x), None) | (None, Some(x)) => { r.insert(k, x.clone()); },
                    _ => {},
                }
            }
            r
        }
        semi(c, "BTreeMap", true, &bm, merge);
        let hm: Vec<HashMap<u8, String>> = bm.iter().map(|m| m.clone().into_iter().collect()).collect();
        semi(c, "HashMap", true, &hm, |a, b| {
            let f = |m: &HashMap<u8, String>| m.clone().into_iter().collect::<BTreeMap<_, _>>();
            merge(&f(a), &f(b)).into_iter().collect()
        });
        // wrappers
        let firsts: Vec<First<u8>> = opt().into_iter().map(First).collect();
        mono(c, "First", true, &firsts, First(None), true, |a, b| First(a.0.or(b.0)));
        let lasts: Vec<Last<u8>> = opt().into_iter().map(Last).collect();
        mono(c, "Last", true, &lasts, Last(None), true, |a, b| Last(b.0.or(a.0)));
        let firsts: Vec<First<String>> = opt().into_iter().map(|o| First(o.map(|v| v.to_string()))).collect();
        mono(c, "First of strings", true, &firsts, First(None), true, |a, b| First(a.0.clone().or(b.0.clone())));
        let nums = [0u64, 1, 2, 7];
        mono(c, "Sum", true, &nums.map(Sum), Sum(0), true, |a, b| Sum(a.0 + b.0));
        mono(c, "Sum of i64", true, &[-3i64, -1, 0, 2].map(Sum), Sum(0), true, |a, b| Sum(a.0 + b.0));
        mono(c, "Product", false, &nums.map(Product), Product(1), true, |a, b| Product(a.0 * b.0));
        mono(c, "Product of i64", false, &[-3i64, -1, 0, 1, 2].map(Product), Product(1), true, |a, b| Product(a.0 * b.0));
        let texts: Vec<Ord2> = words.iter().cloned().map(Ord2).collect();
        let sums: Vec<Sum<Ord2>> = texts.iter().cloned().map(Sum).collect();
        semi(c, "Sum of texts", true, &sums, |a, b| Sum(a.0.clone() + b.0.clone()));
        let prods: Vec<Product<Ord2>> = texts.iter().cloned().map(Product).collect();
        semi(c, "Product of texts", true, &prods, |a, b| Product(a.0.clone() * b.0.clone()));
        let bytes = [0u8, 1, 2, 254, 255];
        mono(c, "Max", true, &bytes.map(Max), Max(0), true, |a, b| Max(a.0.max(b.0)));
        let ws: Vec<Max<String>> = words.iter().cloned().map(Max).collect();
        mono(c, "Max of strings", true, &ws, Max(String::new()), true, |a, b| Max(a.0.clone().max(b.0.clone())));
        mono(c, "Min", true, &bytes.map(Min), Min(0), false, |a, b| Min(a.0.min(b.0)));
        semi(c, "Min of i64", true, &[-3i64, -1, 0, 2].map(Min), |a, b| Min(a.0.min(b.0)));
        semi(c, "Max of i64", true, &[-3i64, -1, 0, 2].map(Max), |a, b| Max(a.0.max(b.0)));
        // ties: which of two equal values is kept is the library's choice, but it must be
        // the same in every variant and associative
        let ks: Vec<Keyed> = (0..2).flat_map(|a| (0..3).map(move |b| Keyed(a, b))).collect();
        let mx: Vec<Max<Keyed>> = ks.iter().cloned().map(Max).collect();
        semi(c, "Max with ties", true, &mx, |a, b| a.combine(b));
        let mn: Vec<Min<Keyed>> = ks.iter().cloned().map(Min).collect();
        semi(c, "Min with ties", true, &mn, |a, b| a.combine(b));
        // containers of combinable values
        let os: Vec<Option<String>> = [None].into_iter().chain(words.iter().take(4).cloned().map(Some)).collect();
        fn ocomb(a: &Option<String>, b: &Option<String>) -> Option<String> {
            match (a, b) {
                (Some(x), Some(y)) => Some(format!("{x}{y}")),
                _ => a.clone().or(b.clone()),
            }
        }
        semi(c, "Option", true, &os, ocomb);
        let ids: Vec<Id<String>> = words.iter().cloned().map(Id::new).collect();
        mono(c, "Id", true, &ids, Id::new(String::new()), true, |a, b| Id::new(format!("{}{}", a.as_ref(), b.as_ref())));
        let wr: Vec<Writer<Vec<u8>, String>> = vecs.iter().take(5).flat_map(|l| ["", "x", "yz"].map(|s| Writer::new(l.clone(), s.to_string()))).collect();
        mono(c, "Writer", true, &wr, Writer::new(vec![], String::new()), true, |a, b| {
            let ((la, va), (lb, vb)) = (a.clone().run(), b.clone().run());
            Writer::new([la, lb].concat(), format!("{va}{vb}"))
        });
        let vs: Vec<Validated<u8, u32>> = fam::space(Kind::Val, 1, 2).iter().map(fam::m_validated::mk)
            .chain([Validated::Invalid(Default::default()), Validated::Invalid((0..8).collect())]).collect();
        mono(c, "Validated", true, &vs, Validated::Invalid(Default::default()), true, |a, b| match (a, b) {
            (Validated::Valid(_), _) => a.clone(),
            (_, Validated::Valid(_)) => b.clone(),
            (Validated::Invalid(x), Validated::Invalid(y)) => Validated::Invalid(x.iter().chain(y.iter()).copied().collect()),
        });
        // tuples, nested
        let t2: Vec<(String, First<u8>)> = ["", "a", "b"].iter().flat_map(|s| [None, Some(1), Some(2)].map(|o| (s.to_string(), First(o)))).collect();
        fn c2(a: &(String, First<u8>), b: &(String, First<u8>)) -> (String, First<u8>) {
            (format!("{}{}", a.0, b.0), First(a.1.0.or(b.1.0)))
        }
        semi(c, "pairs", true, &t2, c2);
        type T3 = (String, Sum<u64>, Vec<u8>);
        let t3: Vec<T3> = ["a", "b"].iter().flat_map(|s| [1, 2].into_iter().flat_map(move |n| [vec![], vec![n as u8]].map(|v| (s.to_string(), Sum(n), v)))).collect();
        semi(c, "triples", true, &t3, |a: &T3, b: &T3| (format!("{}{}", a.0, b.0), Sum(a.1.0 + b.1.0), [a.2.clone(), b.2.clone()].concat()));
        type T3b = (First<u8>, String, Last<u8>);
        let t3b: Vec<T3b> = [None, Some(1), Some(2)].into_iter().flat_map(|o| ["", "a", "b"].map(|s| (First(o), s.to_string(), Last(o)))).collect();
        semi(c, "triples of ordered values", true, &t3b, |a: &T3b, b: &T3b| (First(a.0.0.or(b.0.0)), format!("{}{}", a.1, b.1), Last(b.2.0.or(a.2.0))));
        type T4b = (Vec<u8>, String, First<u8>, Last<u8>);
        let t4b: Vec<T4b> = [None, Some(1), Some(2)].into_iter().flat_map(|o: Option<u8>| ["", "a", "b"].map(|s| (o.into_iter().collect(), s.to_string(), First(o), Last(o)))).collect();
        semi(c, "quadruples of ordered values", true, &t4b, |a: &T4b, b: &T4b| ([a.0.clone(), b.0.clone()].concat(), format!("{}{}", a.1, b.1), First(a.2.0.or(b.2.0)), Last(b.3.0.or(a.3.0))));
        type T4 = (String, Last<u8>, String, Vec<u8>);
        let t4: Vec<T4> = ["a", "b"].iter().flat_map(|s| [1u8, 2].into_iter().flat_map(move |n| [None, Some(n)].map(|o| (s.to_string(), Last(o), format!("{s}{n}"), vec![n])))).collect();
        semi(c, "quadruples", true, &t4, |a: &T4, b: &T4| (format!("{}{}", a.0, b.0), Last(b.1.0.or(a.1.0)), format!("{}{}", a.2, b.2), [a.3.clone(), b.3.clone()].concat()));
        let on: Vec<Option<(String, First<u8>)>> = [None].into_iter().chain(t2.iter().step_by(2).cloned().map(Some)).collect();
        semi(c, "optional pairs", true, &on, |a, b| match (a, b) {
            (Some(x), Some(y)) => Some(c2(x, y)),
            _ => a.clone().or(b.clone()),
        });
        let nest: Vec<BTreeMap<u8, Option<String>>> = (0..4u8).flat_map(|k| [None, Some("p"), Some("q")].map(|v| [(k % 2, v.map(|s| s.to_string()))].into_iter().collect())).collect();
        semi(c, "maps of options", true, &nest, |a, b| {
            let mut r = a.clone();
            for (k, v) in b {
                let n = match r.get(k) { Some(x) => ocomb(x, v), None => v.clone() };
                r.insert(*k, n);
            }
            r
        });
        // predicates: extensionally, over all predicates of a three-element domain
        c.seq("Predicate", |w| {
            let mk = |m: u8| Predicate::new(move |x: &u8| m >> *x & 1 == 1);
            let tab = |p: &Predicate<u8>| (0..3u8).filter(|x| p.contains(x)).fold(0u8, |a, x| a | 1 << x);
            let eq = |w: &mut W, s: &str, p: Predicate<u8>, m: u8| w.eq(s, &tab(&p), &m);
            for a in 0..8u8 {
                w.case(|| format!("{a}"), |w| {
                    eq(w, "right identity", mk(a).combine(&Predicate::empty()), a)?;
                    eq(w, "left identity", Predicate::empty().combine_owned(mk(a)), a)?;
                    for n in 0..4 {
                        eq(w, "repeat", monoid::repeat(mk(a), n), if n == 0 { 0 } else { a })?;
                    }
                    for b in 0..8u8 {
                        eq(w, "combine", mk(a).combine(&mk(b)), a | b)?;
                        eq(w, "combine_owned", mk(a).combine_owned(mk(b)), a | b)?;
                        for d in 0..8u8 {
                            eq(w, "(ab)c", mk(a).combine(&mk(b)).combine(&mk(d)), a | b | d)?;
                            eq(w, "a(bc)", mk(a).combine_owned(mk(b).combine_owned(mk(d))), a | b | d)?;
                            eq(w, "mconcat", monoid::mconcat(&[mk(a), mk(b), mk(d)]), a | b | d)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    })
}
