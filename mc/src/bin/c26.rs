//! C26: folds agree with the element sequence for every foldable container.
//!
//! Every sequence over a three-element domain up to a length, built in every foldable container that can
//! hold it (the persistent vector by several construction histories), with order-revealing fold functions
//! and every predicate of the domain; call traces are recorded.
use mc::dom::{funs, seqs};
use mc::{Res, W};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, product::Product, sum::Sum};
use rustica::pvec::PersistentVector;
use rustica::traits::foldable::{Foldable, FoldableExt};
use std::cell::RefCell;
use std::fmt::Debug;

type U = u32;
/// An element whose order ignores its tag, so that ties in maximum/minimum/is_sorted are visible.
#[derive(Clone, Debug, Eq)]
struct K(u32, usize);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
/// Text that is not the same backwards.
#[derive(Clone, Debug, PartialEq)]
struct Cat(String);
impl rustica::traits::semigroup::Semigroup for Cat {
    fn combine(&self, o: &Self) -> Self {
        Cat(format!("{}{}", self.0, o.0))
    }
    fn combine_owned(self, o: Self) -> Self {
        Cat(self.0 + &o.0)
    }
}
impl rustica::traits::monoid::Monoid for Cat {
    fn empty() -> Self {
        Cat(String::new())
    }
}
impl std::ops::Add for Cat {
    type Output = Cat;
    fn add(self, o: Cat) -> Cat {
        Cat(self.0 + &o.0)
    }
}
impl std::ops::Mul for Cat {
    type Output = Cat;
    fn mul(self, o: Cat) -> Cat {
        Cat(self.0 + &o.0)
    }
}
impl Default for Cat {
    fn default() -> Cat {
        Cat(String::new())
    }
}
/// The number one is the identity of the multiplication.
impl From<u8> for Cat {
    fn from(n: u8) -> Cat {
        Cat(if n == 1 { String::new() } else { format!("#{n}") })
    }
}
impl From<U> for Cat {
    fn from(x: U) -> Cat {
        Cat(format!("<{x}>"))
    }
}
/// The calls must be an in-order prefix of the elements that reaches at least `need` of them.
fn prefix(w: &mut W, what: &str, seen: &RefCell<Vec<U>>, l: &[U], need: usize) -> Res {
    let s = seen.take();
    w.ok(&format!("{what}: calls {s:?} are an in-order prefix of {l:?} of length at least {need}"), s.len() >= need && s.len() <= l.len() && s == l[..s.len()])
}
fn folds<T: Foldable<Source = U>>(w: &mut W, t: &T, l: &[U], long: bool) -> Res {
    let cat = |l: &mut dyn Iterator<Item = &U>, init: &str| l.fold(init.to_string(), |a, x| format!("({a}.{x})"));
    for init in ["", "i"] {
        w.eq("fold_left", &t.fold_left(&init.to_string(), |a, x| format!("({a}.{x})")), &cat(&mut l.iter(), init))?;
        w.eq("fold_right", &t.fold_right(&init.to_string(), |x, a| format!("({a}.{x})")), &cat(&mut l.iter().rev(), init))?;
    }
    let seen = RefCell::new(vec![]);
    t.fold_left(&(), |_, x| seen.borrow_mut().push(*x));
    w.eq("fold_left calls", &seen.take(), &l.to_vec())?;
    t.fold_right(&(), |x, _| seen.borrow_mut().push(*x));
    w.eq("fold_right calls", &seen.take(), &l.iter().rev().copied().collect::<Vec<_>>())?;
    w.eq("length", &t.length(), &l.len())?;
    w.eq("is_empty", &Foldable::is_empty(t), &l.is_empty())?;
    w.eq("to_vec", &FoldableExt::to_vec(t), &l.to_vec())?;
    let text: String = l.iter().map(|x| format!("<{x}>")).collect();
    w.eq("fold_map", &t.fold_map(|x| Cat(format!("<{x}>"))), &Cat(text.clone()))?;
    w.eq("fold_monoid", &t.fold_monoid::<Cat>(), &Cat(text))?;
    w.eq("fold_monoid First", &t.fold_monoid::<First<U>>().0, &l.first().copied())?;
    w.eq("fold_monoid Last", &t.fold_monoid::<Last<U>>().0, &l.last().copied())?;
    w.eq("fold_monoid Sum", &t.fold_monoid::<Sum<U>>().0, &l.iter().sum::<U>())?;
    w.eq("fold_map Max", &t.fold_map(|x| Max(*x)).0, &l.iter().copied().max().unwrap_or(0))?;
    w.eq("sum_values", &t.sum_values(), &l.iter().sum::<U>())?;
    if !long {
        w.eq("product_values", &t.product_values(), &l.iter().product::<U>())?;
        w.eq("fold_map Product", &t.fold_map(|x| Product(*x)).0, &l.iter().product::<U>())?;
    }
    w.eq("maximum", &FoldableExt::maximum(t), &l.iter().max().copied())?;
    w.eq("minimum", &FoldableExt::minimum(t), &l.iter().min().copied())?;
    w.eq("is_sorted", &FoldableExt::is_sorted(t), &l.is_sorted())?;
    w.eq("reduce", &FoldableExt::reduce(t, |a, x| a.wrapping_mul(7).wrapping_add(*x)), &l.iter().copied().reduce(|a, x| a.wrapping_mul(7).wrapping_add(x)))?;
    for x in 0..4 {
        w.eq("contains", &FoldableExt::contains(t, &x), &l.contains(&x))?;
    }
    Ok(())
}
fn quantifiers<T: Foldable<Source = U>>(w: &mut W, t: &T, l: &[U], n: u32) -> Res {
    for p in funs(n as usize, &[false, true]) {
        let seen = RefCell::new(vec![]);
        let q = |x: &U| {
            seen.borrow_mut().push(*x);
            p.at(*x as usize)
        };
        let m = |x: &U| p.at(*x as usize);
        let upto = |b: bool| l.iter().position(|x| m(x) == b).map_or(l.len(), |i| i + 1);
        w.eq("find", &FoldableExt::find(t, q), &l.iter().find(|x| m(x)).copied())?;
        prefix(w, "find", &seen, l, upto(true))?;
        w.eq("any", &FoldableExt::any(t, q), &l.iter().any(m))?;
        prefix(w, "any", &seen, l, upto(true))?;
        w.eq("all", &FoldableExt::all(t, q), &l.iter().all(m))?;
        prefix(w, "all", &seen, l, upto(false))?;
        let want = if l.iter().all(m) { Some(Cat(l.iter().map(|x| format!("<{x}>")).collect())) } else { None };
        w.eq("fold_option", &t.fold_option(|x| q(x).then(|| Cat::from(*x))), &want)?;
        prefix(w, "fold_option", &seen, l, upto(false))?;
    }
    Ok(())
}
fn ties<T: Foldable<Source = K>>(w: &mut W, t: &T, l: &[K]) -> Res {
    let tag = |k: Option<K>| k.map(|k| (k.0, k.1));
    let max = l.iter().fold(None::<&K>, |m, x| if m.is_none_or(|m| x > m) { Some(x) } else { m });
    let min = l.iter().fold(None::<&K>, |m, x| if m.is_none_or(|m| x < m) { Some(x) } else { m });
    w.eq("maximum is an element", &FoldableExt::maximum(t).map(|k| l.iter().any(|x| x.1 == k.1 && x.0 == k.0)), &max.map(|_| true))?;
    w.eq("minimum is an element", &FoldableExt::minimum(t).map(|k| l.iter().any(|x| x.1 == k.1 && x.0 == k.0)), &min.map(|_| true))?;
    w.eq("maximum value", &FoldableExt::maximum(t).map(|k| k.0), &max.map(|k| k.0))?;
    w.eq("minimum value", &FoldableExt::minimum(t).map(|k| k.0), &min.map(|k| k.0))?;
    w.eq("is_sorted", &FoldableExt::is_sorted(t), &l.is_sorted())?;
    // Search and membership return the first of several equal elements.
    for v in 0..3u32 {
        w.eq("find first equal", &tag(FoldableExt::find(t, |k| k.0 == v)), &tag(l.iter().find(|k| k.0 == v).cloned()))?;
        w.eq("contains equal", &FoldableExt::contains(t, &K(v, 999)), &l.iter().any(|k| k.0 == v))?;
    }
    w.eq("to_vec keeps tags", &FoldableExt::to_vec(t).iter().map(|k| k.1).collect::<Vec<_>>(), &l.iter().map(|k| k.1).collect::<Vec<_>>())
}
/// Sums and products whose order is visible.
fn ordered<T: Foldable<Source = Cat>>(w: &mut W, t: &T, l: &[Cat]) -> Res {
    let want = Cat(l.iter().map(|x| x.0.as_str()).collect());
    w.eq("sum_values in order", &t.sum_values(), &want)?;
    w.eq("product_values in order", &t.product_values(), &want)?;
    w.eq("fold_monoid in order", &t.fold_monoid::<Cat>(), &want)?;
    w.eq("fold_monoid Sum in order", &t.fold_map(|x| Sum(x.clone())).0, &want)
}
/// Persistent vectors with these elements, reached by different histories.
fn pvs<T: Clone + Debug>(l: &[T]) -> Vec<(&'static str, PersistentVector<T>)> {
    let mut r = vec![
        ("from_slice", PersistentVector::from_slice(l)),
        ("push_back", l.iter().fold(PersistentVector::new(), |v, x| v.push_back(x.clone()))),
        ("push_front", l.iter().rev().fold(PersistentVector::new(), |v, x| v.push_front(x.clone()))),
    ];
    for at in [1usize, 31, 33, l.len() / 2] {
        if at <= l.len() {
            r.push(("concat", PersistentVector::from_slice(&l[..at]).concat(&PersistentVector::from_slice(&l[at..]))));
        }
    }
    if let Some(x) = l.first() {
        let mut m = vec![x.clone(); 3];
        m.extend(l.iter().cloned());
        m.push(x.clone());
        r.push(("take/skip", PersistentVector::from_slice(&m).skip(3).take(l.len())));
    }
    r
}

fn main() {
    mc::run("C26", |c| {
        let n = c.pick(9, 11);
        let dom: [U; 3] = [0, 1, 2];
        let ls = seqs(&dom, n);
        c.note("sequences", &format!("all sequences over three elements up to length {n} in every foldable container"));
        macro_rules! chk { ($w:expr, $name:expr, $t:expr, $l:expr) => { {
            let (t, l): (_, &[U]) = ($t, $l);
            $w.case(|| format!("{} {l:?}", $name), |w| {
                w.state(mc::hash_debug(&t));
                folds(w, &t, l, false)?;
                quantifiers(w, &t, l, 3)
            });
        } } }
        c.par("sequences", &ls, |w, l| {
            chk!(w, "Vec", l.clone(), l);
            chk!(w, "Choice", l.iter().copied().collect::<Choice<U>>(), l);
            if l.len() <= 5 || l.len() == n {
                for (h, v) in pvs(l) {
                    chk!(w, format!("PersistentVector {h}"), v, l);
                }
            }
            if l.len() <= 1 {
                chk!(w, "Option", l.first().copied(), l);
                chk!(w, "Result", l.first().copied().ok_or(9u32), l);
                chk!(w, "Validated", l.first().map_or_else(|| Validated::invalid_many([0u32, 1]), |x| Validated::valid(*x)), l);
            }
            if l.len() == 1 {
                chk!(w, "Id", Id::new(l[0]), l);
            }
            let cs: Vec<Cat> = l.iter().map(|x| Cat::from(*x)).collect();
            w.case(|| format!("ordered sums {l:?}"), |w| {
                ordered(w, &cs, &cs)?;
                ordered(w, &cs.iter().cloned().collect::<Choice<Cat>>(), &cs)?;
                ordered(w, &PersistentVector::from_slice(&cs), &cs)?;
                if cs.len() <= 1 {
                    ordered(w, &cs.first().cloned(), &cs)?;
                    ordered(w, &cs.first().cloned().ok_or(0u8), &cs)?;
                }
                Ok(())
            });
            let ks: Vec<K> = l.iter().enumerate().map(|(i, x)| K(*x, i)).collect();
            w.case(|| format!("ties {l:?}"), |w| {
                ties(w, &ks, &ks)?;
                ties(w, &ks.iter().cloned().collect::<Choice<K>>(), &ks)?;
                ties(w, &PersistentVector::from_slice(&ks), &ks)?;
                if ks.len() <= 1 {
                    ties(w, &ks.first().cloned(), &ks)?;
                    ties(w, &ks.first().cloned().ok_or(0u8), &ks)?;
                    ties(w, &ks.first().cloned().map_or_else(|| Validated::invalid(0u8), Validated::valid), &ks)?;
                }
                Ok(())
            });
        });
        // Long values: node and inline-buffer boundaries.
        let lens: Vec<usize> = c.pick(
            vec![6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 95, 96, 97, 128, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 1056, 1057, 2049, 4097, 10_001],
            (6..=140).chain(1000..=1100).chain([255, 256, 257, 511, 512, 513, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 10_001]).collect(),
        );
        c.par("long", &lens, |w, n| {
            let l: Vec<U> = (0..*n as U).collect();
            macro_rules! long { ($name:expr, $t:expr) => { {
                let t = $t;
                w.case(|| format!("{} length {n}", $name), |w| folds_long(w, &t, &l));
            } } }
            long!("Vec", l.clone());
            long!("Choice", l.iter().copied().collect::<Choice<U>>());
            for (h, v) in pvs(&l) {
                long!(format!("PersistentVector {h}"), v);
            }
        });
    })
}
fn folds_long<T: Foldable<Source = U>>(w: &mut W, t: &T, l: &[U]) -> Res {
    let h = |a: &u64, x: &U| a.wrapping_mul(1_000_003).wrapping_add(*x as u64 + 1);
    w.eq("fold_left", &t.fold_left(&1u64, h), &l.iter().fold(1, |a, x| h(&a, x)))?;
    w.eq("fold_right", &t.fold_right(&1u64, |x, a| h(a, x)), &l.iter().rev().fold(1, |a, x| h(&a, x)))?;
    let seen = RefCell::new(vec![]);
    t.fold_right(&(), |x, _| seen.borrow_mut().push(*x));
    w.eq("fold_right calls", &seen.take(), &l.iter().rev().copied().collect::<Vec<_>>())?;
    w.eq("length", &t.length(), &l.len())?;
    w.eq("maximum", &FoldableExt::maximum(t), &l.iter().max().copied())?;
    w.eq("minimum", &FoldableExt::minimum(t), &l.iter().min().copied())?;
    w.eq("is_sorted", &FoldableExt::is_sorted(t), &true)?;
    w.eq("sum", &t.sum_values(), &l.iter().sum::<U>())?;
    w.eq("fold_monoid Last", &t.fold_monoid::<Last<U>>().0, &l.last().copied())?;
    for x in [0, 1, l.len() as U / 2, l.len() as U - 1, l.len() as U] {
        w.eq("contains", &FoldableExt::contains(t, &x), &((x as usize) < l.len()))?;
        w.eq("find", &FoldableExt::find(t, |y| *y >= x), &((x as usize) < l.len()).then_some(x))?;
    }
    Ok(())
}
