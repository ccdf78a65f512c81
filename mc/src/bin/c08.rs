//! C08: functor laws and shape preservation, for every instance, borrowed and owned.
use mc::Ctx;
use mc::dom::tables;
use mc::fam::*;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::hkt::{BinaryHKT, HKT};
use rustica::utils::error_utils::WithError;
use rustica::traits::functor::{Functor, FunctorExt};

/// A functor defined outside the library, on which the trait's provided methods run.
#[derive(Clone, Debug, PartialEq)]
struct Row<T>(Vec<T>);
impl<T> HKT for Row<T> {
    type Source = T;
    type Output<U> = Row<U>;
}
impl<T> Functor for Row<T> {
    fn fmap<B, F: Fn(&T) -> B>(&self, f: F) -> Row<B> {
        Row(self.0.iter().map(f).collect())
    }
    fn fmap_owned<B, F: FnMut(T) -> B>(self, f: F) -> Row<B> {
        Row(self.0.into_iter().map(f).collect())
    }
}
impl<T> FunctorExt for Row<T> {
    fn filter_map<B, F: Fn(&T) -> Option<B>>(&self, f: F) -> Row<B> {
        Row(self.0.iter().filter_map(f).collect())
    }
}
fn provided(c: &Ctx) {
    let xs = mc::dom::seqs(&[0u32, 1, 2], c.pick(5, 7));
    c.par("functor ext of a user's functor", &xs, |w, l| {
        for f in tables(3, &[Some(0u32), Some(2), None]) {
            w.case(|| format!("{l:?} f={f:?}"), |w| {
                let x = Row(l.clone());
                let at = |v: &u32| f[*v as usize];
                w.eq("try_map_or", &x.try_map_or(99, |v| at(v).ok_or(*v)), &Row(l.iter().map(|v| at(v).unwrap_or(99)).collect()))?;
                w.eq("try_map_or_else", &x.try_map_or_else(|e| 1000 + *e, |v| at(v).ok_or(*v)), &Row(l.iter().map(|v| at(v).unwrap_or(1000 + *v)).collect()))?;
                w.eq("replace", &x.replace(&7u8), &Row(vec![7; l.len()]))?;
                w.eq("replace_owned", &x.clone().replace_owned(7u8), &Row(vec![7; l.len()]))
            });
        }
    });
}

fn lens(c: &Ctx) -> Vec<usize> {
    let more = [96, 100, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1001, 1024, 1025, 1056, 1057, 2112, 2113, 4200];
    (6..=c.pick(70, 200)).chain(more).chain(c.pick(vec![], vec![70000])).collect()
}

fn sorted(s: &std::cell::RefCell<Vec<u32>>) -> Vec<u32> {
    let mut v = s.take();
    v.sort();
    v
}

macro_rules! functor {
    ($c:expr, $m:ident) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let mut xs = space(I::K, c.pick(5, 6), c.pick(5, 6));
        xs.extend(long(I::K, &lens(c)));
        let ts = tables(3, &[0u32, 1, 2]);
        c.par(concat!("functor ", stringify!($m)), &xs, |w, m| {
            let x: X = I::mk(m);
            w.case(|| format!("shape and constants of {m:?}"), |w| {
                w.eq("model round trip", &I::un(&x), m)?;
                w.eq("identity", &I::un(&x.fmap(|v| *v)), m)?;
                w.eq("identity owned", &I::un(&x.clone().fmap_owned(|v| v)), m)?;
                w.eq("to string", &I::un(&x.fmap(|v| format!("<{v}>"))), &m.map(|v| format!("<{v}>")))?;
                w.eq("to string owned", &I::un(&x.clone().fmap_owned(|v| format!("<{v}>"))), &m.map(|v| format!("<{v}>")))?;
                w.eq("replace", &I::un(&x.replace(&"k".to_string())), &m.map(|_| "k".to_string()))?;
                w.eq("replace_owned", &I::un(&x.clone().replace_owned("k".to_string())), &m.map(|_| "k".to_string()))?;
                w.eq("void", &I::un(&x.void()), &m.map(|_| ()))?;
                w.eq("void_owned", &I::un(&x.clone().void_owned()), &m.map(|_| ()))?;
                let seen = std::cell::RefCell::new(vec![]);
                let mut want = m.vals.clone();
                want.sort();
                x.fmap(|v| seen.borrow_mut().push(*v));
                w.eq("fmap calls the function once per value", &sorted(&seen), &want)?;
                x.clone().fmap_owned(|v| seen.borrow_mut().push(v));
                w.eq("fmap_owned calls the function once per value", &sorted(&seen), &want)?;
                w.eq("argument unchanged", &I::un(&x), m)
            });
            let many = m.vals.len() <= 10;
            for (i, f) in ts.iter().enumerate() {
                if !many && i % 5 != 0 { continue; }
                w.case(|| format!("x={m:?} f={f:?}"), |w| {
                    let want = m.map(|v| at(f, *v));
                    let y: X = x.fmap(func(f));
                    w.eq("fmap", &I::un(&y), &want)?;
                    w.eq("fmap_owned", &I::un(&x.clone().fmap_owned(func_o(f))), &want)?;
                    for (j, g) in ts.iter().enumerate() {
                        if !many && j % 7 != 0 { continue; }
                        let want = m.map(|v| at(g, at(f, *v)));
                        w.same("fmap after fmap", &I::un(&y.fmap(func(g))), &want)?;
                        w.same("fmap of composition", &I::un(&x.fmap(|v| at(g, at(f, *v)))), &want)?;
                        w.same("owned composition", &I::un(&x.clone().fmap_owned(func_o(f)).fmap_owned(func_o(g))), &want)?;
                    }
                    w.eq("argument unchanged", &I::un(&x), m)
                });
            }
        });
    }};
}

macro_rules! functor_ext {
    ($c:expr, $m:ident) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let mut xs = space(I::K, c.pick(4, 6), 1);
        xs.extend(long(I::K, &lens(c)));
        // all values dropped but one, or all kept but one
        for m in xs.iter().filter(|m| m.vals.len() > 6) {
            let (x, n): (X, usize) = (I::mk(m), m.vals.len());
            c.seq(concat!("sparse filter_map ", stringify!($m)), |w| {
                for at in [0, 1, n / 3, n / 2, n - 2, n - 1].into_iter().chain([15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 1023]).filter(|i| *i < n) {
                    w.case(|| format!("{n} values, special one at {at}"), |w| {
                        let (first, at) = (m.vals[0], m.vals[at]);
                        let sel = |v: u32| v == first || v == at;
                        for keep in [true, false] {
                            let want = M { vals: m.vals.iter().copied().filter(|v| sel(*v) == keep).collect::<Vec<_>>(), errs: vec![], log: vec![] };
                            w.eq("filter_map", &I::un(&FunctorExt::filter_map(&x, |v| (sel(*v) == keep).then_some(*v))), &want)?;
                            let e = m.map(|v| if sel(*v) == keep { *v } else { 9 });
                            w.eq("try_map_or", &I::un(&x.try_map_or(9, |v| (sel(*v) == keep).then_some(*v).ok_or(()))), &e)?;
                        }
                        Ok(())
                    });
                }
            });
        }
        // functions {0,1,2} -> {0,1,fail}
        let ts = tables(3, &[Some(0u32), Some(2), None]);
        c.par(concat!("functor ext ", stringify!($m)), &xs, |w, m| {
            let x: X = I::mk(m);
            for f in &ts {
                w.case(|| format!("x={m:?} f={f:?}"), |w| {
                    let at = |v: &u32| f[(*v % 3) as usize].map(|r| r + 3 * (*v / 3));
                    let mut want = M { vals: m.vals.iter().filter_map(at).collect::<Vec<_>>(), errs: m.errs.clone(), log: vec![] };
                    if I::K == Kind::Res && want.vals.is_empty() && want.errs.is_empty() {
                        want.errs = vec![0]; // documented: the error type's default
                    }
                    w.eq("filter_map", &I::un(&FunctorExt::filter_map(&x, at)), &want)?;
                    let calls = std::cell::RefCell::new(vec![]);
                    let once = |w: &mut mc::W, what: &str| w.same(what, &calls.take(), &m.vals);
                    let _ = FunctorExt::filter_map(&x, |v| { calls.borrow_mut().push(*v); at(v) });
                    once(w, "filter_map calls")?;
                    let _ = x.try_map_or(99, |v| { calls.borrow_mut().push(*v); at(v).ok_or(*v) });
                    once(w, "try_map_or calls")?;
                    let _ = x.try_map_or_else(|e| 1000 + *e, |v| { calls.borrow_mut().push(*v); at(v).ok_or(*v) });
                    once(w, "try_map_or_else calls")?;
                    w.eq("try_map_or", &I::un(&x.try_map_or(99, |v| at(v).ok_or(*v))), &m.map(|v| at(v).unwrap_or(99)))?;
                    w.eq("try_map_or_else", &I::un(&x.try_map_or_else(|e| 1000 + *e, |v| at(v).ok_or(*v))), &m.map(|v| at(v).unwrap_or(1000 + *v)))
                });
            }
        });
    }};
}

macro_rules! bifunctor {
    ($c:expr, $m:ident) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let mut xs = space(I::K, 1, c.pick(5, 7));
        xs.extend(long(I::K, &lens(c)));
        let ts = tables(3, &[0u32, 1, 2]);
        let es = tables(3, &[7u8, 8, 9]);
        c.par(concat!("bifunctor ", stringify!($m)), &xs, |w, m| {
            let x: X = I::mk(m);
            let ea = |g: &Vec<u8>, e: u8| if e >= 7 && e < 10 { g[(e - 7) as usize] } else { e };
            let side = |g: &Vec<u8>, m: &M<u32>| M { vals: m.vals.clone(), errs: m.errs.iter().map(|e| ea(g, *e)).collect(), log: vec![] };
            for f in &ts {
                w.case(|| format!("x={m:?} f={f:?}"), |w| {
                    w.eq("first", &I::un(&Bifunctor::first(&x, func(f))), &m.map(|v| at(f, *v)))?;
                    for g in &es {
                        let y = side(g, m);
                        w.same("second", &I::un(&Bifunctor::second(&x, |e| ea(g, *e))), &y)?;
                        let want = y.map(|v| at(f, *v));
                        w.same("bimap", &I::un(&x.bimap(func(f), |e| ea(g, *e))), &want)?;
                        w.same("first then second", &I::un(&Bifunctor::second(&Bifunctor::first(&x, func(f)), |e| ea(g, *e))), &want)?;
                        w.same("map_second", &I::un(&x.map_second(|e| ea(g, *e))), &y)?;
                        w.same("map_second_owned", &I::un(&x.clone().map_second_owned(|e| ea(g, e))), &y)?;
                        w.same("fmap_error", &I::un(&x.clone().fmap_error(|e| ea(g, e))), &y)?;
                        w.same("second then first", &I::un(&Bifunctor::first(&Bifunctor::second(&x, |e| ea(g, *e)), func(f))), &want)?;
                    }
                    w.eq("argument unchanged", &I::un(&x), m)
                });
            }
        });
    }};
}

fn main() {
    mc::run("C08", |c| {
        c.assume("element functions range over all 27 functions {0,1,2}->{0,1,2} (extended blockwise to longer values) and value sizes up to the stated bounds; values are plain integers and strings");
        functor!(c, m_option);
        functor!(c, m_maybe);
        functor!(c, m_first);
        functor!(c, m_last);
        functor!(c, m_result);
        functor!(c, m_either);
        functor!(c, m_validated);
        functor!(c, m_vec);
        functor!(c, m_choice);
        functor!(c, m_pvec);
        functor!(c, m_id);
        functor!(c, m_sum);
        functor!(c, m_product);
        functor!(c, m_max);
        functor!(c, m_min);
        functor!(c, m_writer);
        functor_ext!(c, m_option);
        functor_ext!(c, m_result);
        functor_ext!(c, m_vec);
        provided(c);
        bifunctor!(c, m_either);
        bifunctor!(c, m_validated);
    })
}
