//! C24: composition forms a category with arrow structure; composition and pipeline helpers apply
//! their stages in the documented order. All functions over a three-element domain, all inputs; every
//! stage records itself, so order and number of calls are compared as well as values.
use mc::dom::tables;
use rustica::category::function_category::{Arrow, Category, FunctionCategory as FC, FunctionMorphism, compose, function, pipe};
use rustica::traits::hkt::HKT;
use rustica::utils::{categorical_utils as cu, functions as fu, hkt_utils as hu, transform_utils as tu};
use std::fmt::Debug;
use std::sync::Arc;

type U = u8;
const D: [U; 3] = [0, 1, 2];
fn log(i: u8) {
    mc::prog::log(i as u32)
}
fn take() -> Vec<u8> {
    mc::prog::take().into_iter().map(|e| e as u8).collect()
}
/// Calls a function on every input inside every stage of a call of it on every input.
fn nested<X: Clone + Debug, Y: PartialEq + Debug>(w: &mut mc::W, name: &str, f: &dyn Fn(X) -> Y, xs: &[X]) -> mc::Res {
    let alone: Vec<(Y, Vec<u32>)> = xs.iter().map(|x| { take(); let y = f(x.clone()); (y, mc::prog::take()) }).collect();
    for (x, wx) in xs.iter().zip(&alone) {
        for (z, wz) in xs.iter().zip(&alone) {
            for n in 0..wx.1.len() {
                let (outer, inner) = mc::prog::nested(n, || f(x.clone()), || f(z.clone()));
                w.same(name, &(n, "outer", &outer), &(n, "outer", wx))?;
                w.same(name, &(n, "inner", inner.as_ref()), &(n, "inner", Some(wz)))?;
            }
        }
    }
    Ok(())
}
/// A recording table function.
fn fun(i: u8, t: &[U]) -> impl Fn(U) -> U + Clone + 'static {
    let t = t.to_vec();
    move |x| {
        log(i);
        t[x as usize % 3]
    }
}
fn arr(i: u8, t: &[U]) -> FunctionMorphism<U, U> {
    FC::arrow(fun(i, t))
}
/// Runs a function and returns its value with the stages it called.
fn run<X, Y>(f: &dyn Fn(X) -> Y, x: X) -> (Y, Vec<u8>) {
    take();
    let y = f(x);
    (y, take())
}

/// A category of the user's own that relies on the trait's default `split`: functions that count.
struct Counting;
type CM<A, B> = Arc<dyn Fn(A, &mut Vec<u8>) -> B>;
impl Category for Counting {
    type Morphism<A, B> = CM<A, B>;
    fn identity_morphism<A>() -> CM<A, A> {
        Arc::new(|a, _| a)
    }
    fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &CM<B, C>, f: &CM<A, B>) -> CM<A, C> {
        let (f, g) = (f.clone(), g.clone());
        Arc::new(move |a, l| {
            let b = f(a, l);
            g(b, l)
        })
    }
}
impl Arrow for Counting {
    fn arrow<B, C, F: Fn(B) -> C + 'static>(f: F) -> CM<B, C> {
        Arc::new(move |b, _| f(b))
    }
    fn first<B: 'static, C: 'static, D: 'static>(f: &CM<B, C>) -> CM<(B, D), (C, D)> {
        let f = f.clone();
        Arc::new(move |(b, d), l| (f(b, l), d))
    }
    fn second<B: 'static, C: 'static, D: 'static>(f: &CM<B, C>) -> CM<(D, B), (D, C)> {
        let f = f.clone();
        Arc::new(move |(d, b), l| (d, f(b, l)))
    }
    fn combine_morphisms<B: 'static, C: 'static, D: 'static, E: 'static>(f: &CM<B, C>, g: &CM<D, E>) -> CM<(B, D), (C, E)> {
        let (f, g) = (f.clone(), g.clone());
        Arc::new(move |(b, d), l| (f(b, l), g(d, l)))
    }
}

type S = Vec<u8>;
/// Stage `i` of a pipeline over lists: appends `i`; such stages decide the order for every pipeline.
fn push(i: u8) -> impl Fn(S) -> S + Copy + 'static {
    move |mut s: S| {
        log(i);
        s.push(i);
        s
    }
}

fn main() {
    mc::run("C24", |c| {
        c.assume("morphisms are pure functions up to the recorded order of calls");
        let fs = tables(3, &D);
        let idx: Vec<usize> = (0..fs.len()).collect();
        c.par("category laws", &idx, |w, &i| {
            let f = &fs[i];
            for g in &fs {
                w.case(|| format!("{f:?} {g:?}"), |w| {
                    let (af, ag) = (arr(1, f), arr(2, g));
                    let gf = FC::compose_morphisms(&ag, &af);
                    let id = FC::identity_morphism::<U>();
                    for x in D {
                        let want = g[f[x as usize] as usize];
                        w.eq("compose", &run(&*gf, x), &(want, vec![1, 2]))?;
                        w.eq("twice", &run(&*gf.clone(), x), &(want, vec![1, 2]))?;
                        w.eq("left unit", &run(&*FC::compose_morphisms(&id, &af), x), &(f[x as usize], vec![1]))?;
                        w.eq("right unit", &run(&*FC::compose_morphisms(&af, &id), x), &(f[x as usize], vec![1]))?;
                        w.eq("lift", &run(&*FC::lift(fun(3, f)), x), &(f[x as usize], vec![3]))?;
                        w.eq("compose helper", &run(&cu::compose(fun(2, g), fun(1, f)), x), &(want, vec![1, 2]))?;
                        w.eq("pipe helper", &run(&cu::pipe(fun(1, f), fun(2, g)), x), &(want, vec![1, 2]))?;
                        w.eq("compose macro", &run(&*compose!(fun(2, g), fun(1, f)), x), &(want, vec![1, 2]))?;
                        w.eq("pipe macro", &run(&*pipe!(fun(1, f), fun(2, g)), x), &(want, vec![1, 2]))?;
                        w.eq("id", &fu::id(x), &x)?;
                        w.eq("const_fn", &fu::const_fn::<U, S>(x)(vec![9]), &x)?;
                    }
                    Ok(())
                });
                if w.stopped() {
                    return;
                }
                for h in &fs {
                    w.case(|| format!("{f:?} {g:?} {h:?}"), |w| {
                        let (af, ag, ah) = (arr(1, f), arr(2, g), arr(3, h));
                        let l = FC::compose_morphisms(&FC::compose_morphisms(&ah, &ag), &af);
                        let r = FC::compose_morphisms(&ah, &FC::compose_morphisms(&ag, &af));
                        let m = compose!(fun(3, h), fun(2, g), fun(1, f));
                        let p = pipe!(fun(1, f), fun(2, g), fun(3, h));
                        let s = FC::sequence(vec![fun(1, f), fun(2, g), fun(3, h)]);
                        for x in D {
                            let want = (h[g[f[x as usize] as usize] as usize], vec![1, 2, 3]);
                            w.same("left nested", &run(&*l, x), &want)?;
                            w.same("right nested", &run(&*r, x), &want)?;
                            w.same("compose!", &run(&*m, x), &want)?;
                            w.same("pipe!", &run(&*p, x), &want)?;
                            w.same("sequence", &run(&*s, x), &want)?;
                        }
                        Ok(())
                    });
                }
            }
        });
        let pairs: Vec<(U, U)> = D.iter().flat_map(|a| D.map(|b| (*a, b))).collect();
        c.par("arrow laws", &idx, |w, &i| {
            let f = &fs[i];
            for g in &fs {
                w.case(|| format!("{f:?} {g:?}"), |w| {
                    let (af, ag) = (arr(1, f), arr(2, g));
                    let gf = FC::compose_morphisms(&ag, &af);
                    let fi = |x: U| f[x as usize];
                    let gi = |x: U| g[x as usize];
                    for &(a, b) in &pairs {
                        let x = (a, b);
                        w.eq("first", &run(&*FC::first::<U, U, U>(&af), x), &((fi(a), b), vec![1]))?;
                        w.eq("second", &run(&*FC::second::<U, U, U>(&af), x), &((a, fi(b)), vec![1]))?;
                        w.eq("first of a composition", &run(&*FC::first::<U, U, U>(&gf), x), &((gi(fi(a)), b), vec![1, 2]))?;
                        w.eq("second of a composition", &run(&*FC::second::<U, U, U>(&gf), x), &((a, gi(fi(b))), vec![1, 2]))?;
                        let c1 = FC::compose_morphisms(&FC::first::<U, U, U>(&ag), &FC::first::<U, U, U>(&af));
                        w.eq("composition of firsts", &run(&*c1, x), &((gi(fi(a)), b), vec![1, 2]))?;
                        // parallel = first then second, either way round for pure functions
                        w.eq("parallel", &run(&*FC::combine_morphisms(&af, &ag), x).0, &(fi(a), gi(b)))?;
                        w.eq("parallel calls each once", &{ let mut l = run(&*FC::combine_morphisms(&af, &ag), x).1; l.sort(); l }, &vec![1, 2])?;
                        let fsq = FC::compose_morphisms(&FC::second::<U, U, U>(&ag), &FC::first::<U, U, U>(&af));
                        w.eq("first then second", &run(&*fsq, x), &((fi(a), gi(b)), vec![1, 2]))?;
                        let sfq = FC::compose_morphisms(&FC::first::<U, U, U>(&af), &FC::second::<U, U, U>(&ag));
                        w.eq("second then first", &run(&*sfq, x), &((fi(a), gi(b)), vec![2, 1]))?;
                        w.eq("both", &run(&*FC::both(fun(1, f)), x).0, &(fi(a), fi(b)))?;
                        w.eq("both calls twice", &run(&*FC::both(fun(1, f)), x).1, &vec![1, 1])?;
                        // projection and re-association
                        let proj: FunctionMorphism<(U, U), U> = FC::arrow(|p: (U, U)| p.0);
                        let l = FC::compose_morphisms(&proj, &FC::first::<U, U, U>(&af));
                        let r = FC::compose_morphisms(&af, &proj);
                        w.eq("projection", &run(&*l, x), &run(&*r, x))?;
                        for z in D {
                            let y = ((a, b), z);
                            let assoc: FunctionMorphism<((U, U), U), (U, (U, U))> = FC::arrow(|((a, b), c)| (a, (b, c)));
                            let l = FC::compose_morphisms(&assoc, &FC::first::<(U, U), (U, U), U>(&FC::first::<U, U, U>(&af)));
                            let r = FC::compose_morphisms(&FC::first::<U, U, (U, U)>(&af), &assoc);
                            w.eq("re-association", &run(&*l, y), &run(&*r, y))?;
                        }
                        w.eq("flip", &cu::flip(|p: U, q: U| (gi(p), fi(q)))(a, b), &(gi(b), fi(a)))?;
                    }
                    for x in D {
                        w.eq("split", &run(&*FC::split(&af, &ag), x).0, &(fi(x), gi(x)))?;
                        w.eq("split calls each once", &{ let mut l = run(&*FC::split(&af, &ag), x).1; l.sort(); l }, &vec![1, 2])?;
                        let dup: FunctionMorphism<U, (U, U)> = FC::arrow(|x| (x, x));
                        w.eq("split is parallel after duplication",
                            &run(&*FC::compose_morphisms(&FC::combine_morphisms(&af, &ag), &dup), x).0, &(fi(x), gi(x)))?;
                    }
                    // the trait's own default for a category that does not override it
                    let cf: CM<U, U> = { let f = f.clone(); Arc::new(move |x, l| { l.push(1); f[x as usize] }) };
                    let cg: CM<U, char> = { let g = g.clone(); Arc::new(move |x, l| { l.push(2); (b'a' + g[x as usize]) as char }) };
                    let sp = Counting::split(&cf, &cg);
                    for x in D {
                        let mut l = vec![];
                        w.eq("default split", &sp(x, &mut l), &(fi(x), (b'a' + gi(x)) as char))?;
                        w.eq("default split calls", &l, &vec![1, 2])?;
                    }
                    Ok(())
                });
                // conditional forms, all predicates
                for p in tables(3, &[false, true]) {
                    w.case(|| format!("if {p:?}: {f:?} {g:?}"), |w| {
                        let pp = { let p = p.clone(); move |x: &U| { log(9); p[*x as usize] } };
                        let (fi, gi) = (|x: U| f[x as usize], |x: U| g[x as usize]);
                        let (af, ag) = (arr(1, f), arr(2, g));
                        for x in D {
                            let want = if p[x as usize] { (fi(x), vec![9, 1]) } else { (x, vec![9]) };
                            w.eq("when", &run(&*FC::when(pp.clone(), fun(1, f)), x), &want)?;
                            let y = fi(x);
                            let want = if p[y as usize] { (gi(y), vec![1, 9, 2]) } else { (y, vec![1, 9]) };
                            w.eq("then_if", &run(&*FC::then_if(&af, &ag, pp.clone()), x), &want)?;
                            #[allow(deprecated)]
                            let o = FC::compose_when(&af, &ag, pp.clone());
                            w.eq("compose_when", &run(&*o, x), &want)?;
                        }
                        Ok(())
                    });
                }
            }
        });
        // one morphism used in several places
        c.par("shared morphisms", &idx, |w, &i| {
            let f = &fs[i];
            for g in &fs {
                w.case(|| format!("{f:?} {g:?}"), |w| {
                    let (af, ag) = (arr(1, f), arr(2, g));
                    let ff = FC::compose_morphisms(&af, &af);
                    let gf = FC::compose_morphisms(&ag, &af);
                    let fi = |x: U| f[x as usize];
                    let gi = |x: U| g[x as usize];
                    for x in D {
                        w.eq("f twice", &run(&*ff, x), &(fi(fi(x)), vec![1, 1]))?;
                        w.eq("f four times", &run(&*FC::compose_morphisms(&ff, &ff), x), &(fi(fi(fi(fi(x)))), vec![1; 4]))?;
                        w.eq("gf twice", &run(&*FC::compose_morphisms(&gf, &gf), x), &(gi(fi(gi(fi(x)))), vec![1, 2, 1, 2]))?;
                        w.eq("f after gf", &run(&*FC::compose_morphisms(&af, &gf), x), &(fi(gi(fi(x))), vec![1, 2, 1]))?;
                        w.eq("gf after f", &run(&*FC::compose_morphisms(&gf, &af), x), &(gi(fi(fi(x))), vec![1, 1, 2]))?;
                        w.eq("split of f with itself", &run(&*FC::split(&af, &af), x), &((fi(x), fi(x)), vec![1, 1]))?;
                        w.eq("split of gf with f", &run(&*FC::split(&gf, &af), x).0, &(gi(fi(x)), fi(x)))?;
                        w.eq("f then f if true", &run(&*FC::then_if(&af, &af, |_| true), x), &(fi(fi(x)), vec![1, 1]))?;
                        w.eq("f then f if false", &run(&*FC::then_if(&af, &af, |_| false), x), &(fi(x), vec![1]))?;
                        w.eq("the part still works", &run(&*af, x), &(fi(x), vec![1]))?;
                        for y in D {
                            w.eq("f beside itself", &run(&*FC::combine_morphisms(&af, &af), (x, y)), &((fi(x), fi(y)), vec![1, 1]))?;
                            w.eq("gf beside f", &run(&*FC::combine_morphisms(&gf, &af), (x, y)).0, &(gi(fi(x)), fi(y)))?;
                        }
                    }
                    Ok(())
                });
            }
        });
        // a call from within a stage of another call of the same function
        c.par("calls inside calls", &idx, |w, &i| {
            let f = &fs[i];
            for g in fs.iter().step_by(c.pick(3, 1)) {
                w.case(|| format!("{f:?} {g:?}"), |w| {
                    let (af, ag) = (arr(1, f), arr(2, g));
                    let odd = |x: &U| { log(9); x % 2 == 1 };
                    nested(w, "compose", &*FC::compose_morphisms(&ag, &af), &D)?;
                    nested(w, "compose three", &*FC::compose_morphisms(&af, &FC::compose_morphisms(&ag, &af)), &D)?;
                    nested(w, "sequence", &*FC::sequence(vec![fun(1, f), fun(2, g), fun(3, f)]), &D)?;
                    nested(w, "compose_all", &*hu::compose_all::<U, U>([fun(1, f), fun(2, g), fun(3, f)].into_iter().map(|f| Box::new(f) as Box<dyn Fn(U) -> U>).collect()), &D)?;
                    nested(w, "compose!", &*compose!(fun(3, f), fun(2, g), fun(1, f)), &D)?;
                    nested(w, "pipe!", &*pipe!(fun(1, f), fun(2, g), fun(3, f)), &D)?;
                    nested(w, "compose helper", &cu::compose(fun(2, g), fun(1, f)), &D)?;
                    nested(w, "pipe helper", &cu::pipe(fun(1, f), fun(2, g)), &D)?;
                    nested(w, "split", &*FC::split(&af, &ag), &D)?;
                    nested(w, "first", &*FC::first::<U, U, U>(&af), &pairs[..5])?;
                    nested(w, "second", &*FC::second::<U, U, U>(&af), &pairs[..5])?;
                    nested(w, "parallel", &*FC::combine_morphisms(&af, &ag), &pairs[..5])?;
                    nested(w, "both", &*FC::both(fun(1, f)), &pairs[..5])?;
                    nested(w, "when", &*FC::when(odd, fun(1, f)), &D)?;
                    nested(w, "then_if", &*FC::then_if(&af, &ag, odd), &D)
                });
            }
        });
        // different types on every stage: values cannot be swapped silently
        c.seq("typed stages", |w| {
            for n in 0..4usize {
                w.case(|| format!("{n}"), |w| {
                    function!(len: String => usize = |s: String| s.len());
                    let up: FunctionMorphism<usize, char> = FC::arrow(|n: usize| (b'a' + n as u8) as char);
                    let s = "x".repeat(n);
                    let ch = (b'a' + n as u8) as char;
                    w.eq("function!", &len(s.clone()), &n)?;
                    w.eq("compose", &FC::compose_morphisms(&up, &len)(s.clone()), &ch)?;
                    w.eq("compose!", &compose!(|c: char| (c, 1), |n: usize| (b'a' + n as u8) as char, |s: String| s.len())(s.clone()), &(ch, 1))?;
                    w.eq("pipe!", &pipe!(|s: String| s.len(), |n: usize| (b'a' + n as u8) as char, |c: char| (c, 1))(s.clone()), &(ch, 1))?;
                    w.eq("first", &FC::first::<_, _, bool>(&len)((s.clone(), true)), &(n, true))?;
                    w.eq("second", &FC::second::<_, _, bool>(&len)((true, s.clone())), &(true, n))?;
                    let l2: FunctionMorphism<String, bool> = FC::arrow(|s: String| s.is_empty());
                    w.eq("split", &FC::split(&len, &l2)(s.clone()), &(n, n == 0))?;
                    w.eq("parallel", &FC::combine_morphisms(&len, &up)((s.clone(), n)), &(n, ch))?;
                    w.eq("compose helper", &cu::compose(|n: usize| n as f64, |s: String| s.len())(s.clone()), &(n as f64))?;
                    w.eq("pipe helper", &cu::pipe(|s: String| s.len(), |n: usize| n as f64)(s.clone()), &(n as f64))?;
                    w.eq("flip", &cu::flip(|a: usize, b: String| (a, b))(s.clone(), n), &(n, s.clone()))?;
                    Ok(())
                });
            }
        });
        // pipelines of every length: the stages are free (they append their number)
        c.seq("stages in order", |w| {
            let want = |n: u8| ((0..n).collect::<S>(), (0..n).collect::<S>());
            for n in (0..=c.pick(40u8, 200)).chain([63, 64, 65, 100, 127, 128, 129, 200, 255]) {
                w.case(|| format!("{n} stages"), |w| {
                    let st: Vec<_> = (0..n).map(push).collect();
                    w.same("sequence", &run(&*FC::sequence(st.clone()), vec![]), &want(n))?;
                    let bx: Vec<Box<dyn Fn(S) -> S>> = (0..n).map(|i| Box::new(push(i)) as Box<dyn Fn(S) -> S>).collect();
                    w.same("compose_all", &run(&*hu::compose_all::<S, S>(bx), vec![]), &want(n))?;
                    let mut l = FC::identity_morphism::<S>();
                    let mut r = FC::identity_morphism::<S>();
                    for i in 0..n {
                        l = FC::compose_morphisms(&FC::arrow(push(i)), &l);
                        r = FC::compose_morphisms(&r, &FC::arrow(push(n - 1 - i)));
                    }
                    w.same("left chain", &run(&*l, vec![]), &want(n))?;
                    w.same("right chain", &run(&*r, vec![]), &want(n))?;
                    let mut p = tu::Pipeline::new(Some(vec![]));
                    for i in 0..n {
                        p = if i % 2 == 0 { p.map_owned(push(i)) } else { p.map(move |s: &S| push(i)(s.clone())) };
                    }
                    w.same("Pipeline", &p.extract(), &Some(want(n).0))?;
                    take();
                    Ok(())
                });
            }
            // pipelines far longer: the stages are counted
            for n in mc::dom::LONG {
                w.case(|| format!("{n} counting stages"), |w| {
                    let at = |i: usize| move |(k, bad): (usize, usize)| (k + 1, if k == i { bad } else { bad + 1 });
                    let bx: Vec<Box<dyn Fn((usize, usize)) -> (usize, usize)>> = (0..n).map(|i| Box::new(at(i)) as Box<dyn Fn((usize, usize)) -> (usize, usize)>).collect();
                    w.eq("compose_all", &hu::compose_all::<(usize, usize), (usize, usize)>(bx)((0, 0)), &(n, 0))?;
                    w.eq("sequence", &FC::sequence((0..n).map(at).collect())((0, 0)), &(n, 0))?;
                    w.eq("pipeline_result", &hu::pipeline_result::<_, _, (), _>((0, 0), (0..n).map(|i| move |x| Ok(at(i)(x))).collect()), &Ok((n, 0)))?;
                    w.eq("pipeline_option", &hu::pipeline_option::<_, (usize, usize), _, _>((0, 0), (0..n).map(|i| move |x| Some(at(i)(x)))), &Some((n, 0)))?;
                    let l: Vec<usize> = hu::fan_out(5usize, (0..n).map(|i| move |x: usize| x + i).collect());
                    w.eq("fan_out", &l, &(5..5 + n).collect::<Vec<_>>())
                });
            }
            macro_rules! stages { ($($n:literal: $($i:literal)*; $($j:literal)*),*) => { $(
                w.case(|| format!("macros, {} stages", $n), |w| {
                    w.eq("pipe!", &run(&*pipe!($(push($i)),*), vec![]), &want($n))?;
                    w.eq("compose!", &run(&*compose!($(push($j)),*), vec![]), &want($n))?;
                    Ok(())
                });
            )* } }
            stages!(1: 0; 0, 2: 0 1; 1 0, 3: 0 1 2; 2 1 0, 4: 0 1 2 3; 3 2 1 0, 5: 0 1 2 3 4; 4 3 2 1 0,
                6: 0 1 2 3 4 5; 5 4 3 2 1 0, 7: 0 1 2 3 4 5 6; 6 5 4 3 2 1 0, 8: 0 1 2 3 4 5 6 7; 7 6 5 4 3 2 1 0,
                9: 0 1 2 3 4 5 6 7 8; 8 7 6 5 4 3 2 1 0);
        });
        // all choices of stages over the domain, longer pipelines
        let few: Vec<Vec<U>> = c.pick(vec![vec![1, 2, 0], vec![0, 0, 2], vec![2, 1, 1]], vec![vec![1, 2, 0], vec![0, 0, 2], vec![2, 1, 1], vec![1, 0, 2]]);
        let progs = mc::dom::seqs(&(0..few.len()).collect::<Vec<_>>(), c.pick(7, 8));
        c.par("all pipelines", &progs, |w, p| {
            w.case(|| format!("{p:?}"), |w| {
                let st: Vec<_> = p.iter().enumerate().map(|(i, k)| fun(i as u8, &few[*k])).collect();
                let s = FC::sequence(st.clone());
                let a = hu::compose_all::<U, U>(st.iter().cloned().map(|f| Box::new(f) as Box<dyn Fn(U) -> U>).collect());
                for x in D {
                    let want = (p.iter().fold(x, |v, k| few[*k][v as usize]), (0..p.len() as u8).collect::<Vec<_>>());
                    w.same("sequence", &run(&*s, x), &want)?;
                    w.same("compose_all", &run(&*a, x), &want)?;
                    let o = hu::fan_out(x, st.clone());
                    w.same("fan_out", &(o, take()), &(p.iter().map(|k| few[*k][x as usize]).collect::<Vec<_>>(), want.1.clone()))?;
                }
                Ok(())
            });
        });
        // mapping helpers over functors
        c.par("functor helpers", &idx, |w, &i| {
            let f = &fs[i];
            type V = Option<U>;
            let _: Option<<V as HKT>::Output<U>> = None;
            let fi = |x: &U| f[*x as usize];
            for v in mc::dom::seqs(&[None, Some(0), Some(1), Some(2)], 3) {
                w.case(|| format!("{f:?} {v:?}"), |w| {
                    let want: Vec<V> = v.iter().map(|o| o.as_ref().map(fi)).collect();
                    w.eq("transform_all", &tu::transform_all(&v, fi), &want)?;
                    take();
                    let o = tu::transform_all(&v, |x: &U| { log(*x); fi(x) });
                    w.same("transform_all visits in order", &(o, take()), &(want.clone(), v.iter().flatten().copied().collect::<Vec<U>>()))?;
                    if let Some(o) = v.first() {
                        w.eq("transform_chain", &tu::transform_chain(Some(*o), fi), &Some(want[0]))?;
                        w.eq("transform_chain none", &tu::transform_chain(None::<V>, fi), &None)?;
                        w.eq("lift_option", &hu::lift_option(|x: U| fi(&x))(*o), &want[0])?;
                        w.eq("map_option", &cu::map_option(*o, |x| fi(&x)), &want[0])?;
                        let r = o.ok_or("e");
                        w.eq("map_result", &hu::map_result(r, |x| fi(&x)), &want[0].ok_or("e"))?;
                        w.eq("cu::map_result", &cu::map_result(r, |x| fi(&x)), &want[0].ok_or("e"))?;
                        w.eq("bimap_result", &cu::bimap_result(r, |x| fi(&x), |e| e.len()), &want[0].ok_or(1))?;
                    }
                    w.eq("Pipeline of a list", &tu::Pipeline::new(v.clone()).map(|o| o.map(|x| fi(&x))).extract(), &want)?;
                    w.eq("Pipeline of a list, owned", &tu::Pipeline::new(v.clone()).map_owned(|o| o.map(|x| fi(&x))).into_iter().collect::<Vec<_>>(), &want)?;
                    Ok(())
                });
            }
        });
    })
}
