//! C10: applicative laws for every applicative instance, borrowed and owned.
use mc::Ctx;
use mc::dom::tables;
use mc::fam::*;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::pure::{Pure, PureExt, PureType};

fn sorted<T: Ord + Clone>(m: &M<T>) -> M<T> {
    let mut m = m.clone();
    m.vals.sort();
    m
}

macro_rules! applicative {
    ($c:expr, $m:ident, value_major = $vm:expr) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let fts: Vec<Vec<u32>> = vec![vec![0, 1, 2], vec![1, 2, 0], vec![2, 2, 1]];
        // reference of apply: operand order of effects; values function-major, except that
        // Choice is value-major (pinned by its documentation and the existing tests)
        let ref_apply = |fs: &M<u32>, xs: &M<u32>| -> M<u32> {
            let r = lift2(I::K, |f, x| at(&fts[*f as usize % 3], *x), fs, xs);
            if $vm {
                M { vals: lift2(I::K, |x, f| at(&fts[*f as usize % 3], *x), xs, fs).vals, ..r }
            } else { r }
        };
        let n = c.pick(3, 4);
        let xs = space(I::K, n, 3);
        let mut ys = xs.clone();
        ys.extend(long(I::K, c.pick(&[7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 129], &[7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257])));
        let fof = |f: &u32| func(&fts[*f as usize % 3]);
        let fof_o = |f: &u32| func_o(&fts[*f as usize % 3]);
        c.par(concat!("apply ", stringify!($m)), &ys, |w, mf| {
            let f = I::mk(&mf.map(fof));
            let fo = I::mk(&mf.map(fof_o));
            for mx in &ys {
                w.case(|| format!("f={mf:?} x={mx:?}"), |w| {
                    let x: X = I::mk(mx);
                    let want = ref_apply(mf, mx);
                    w.eq("apply", &I::un(&f.apply(&x)), &want)?;
                    w.eq("apply_owned", &I::un(&fo.clone().apply_owned(x.clone())), &want)?;
                    // agreement of lift2 with applying
                    let l: X = X::lift2(|f: &u32, x: &u32| at(&fts[*f as usize % 3], *x), &I::mk(mf), &x);
                    if $vm {
                        w.eq("lift2 has the values of apply", &sorted(&I::un(&l)), &sorted(&want))
                    } else {
                        w.eq("lift2 is apply", &I::un(&l), &want)
                    }
                });
            }
        });
        c.seq(concat!("identity, homomorphism, interchange ", stringify!($m)), |w| {
            let id = |x: &u32| *x;
            let ido = |x: u32| x;
            for m in &ys {
                w.case(|| format!("{m:?}"), |w| {
                    let x: X = I::mk(m);
                    w.eq("identity", &I::un(&X::pure(&id).apply(&x)), m)?;
                    w.eq("identity owned", &I::un(&X::pure_owned(ido).apply_owned(x.clone())), m)?;
                    let f = I::mk(&m.map(fof));
                    for y in 0..3u32 {
                        let want = m.map(|f| at(&fts[*f as usize % 3], y));
                        w.eq("apply to pure", &I::un(&f.apply(&X::pure(&y))), &want)?;
                        w.eq("fmap of application", &I::un(&f.fmap(|g| g(&y))), &want)?;
                        w.eq("pure application to functions", &I::un(&X::pure(&|k: &u32| at(&fts[*k as usize % 3], y)).apply(&x)), &want)?;
                    }
                    Ok(())
                });
            }
            for t in tables(3, &[0u32, 1, 2]) {
                for v in 0..4u32 {
                    w.case(|| format!("f={t:?} v={v}"), |w| {
                        let want = M::pure(at(&t, v));
                        w.eq("homomorphism", &I::un(&X::pure(&func(&t)).apply(&X::pure(&v))), &want)?;
                        w.eq("homomorphism owned", &I::un(&X::pure_owned(func_o(&t)).apply_owned(X::pure_owned(v))), &want)?;
                        w.eq("pure", &I::un(&X::pure(&v)), &M::pure(v))?;
                        w.eq("to_pure", &I::un(&v.to_pure::<X>()), &M::pure(v))?;
                        w.eq("to_pure_owned", &I::un(&v.to_pure_owned::<X>()), &M::pure(v))?;
                        w.eq("pair_with", &I::un(&v.pair_with::<X, u32>(&9)), &M::pure((v, 9)))?;
                        w.eq("lift_other", &I::un(&v.lift_other::<X, u32>(&9)), &M::pure(9))?;
                        w.eq("combine_with", &I::un(&PureExt::combine_with::<X, u32, _>(&v, &9, |a, b| (*a, *b))), &M::pure((v, 9)))?;
                        w.eq("PureType::lift", &I::un(&PureType::<X, u32>::lift(&v)), &M::pure(v))?;
                        w.eq("PureType::lift_owned", &I::un(&PureType::<X, u32>::lift_owned(v)), &M::pure(v))
                    });
                }
            }
        });
        fn law<G: Fn(&u32) -> u32 + Clone>(u: &I::F<G>, v: &I::F<G>, x: &X) -> X {
            let comp = |f: &G| {
                let f = f.clone();
                move |g: &G| {
                    let (f, g) = (f.clone(), g.clone());
                    move |x: &u32| f(&g(x))
                }
            };
            X::pure(&comp).apply(u).apply(v).apply(x)
        }
        let small = space(I::K, 2, 2);
        c.par(concat!("composition ", stringify!($m)), &small, |w, mu| {
            let u = I::mk(&mu.map(fof));
            for mv in &small {
                let v = I::mk(&mv.map(fof));
                for mw in &small {
                    w.case(|| format!("u={mu:?} v={mv:?} w={mw:?}"), |w| {
                        let x: X = I::mk(mw);
                        let r = u.apply(&v.apply(&x));
                        let want = ref_apply(mu, &ref_apply(mv, mw));
                        w.eq("u.apply(v.apply(w))", &I::un(&r), &want)?;
                        let l = law(&u, &v, &x);
                        w.eq("composed application", &I::un(&l), &want)
                    });
                }
            }
        });
        // argument order, effects order, variants
        c.par(concat!("lift2 ", stringify!($m)), &ys, |w, ma| {
            let a: X = I::mk(ma);
            for mb in &ys {
                w.case(|| format!("a={ma:?} b={mb:?}"), |w| {
                    let b: I::F<String> = I::mk(&mb.map(|v| format!("s{v}")));
                    let f = |x: &u32, y: &String| (*x, y.clone());
                    let fo = |x: u32, y: String| (x, y);
                    let want = lift2(I::K, |x, y| (*x, format!("s{y}")), ma, mb);
                    w.eq("lift2", &I::un(&X::lift2(f, &a, &b)), &want)?;
                    let seen = std::cell::RefCell::new(vec![]);
                    X::lift2(|x: &u32, y: &String| seen.borrow_mut().push((*x, y.clone())), &a, &b);
                    w.same("lift2 calls the function once per combination", &sorted(&M::vals(seen.take())).vals, &sorted(&want).vals)?;
                    X::lift2_owned(|x: u32, y: String| seen.borrow_mut().push((x, y)), a.clone(), b.clone());
                    w.same("lift2_owned calls the function once per combination", &sorted(&M::vals(seen.take())).vals, &sorted(&want).vals)?;
                    let fs: I::F<_> = I::mk(&ma.map(|x| { let (x, seen) = (*x, &seen); move |y: &String| seen.borrow_mut().push((x, y.clone())) }));
                    fs.apply(&b);
                    w.same("apply calls each function once per argument", &sorted(&M::vals(seen.take())).vals, &sorted(&want).vals)?;
                    let fs: I::F<_> = I::mk(&ma.map(|x| { let (x, seen) = (*x, &seen); move |y: String| seen.borrow_mut().push((x, y)) }));
                    fs.apply_owned(b.clone());
                    w.same("apply_owned calls each function once per argument", &sorted(&M::vals(seen.take())).vals, &sorted(&want).vals)?;
                    w.eq("ap2", &I::un(&X::ap2(f, &a, &b)), &want)?;
                    w.eq("lift2_owned", &I::un(&X::lift2_owned(fo, a.clone(), b.clone())), &want)?;
                    w.eq("sequence_left", &I::un(&X::sequence_left(&a, &b)), &want.map(|p| p.0))?;
                    w.eq("sequence_right", &I::un(&X::sequence_right(&a, &b)), &want.map(|p| p.1.clone()))?;
                    w.eq("sequence_left_owned", &I::un(&X::sequence_left_owned(a.clone(), b.clone())), &want.map(|p| p.0))?;
                    w.eq("sequence_right_owned", &I::un(&X::sequence_right_owned(a.clone(), b.clone())), &want.map(|p| p.1.clone()))?;
                    w.same("first argument unchanged", &I::un(&a), ma)
                });
            }
        });
        let mut zs = space(I::K, c.pick(2, 3), 2);
        zs.extend(long(I::K, c.pick(&[5, 8, 9], &[3, 4, 5, 7, 8, 9, 10, 17])));
        c.par(concat!("lift3 ", stringify!($m)), &zs, |w, ma| {
            let a: X = I::mk(ma);
            for mb in &zs {
                let b: I::F<String> = I::mk(&mb.map(|v| format!("s{v}")));
                for mc in &zs {
                    w.case(|| format!("a={ma:?} b={mb:?} c={mc:?}"), |w| {
                        let cc: I::F<u64> = I::mk(&mc.map(|v| *v as u64 + 100));
                        let want = lift3(I::K, |x, y, z| (*x, format!("s{y}"), *z as u64 + 100), ma, mb, mc);
                        w.same("lift3", &I::un(&X::lift3(|x: &u32, y: &String, z: &u64| (*x, y.clone(), *z), &a, &b, &cc)), &want)?;
                        w.same("lift3_owned", &I::un(&X::lift3_owned(|x: u32, y: String, z: u64| (x, y, z), a.clone(), b.clone(), cc.clone())), &want)?;
                        let seen = std::cell::RefCell::new(vec![]);
                        X::lift3(|x: &u32, y: &String, z: &u64| seen.borrow_mut().push((*x, y.clone(), *z)), &a, &b, &cc);
                        w.same("lift3 calls the function once per combination", &sorted(&M::vals(seen.take())).vals, &sorted(&want).vals)?;
                        X::lift3_owned(|x: u32, y: String, z: u64| seen.borrow_mut().push((x, y, z)), a.clone(), b.clone(), cc.clone());
                        w.same("lift3_owned calls the function once per combination", &sorted(&M::vals(seen.take())).vals, &sorted(&want).vals)?;
                        // curried application
                        let cur = a.fmap(|x| { let x = *x; move |y: &String| { let y = y.clone(); move |z: &u64| (x, y.clone(), *z) } });
                        let got = cur.apply(&b).apply(&cc);
                        if $vm {
                            w.same("lift3 has the values of curried application", &sorted(&I::un(&got)), &sorted(&want))
                        } else {
                            w.same("lift3 is curried application", &I::un(&got), &want)
                        }
                    });
                }
            }
        });
    }};
}

fn main() {
    mc::run("C10", |c| {
        c.assume("Choice::apply enumerates value-major (documented by its comment and pinned by an existing test) while its lifting enumerates first-argument-major; their agreement is required up to order for Choice only");
        applicative!(c, m_option, value_major = false);
        applicative!(c, m_maybe, value_major = false);
        applicative!(c, m_result, value_major = false);
        applicative!(c, m_either, value_major = false);
        applicative!(c, m_validated, value_major = false);
        applicative!(c, m_vec, value_major = false);
        applicative!(c, m_choice, value_major = true);
        applicative!(c, m_id, value_major = false);
        applicative!(c, m_writer, value_major = false);
        c.seq("pure Box", |w| {
            for v in 0..3u32 {
                w.case(|| format!("{v}"), |w| {
                    w.eq("pure", &<Box<u32> as Pure>::pure(&v), &Box::new(v))?;
                    w.eq("pure_owned", &<Box<u32> as Pure>::pure_owned(v), &Box::new(v))
                });
            }
        });
    })
}
