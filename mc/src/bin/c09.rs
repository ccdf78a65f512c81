//! C09: monad laws for every monadic instance, borrowed and owned.
use mc::Ctx;
use mc::dom::tables;
use mc::fam::*;
use rustica::traits::monad::Monad;
use rustica::traits::pure::Pure;

/// Results a continuation may produce.
fn outs(k: Kind, big: bool) -> Vec<M<u32>> {
    let v = M::vals;
    let mut r = match k {
        Kind::Opt => vec![v(vec![]), v(vec![0]), v(vec![1]), v(vec![2])],
        Kind::Res => vec![M::errs(vec![7]), M::errs(vec![8]), v(vec![0]), v(vec![1]), v(vec![2])],
        Kind::Val => vec![M::errs(vec![7]), M::errs(vec![8, 9]), v(vec![0]), v(vec![1])],
        Kind::List => vec![v(vec![]), v(vec![0]), v(vec![1, 2]), v(vec![2, 0, 1])],
        Kind::Id => vec![v(vec![0]), v(vec![1]), v(vec![2])],
        Kind::Wr => vec![M::wr(vec![], 0), M::wr(vec![3], 1), M::wr(vec![4, 5], 2)],
    };
    if big {
        match k {
            Kind::Val => r.push(M::errs((0..9).collect())),
            Kind::List => r.push(v((0..9).collect())),
            Kind::Wr => r.push(M::wr((0..9).collect(), 1)),
            _ => {},
        }
    }
    r
}
fn kat(t: &[M<u32>], x: u32) -> M<u32> {
    let b = 3 * (x / 3);
    t[(x % 3) as usize].map(|v| v + b)
}

fn sorted(s: &std::cell::RefCell<Vec<u32>>) -> Vec<u32> {
    let mut v = s.take();
    v.sort();
    v
}

macro_rules! monad {
    ($c:expr, $m:ident) => {{
        use mc::fam::$m as I;
        type X = I::F<u32>;
        let c: &Ctx = $c;
        let xs = space(I::K, c.pick(4, 5), c.pick(4, 4));
        let ks = tables(3, &outs(I::K, false));
        let ks2 = tables(3, &outs(I::K, true));
        let run = |w: &mut mc::W, m: &M<u32>, f: &Vec<M<u32>>, gs: &mut dyn Iterator<Item = &Vec<M<u32>>>| {
            w.case(|| format!("m={m:?} f={f:?}"), |w| {
                let x: X = I::mk(m);
                let lf = |v: &u32| -> X { I::mk(&kat(f, *v)) };
                let lfo = |v: u32| -> X { I::mk(&kat(f, v)) };
                let want = bind(m, |v| kat(f, *v));
                let y: X = x.bind(lf);
                w.eq("bind", &I::un(&y), &want)?;
                w.eq("bind_owned", &I::un(&x.clone().bind_owned(lfo)), &want)?;
                w.eq("flat_map", &I::un(&x.flat_map(lf)), &want)?;
                w.eq("flat_map_owned", &I::un(&x.clone().flat_map_owned(lfo)), &want)?;
                let seen = std::cell::RefCell::new(vec![]);
                let mut calls = m.vals.clone();
                calls.sort();
                x.bind(|v| { seen.borrow_mut().push(*v); lf(v) });
                w.same("bind calls the continuation once per value", &sorted(&seen), &calls)?;
                x.clone().bind_owned(|v| { seen.borrow_mut().push(v); lfo(v) });
                w.same("bind_owned calls the continuation once per value", &sorted(&seen), &calls)?;
                for g in gs {
                    let lg = |v: &u32| -> X { I::mk(&kat(g, *v)) };
                    let lgo = |v: u32| -> X { I::mk(&kat(g, v)) };
                    let want2 = bind(&want, |v| kat(g, *v));
                    w.same("associativity, left nesting", &I::un(&y.bind(lg)), &want2)?;
                    w.same("associativity, right nesting", &I::un(&x.bind(|v| lf(v).bind(lg))), &want2)?;
                    w.same("owned, right nesting", &I::un(&x.clone().bind_owned(|v| lfo(v).bind_owned(lgo))), &want2)?;
                }
                w.eq("argument unchanged", &I::un(&x), m)
            });
        };
        let right = |w: &mut mc::W, m: &M<u32>| {
            let x: X = I::mk(m);
            w.case(|| format!("right identity m={m:?}"), |w| {
                w.eq("bind pure", &I::un(&x.bind(|v| X::pure(v))), m)?;
                w.eq("bind_owned pure_owned", &I::un(&x.clone().bind_owned(|v| X::pure_owned(v))), m)?;
                w.eq("map_and_pure", &I::un(&x.map_and_pure(|v| v + 30)), &m.map(|v| v + 30))
            });
        };
        c.par(concat!("monad ", stringify!($m)), &xs, |w, m| {
            right(w, m);
            for f in &ks {
                run(w, m, f, &mut ks.iter());
            }
        });
        // longer values: every continuation, composed with every third one
        let mut ls = long(I::K, c.pick(&[7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 63, 64, 65, 66, 129, 257, 1025], &[7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257, 1025]));
        ls.extend(space(I::K, 1, 1));
        c.par(concat!("monad long ", stringify!($m)), &ls, |w, m| {
            right(w, m);
            for f in &ks2 {
                run(w, m, f, &mut ks2.iter().step_by(c.pick(7, 3)));
            }
        });
        c.seq(concat!("left identity ", stringify!($m)), |w| {
            for v in 0..4u32 {
                for f in &ks2 {
                    w.case(|| format!("v={v} f={f:?}"), |w| {
                        w.eq("pure bind", &I::un(&X::pure(&v).bind(|v| -> X { I::mk(&kat(f, *v)) })), &kat(f, v))?;
                        w.eq("pure_owned bind_owned", &I::un(&X::pure_owned(v).bind_owned(|v| -> X { I::mk(&kat(f, v)) })), &kat(f, v))
                    });
                }
            }
        });
        // nesting: every outer value up to length 3 of inner results
        let os = outs(I::K, true);
        let outer: Vec<M<M<u32>>> = space(I::K, c.pick(4, 5), 3).iter().flat_map(|o| {
            tables(3, &os).into_iter().map(move |t| o.map(|v| t[*v as usize].clone()))
        }).collect();
        let mut seen = std::collections::HashSet::new();
        let mut outer: Vec<_> = outer.into_iter().filter(|o| seen.insert(o.clone())).collect();
        // longer outer values, and longer inner ones inside short and long outer ones
        let lens = c.pick(&[8, 9, 12, 16, 17, 33, 65, 129, 257][..], &[7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257, 1025]);
        let lo = long(I::K, lens);
        for t in tables(3, &os) {
            outer.extend(lo.iter().map(|o| o.map(|v| t[(*v % 3) as usize].map(|x| x + 3 * (v / 3)))));
        }
        for i in &lo {
            outer.extend(space(I::K, 3, 2).iter().chain(&lo[..lo.len().min(4)]).map(|o| o.map(|v| i.map(|x| x + 1000 * v))));
        }
        c.par(concat!("join ", stringify!($m)), &outer, |w, m| {
            w.case(|| format!("{m:?}"), |w| {
                let x: I::F<X> = I::mk(&m.map(|i| I::mk(i)));
                let want = join(m);
                w.eq("join", &I::un(&x.join::<u32>()), &want)?;
                w.eq("join_owned", &I::un(&x.clone().join_owned::<u32>()), &want)?;
                w.eq("bind identity", &I::un(&x.bind(|i| i.clone())), &want)?;
                w.eq("bind_owned identity", &I::un(&x.clone().bind_owned(|i| i)), &want)
            });
        });
        // try_bind: failing continuations fall back to the default
        let tr: Vec<Option<M<u32>>> = outs(I::K, false).into_iter().map(Some).chain([None]).collect();
        let trs = tables(3, &tr);
        let xl: Vec<_> = xs.iter().cloned().chain(long(I::K, lens)).collect();
        c.par(concat!("try_bind ", stringify!($m)), &xl, |w, m| {
            let x: X = I::mk(m);
            for t in &trs {
                w.case(|| format!("m={m:?} f={t:?}"), |w| {
                    let t = |v: &u32| &t[(*v % 3) as usize];
                    let want = bind(m, |v| t(v).clone().unwrap_or(M::pure(77)));
                    let got: X = x.try_bind(&77, |v| t(v).as_ref().map(|r| I::mk(r)).ok_or(()));
                    w.eq("try_bind", &I::un(&got), &want)
                });
            }
        });
    }};
}

fn main() {
    mc::run("C09", |c| {
        c.assume("continuations range over all functions from {0,1,2} to 3-5 representative results per family (including empty, failing, multi-valued and heap-spilling ones)");
        monad!(c, m_option);
        monad!(c, m_maybe);
        monad!(c, m_result);
        monad!(c, m_either);
        monad!(c, m_validated);
        monad!(c, m_choice);
        monad!(c, m_id);
        monad!(c, m_writer);
    })
}
