//! C03: equality, ordering and hashing depend only on the elements.
use mc::pv::*;
use mc::dom::seqs;
use std::cmp::Ordering;

type V = PV<u32>;

fn variants(m: &[u32]) -> Vec<(String, V)> {
    let mut r = vec![];
    let mut put = |n: &str, f: &dyn Fn() -> V| {
        if let Ok(v) = mc::catch(f)
            && v.to_vec() == m
        {
            r.push((n.to_string(), v));
        }
    };
    for route in ROUTES {
        put(route, &|| build::<u32>(route, m));
    }
    put("updated_back_and_forth", &|| {
        let v = from_model::<u32>(m);
        if m.is_empty() { v } else { v.update(0, 77).update(0, m[0]) }
    });
    put("push_pop", &|| from_model::<u32>(m).push_back(5).pop_back().unwrap().0);
    put("front_push_pop", &|| from_model::<u32>(m).push_front(5).pop_front().unwrap().0);
    put("extended", &|| {
        let mut v = V::new();
        v.extend(m.iter().copied());
        v
    });
    put("clone", &|| from_model::<u32>(m).clone());
    put("from_vec", &|| V::from(m.to_vec()));
    put("from_slice", &|| V::from_slice(m));
    put("map_id", &|| build::<u32>("push_front", m).map(|x| *x));
    r
}

fn main() {
    mc::run("C03", |c| {
        let mut targets: Vec<Vec<u32>> = seqs(&[0u32, 1], c.pick(5, 6));
        for n in c.pick(vec![63usize, 64, 65, 70, 128, 129, 200, 2113, 4200], vec![62, 63, 64, 65, 66, 70, 127, 128, 129, 130, 192, 193, 200, 300, 2113, 4200, 9000]) {
            targets.push(ids(1, n));
            let mut x = ids(1, n);
            x[n - 1] += 1;
            targets.push(x);
            let mut x = ids(1, n);
            x[0] = 0;
            targets.push(x);
            let mut x = ids(1, n);
            x[n / 2] += 1;
            targets.push(x);
            let mut x = ids(1, n);
            x.swap(n - 1, n - 2);
            targets.push(x);
        }
        c.note("same_contents", "every target sequence x all ordered pairs of construction routes");
        c.par("same_contents", &targets, |w, m| {
            let vs = variants(m);
            for (na, a) in &vs {
                for (nb, b) in &vs {
                    w.case(|| format!("len {} {:?}: {na} vs {nb}", m.len(), &m[..m.len().min(6)]), |w| {
                        w.same("==", &(a == b), &true)?;
                        w.same("!=", &(a != b), &false)?;
                        w.same("cmp", &a.cmp(b), &Ordering::Equal)?;
                        w.same("partial_cmp", &a.partial_cmp(b), &Some(Ordering::Equal))?;
                        w.state(mc::hash_of(&(m, na, nb)));
                        w.same("hash", &mc::hash_of(a), &mc::hash_of(b))
                    });
                }
            }
        });
        c.note("different_contents", "all ordered pairs of distinct target sequences x a subset of routes");
        c.par("different_contents", &targets, |w, ma| {
            let va = variants(ma);
            for mb in &targets {
                for r in ["bulk", "push_front", "concat_halves", "popped_front"] {
                    let Ok(b) = mc::catch(|| build::<u32>(r, mb)) else { continue };
                    if b.to_vec() != *mb {
                        continue;
                    }
                    for (na, a) in va.iter().step_by(3) {
                        w.case(|| format!("{na} {:?}.. len {} vs {r} {:?}.. len {}", &ma[..ma.len().min(4)], ma.len(), &mb[..mb.len().min(4)], mb.len()), |w| {
                            w.same("==", &(*a == b), &(ma == mb))?;
                            w.same("!=", &(*a != b), &(ma != mb))?;
                            w.same("cmp", &a.cmp(&b), &ma.cmp(mb))?;
                            w.same("partial_cmp", &a.partial_cmp(&b), &ma.partial_cmp(mb))?;
                            w.same("<", &(*a < b), &(ma < mb))
                        });
                    }
                }
            }
        });
        // elements that are not equal to themselves, or not comparable
        let vals = [0.0, -0.0, 1.0, f64::NAN];
        let mut fl: Vec<Vec<f64>> = seqs(&vals, c.pick(3, 4));
        for n in [64usize, 65, 70, 130, 200] {
            for at in [0, n / 2, n - 1] {
                for x in vals {
                    let mut l: Vec<f64> = (0..n).map(|i| i as f64).collect();
                    l[at] = x;
                    fl.push(l);
                }
            }
        }
        c.note("partial order", "float vectors with NaN and both zeros, all pairs, a vector against itself and against its clone: ==, !=, partial_cmp and < as on ordinary lists");
        c.par("partial order", &fl, |w, a| {
            let mk = |l: &[f64]| l.iter().copied().collect::<PV<f64>>();
            let va = mk(a);
            let back = a.iter().rev().fold(PV::new(), |v: PV<f64>, x| v.push_front(*x));
            let mut cmp = |w: &mut mc::W, nb: &str, vb: &PV<f64>, b: &Vec<f64>| {
                w.case(|| format!("{:?}.. ({}) vs {nb} {:?}.. ({})", &a[..a.len().min(4)], a.len(), &b[..b.len().min(4)], b.len()), |w| {
                    for v in [&va, &back] {
                        w.same("==", &(v == vb), &(a == b))?;
                        w.same("!=", &(v != vb), &(a != b))?;
                        w.same("partial_cmp", &v.partial_cmp(vb), &a.partial_cmp(b))?;
                        w.same("<", &(v < vb), &(a < b))?;
                        w.same(">=", &(v >= vb), &(a >= b))?;
                    }
                    Ok(())
                });
            };
            cmp(w, "itself", &va, a);
            cmp(w, "a clone of", &va.clone(), a);
            cmp(w, "itself, pushed at the front", &back, a);
            for b in &fl {
                cmp(w, "", &mk(b), b);
            }
        });
        // far differences in large trees
        let mut far = vec![];
        for n in c.pick(vec![4_161usize, 8_300, 66_000], vec![4_161, 8_300, 33_000, 66_000, 140_000]) {
            for i in [0, 1, 63, 64, 65, 2047, 2048, 2112, n / 2, n - 2113, n - 66, n - 65, n - 64, n - 2, n - 1] {
                far.push((n, Some(i)));
            }
            far.push((n, None));
        }
        c.note("far differences", "lists of up to 66000 (140000) elements that differ in one element anywhere, or in length, each list built along two routes");
        c.par("far differences", &far, |w, (n, i)| {
            let ma = ids(1, *n);
            let mut mb = ma.clone();
            match i {
                Some(i) => mb[*i] = 0,
                None => mb.truncate(n - 1),
            }
            for (ra, rb) in [("bulk", "bulk"), ("push_back", "bulk"), ("bulk", "push_front"), ("concat_halves", "push_back")] {
                let Ok((a, a2, b)) = mc::catch(|| (build::<u32>(ra, &ma), build::<u32>(rb, &ma), build::<u32>(rb, &mb))) else { continue };
                if a.to_vec() != ma || a2.to_vec() != ma || b.to_vec() != mb {
                    continue;
                }
                w.case(|| format!("{n} elements, {ra} vs {rb}, different at {i:?}"), |w| {
                    w.same("== of equals", &(a == a2), &true)?;
                    w.same("cmp of equals", &a.cmp(&a2), &Ordering::Equal)?;
                    w.same("hash of equals", &mc::hash_of(&a), &mc::hash_of(&a2))?;
                    // the same structure with one element replaced
                    let c = match i {
                        Some(i) => a.update(*i, 0),
                        None => a.pop_back().unwrap().0,
                    };
                    for (name, x, y, want) in [("right", &a, &b, ma.cmp(&mb)), ("left", &b, &a, mb.cmp(&ma)), ("derived", &a, &c, ma.cmp(&mb)), ("derived left", &c, &a, mb.cmp(&ma))] {
                        w.same("== of different", &(name, x == y), &(name, false))?;
                        w.same("cmp of different", &(name, x.cmp(y)), &(name, want))?;
                        w.same("partial_cmp of different", &(name, x.partial_cmp(y)), &(name, Some(want)))?;
                    }
                    // shorter, but larger at one element; and longer, but smaller
                    if let Some(i) = i
                        && *i < n - 70
                    {
                        for (v, d) in [(ma.len() as u32 * 2, 70), (0, 0)] {
                            let mut mc = ma[..n - d].to_vec();
                            mc[*i] = v;
                            if d == 0 {
                                mc.extend(1..70);
                            }
                            let c = build::<u32>(rb, &mc);
                            if c.to_vec() == mc {
                                w.same("cmp, other length", &(a.cmp(&c), c.cmp(&a)), &(ma.cmp(&mc), mc.cmp(&ma)))?;
                                w.same("partial_cmp, other length", &(a.partial_cmp(&c), a == c), &(Some(ma.cmp(&mc)), false))?;
                            }
                        }
                    }
                    if c.to_vec() == mb {
                        w.same("== of a derived and a built one", &(c == b), &true)?;
                        w.same("hash of a derived and a built one", &mc::hash_of(&c), &mc::hash_of(&b))?;
                    }
                    Ok(())
                });
            }
        });
        c.note("siblings", "every pair of vectors derived from one common vector by one operation each (twice with different new elements), including the vector itself");
        let bases: Vec<(&str, usize)> = ROUTES.iter().flat_map(|r| c.pick(vec![3usize, 64, 70, 130, 200], vec![1, 3, 63, 64, 65, 70, 128, 130, 200, 2112, 2200]).into_iter().map(move |n| (*r, n))).collect();
        c.par("siblings", &bases, |w, (route, n)| {
            let Ok(s) = mc::catch(|| st::<u32>(route, ids(1, *n))) else { return };
            if s.v.to_vec() != s.m {
                return;
            }
            let srcs = [st::<u32>("push_front", ids(10_000, 80))];
            let mut sibs = vec![("itself".to_string(), s.clone())];
            for fresh in [500_000u32, 600_000] {
                let mut all = alphabet(*n, *n < 2000 && c.thorough(), 1);
                all.push(Op::Update(0));
                all.push(Op::Update(n - 1));
                for op in all {
                    if let Ok(Ok(r)) = mc::catch(|| apply(w, &s, op, &srcs, &mut fresh.clone()))
                        && r.v.to_vec() == r.m
                    {
                        sibs.push((format!("{op:?}/{fresh}"), r));
                    }
                }
            }
            for (na, a) in &sibs {
                w.case(|| format!("{route}({n}) {na} against all siblings"), |w| {
                    for (nb, b) in &sibs {
                        let at = |e: String| format!("against {nb}: {e}");
                        w.same("==", &(a.v == b.v), &(a.m == b.m)).map_err(at)?;
                        w.same("cmp", &a.v.cmp(&b.v), &a.m.cmp(&b.m)).map_err(at)?;
                        w.same("partial_cmp", &a.v.partial_cmp(&b.v), &a.m.partial_cmp(&b.m)).map_err(at)?;
                        if a.m == b.m {
                            w.same("hash", &mc::hash_of(&a.v), &mc::hash_of(&b.v)).map_err(at)?;
                        }
                    }
                    Ok(())
                });
            }
        });
        c.par("nested", &[0usize, 1, 3, 64, 65, 70], |w, n| {
            w.case(|| format!("vector of vectors, {n}"), |w| {
                let inner: Vec<V> = (0..*n as u32).map(|i| from_model(&ids(i, 66))).collect();
                let inner2: Vec<V> = (0..*n as u32).map(|i| build("push_front", &ids(i, 66))).collect();
                let a: PV<V> = inner.into_iter().collect();
                let b = inner2.into_iter().fold(PV::new(), |v: PV<V>, x| v.push_back(x));
                w.same("==", &(a == b), &true)?;
                w.same("hash", &mc::hash_of(&a), &mc::hash_of(&b))
            });
        });
        c.seq("floats", |w| {
            // partial equality and partial order follow the elements
            for (i, (x, y)) in [(1.0f64, 2.0), (2.0, 1.0), (1.0, 1.0), (f64::NAN, 1.0), (1.0, f64::NAN)].into_iter().enumerate() {
                w.case(|| format!("pair {i}"), |w| {
                    let (a, b): (PV<f64>, PV<f64>) = ([0.0, x].into_iter().collect(), [0.0, y].into_iter().collect());
                    let (va, vb) = (vec![0.0, x], vec![0.0, y]);
                    w.same("==", &(a == b), &(va == vb))?;
                    w.same("partial_cmp", &a.partial_cmp(&b), &va.partial_cmp(&vb))
                });
            }
        });
    })
}
