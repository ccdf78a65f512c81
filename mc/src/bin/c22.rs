//! C22: lens laws. Every lens of a small structure, built directly, by nesting and by mapping through
//! bijections, under every sequence of writes up to a depth, against the field model.
use mc::dom::{funs, seqs, tables};
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::lens::Lens;
use rustica::traits::iso::Iso;
use std::cell::Cell;
use std::rc::Rc;

type U = u8;
const D: [U; 3] = [0, 1, 2];
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct In {
    p: U,
    q: U,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Mid {
    i: In,
    r: U,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Out {
    m: Mid,
    s: U,
}
fn out(p: U, q: U, r: U, s: U) -> Out {
    Out { m: Mid { i: In { p, q }, r }, s }
}
fn wholes() -> Vec<Out> {
    tables(4, &D).into_iter().map(|t| out(t[0], t[1], t[2], t[3])).collect()
}
fn perms() -> Vec<Vec<U>> {
    tables(3, &D).into_iter().filter(|t| t.iter().fold(0, |m, x| m | 1 << x) == 7).collect()
}
fn inv(t: &[U]) -> Vec<U> {
    let mut r = vec![0; 3];
    for (i, x) in t.iter().enumerate() {
        r[*x as usize] = i as U;
    }
    r
}
/// One write.
#[derive(Clone, Debug)]
enum Op {
    Set(U),
    Always(U),
    Mod(usize),
    ModAlways(usize),
}

/// The model of a lens: which field, seen through which bijection.
fn field(s: &Out, k: usize) -> U {
    [s.m.i.p, s.m.i.q, s.m.r, s.s][k]
}
fn with(s: &Out, k: usize, v: U) -> Out {
    let mut s = s.clone();
    *[&mut s.m.i.p, &mut s.m.i.q, &mut s.m.r, &mut s.s][k] = v;
    s
}

fn sequences<G: Fn(&Out) -> U, S: Fn(Out, U) -> Out>(
    w: &mut mc::W, name: &str, l: &Lens<Out, U, G, S>, k: usize, view: &[U], ops: &[Vec<Op>], fs: &[mc::dom::Fun<U>], ws: &[Out],
) {
    let un = inv(view);
    for s0 in ws {
        w.case(|| format!("{name} from {s0:?}"), |w| {
            for seq in ops {
                let (mut s, mut m) = (s0.clone(), s0.clone());
                for op in seq {
                    let cur = view[field(&m, k) as usize];
                    w.same("get", &l.get(&s), &cur)?;
                    let (r, v) = match op {
                        Op::Set(v) => (l.set(s, *v), *v),
                        Op::Always(v) => (l.set_always(s, *v), *v),
                        Op::Mod(f) => (l.modify(s, mc::dom::f1o(&fs[*f])), fs[*f].at(cur as usize)),
                        Op::ModAlways(f) => (l.modify_always(s, mc::dom::f1o(&fs[*f])), fs[*f].at(cur as usize)),
                    };
                    s = r;
                    m = with(&m, k, un[v as usize]);
                    if s != m {
                        return Err(format!("{seq:?}: got {s:?} want {m:?}"));
                    }
                    w.same("get after writing", &l.get(&s), &v)?;
                }
                w.state(mc::hash_of(&s));
                w.add_cases(1);
            }
            Ok(())
        });
    }
}

/// Bijection given by a table.
#[derive(Clone)]
struct Bij(Vec<U>);
impl Iso<U, U> for Bij {
    type From = U;
    type To = U;
    fn forward(&self, x: &U) -> U {
        self.0[*x as usize]
    }
    fn backward(&self, x: &U) -> U {
        inv(&self.0)[*x as usize]
    }
}
/// The whole as (focus, whole) pairs, one level at a time.
struct OutMid;
impl Iso<Out, (Mid, Out)> for OutMid {
    type From = Out;
    type To = (Mid, Out);
    fn forward(&self, s: &Out) -> (Mid, Out) {
        (s.m.clone(), s.clone())
    }
    fn backward(&self, t: &(Mid, Out)) -> Out {
        Out { m: t.0.clone(), ..t.1.clone() }
    }
}
struct MidIn;
impl Iso<(Mid, Out), (In, Out)> for MidIn {
    type From = (Mid, Out);
    type To = (In, Out);
    fn forward(&self, t: &(Mid, Out)) -> (In, Out) {
        (t.0.i.clone(), t.1.clone())
    }
    fn backward(&self, t: &(In, Out)) -> (Mid, Out) {
        (Mid { i: t.0.clone(), ..t.1.m.clone() }, t.1.clone())
    }
}
struct InP(Vec<U>);
impl Iso<(In, Out), (U, Out)> for InP {
    type From = (In, Out);
    type To = (U, Out);
    fn forward(&self, t: &(In, Out)) -> (U, Out) {
        (self.0[t.0.p as usize], t.1.clone())
    }
    fn backward(&self, t: &(U, Out)) -> (In, Out) {
        (In { p: inv(&self.0)[t.0 as usize], ..t.1.m.i.clone() }, t.1.clone())
    }
}
/// A number below nine as (low digit seen through a bijection, the rest): the context is not the whole.
#[derive(Clone)]
struct Low(Vec<U>);
impl Iso<U, (U, U)> for Low {
    type From = U;
    type To = (U, U);
    fn forward(&self, n: &U) -> (U, U) {
        (self.0[(n % 3) as usize], n - n % 3)
    }
    fn backward(&self, t: &(U, U)) -> U {
        t.1 + inv(&self.0)[t.0 as usize]
    }
}
/// The same for a pair whose focus is already such a digit.
#[derive(Clone)]
struct Turn(Vec<U>);
impl Iso<(U, U), (U, U)> for Turn {
    type From = (U, U);
    type To = (U, U);
    fn forward(&self, t: &(U, U)) -> (U, U) {
        (self.0[t.0 as usize], t.1 + 100)
    }
    fn backward(&self, t: &(U, U)) -> (U, U) {
        (inv(&self.0)[t.0 as usize], t.1 - 100)
    }
}

fn main() {
    mc::run("C22", |c| {
        c.assume("the getter, setter and mapping functions handed to the library are themselves lawful");
        let fs = funs(3, &D);
        let ps = perms();
        let ws = wholes();
        let mut one: Vec<Op> = vec![];
        for v in D {
            one.push(Op::Set(v));
            one.push(Op::Always(v));
        }
        let small = one.clone();
        for i in 0..fs.len() {
            one.push(Op::Mod(i));
            one.push(Op::ModAlways(i));
        }
        let mid: Vec<usize> = [5usize, 15, 21].to_vec(); // three functions: [0,1,2], [1,2,0], [2,1,0]
        let mut some = small.clone();
        for i in &mid {
            some.push(Op::Mod(*i));
            some.push(Op::ModAlways(*i));
        }
        let mut ops: Vec<Vec<Op>> = seqs(&one, c.pick(2, 2));
        ops.extend(seqs(&some, c.pick(4, 5)));
        // direct lenses of every field, mapped through up to three bijections
        macro_rules! lens { ($k:expr) => { Lens::new(move |s: &Out| field(s, $k), move |s: Out, v: U| with(&s, $k, v)) } }
        // the same focus by nesting one lens in another, twice
        macro_rules! nested { () => {{
            let o = Lens::new(|s: &Out| s.m.clone(), |s: Out, m: Mid| Out { m, ..s });
            let i = Lens::new(|m: &Mid| m.i.clone(), |m: Mid, i: In| Mid { i, ..m });
            let p = Lens::new(|i: &In| i.p, |i: In, p: U| In { p, ..i });
            let oi = {
                let (o, i) = (o.clone(), i.clone());
                let (o2, i2) = (o.clone(), i.clone());
                Lens::new(move |s: &Out| i.get(&o.get(s)), move |s: Out, v: In| { let m = o2.get(&s); o2.set(s, i2.set(m, v)) })
            };
            let (a, b, p2) = (oi.clone(), oi, p.clone());
            Lens::new(move |s: &Out| p.get(&a.get(s)), move |s: Out, v: U| b.modify(s, |i| p2.set(i, v)))
        }} }
        let ks: Vec<usize> = (0..4).collect();
        c.par("direct lenses", &ks, |w, &k| sequences(w, &format!("field {k}"), &lens!(k), k, &D, &ops, &fs, &ws));
        c.seq("nested lens", |w| sequences(w, "m.i.p", &nested!(), 0, &D, &ops, &fs, &ws));
        let few: Vec<Out> = vec![out(0, 1, 2, 0), out(1, 1, 0, 2), out(2, 0, 1, 1)];
        let g = |t: &Vec<U>| { let t = t.clone(); move |x: U| t[x as usize] };
        c.par("mapped lenses", &ps, |w, a| {
            for k in 0..4 {
                sequences(w, &format!("field {k} fmap {a:?}"), &lens!(k).fmap(g(a), g(&inv(a))), k, a, &ops, &fs, &few);
            }
            for b in &ps {
                let ab: Vec<U> = D.map(|x| b[a[x as usize] as usize]).to_vec();
                sequences(w, &format!("field 1 fmap {a:?} {b:?}"), &lens!(1).fmap(g(a), g(&inv(a))).fmap(g(b), g(&inv(b))), 1, &ab, &ops, &fs, &few);
                sequences(w, &format!("nested fmap {a:?} {b:?}"), &nested!().fmap(g(a), g(&inv(a))).fmap(g(b), g(&inv(b))), 0, &ab, &ops, &fs, &few);
                for d in &ps {
                    let abd: Vec<U> = ab.iter().map(|x| d[*x as usize]).collect();
                    let l = lens!(2).fmap(g(a), g(&inv(a))).fmap(g(b), g(&inv(b))).fmap(g(d), g(&inv(d)));
                    sequences(w, &format!("field 2 fmap {a:?} {b:?} {d:?}"), &l, 2, &abd, &ops, &fs, &few);
                }
            }
        });
        // mapping to another type; parts whose equality is partial; shared parts
        c.seq("other focus types", |w| {
            for s in 0..3u8 {
                for v in 0..3u8 {
                    w.case(|| format!("string view {s} {v}"), |w| {
                        let l = Lens::new(|s: &(U, U)| s.0, |s: (U, U), v: U| (v, s.1)).fmap(|x| "x".repeat(x as usize), |t: String| t.len() as U);
                        let t = "x".repeat(v as usize);
                        w.eq("get", &l.get(&(s, 7)), &"x".repeat(s as usize))?;
                        w.eq("set", &l.set((s, 7), t.clone()), &(v, 7))?;
                        w.eq("set_always", &l.set_always((s, 7), t.clone()), &(v, 7))?;
                        w.eq("modify", &l.modify((s, 7), |x| x + "x"), &(s + 1, 7))?;
                        w.eq("modify_always", &l.modify_always((s, 7), |x| x + "x"), &(s + 1, 7))
                    });
                }
            }
            let fl = [0.0f64, 1.5, f64::NAN, f64::INFINITY];
            for a in fl {
                for b in fl {
                    w.case(|| format!("float {a} {b}"), |w| {
                        let l = Lens::new(|s: &(f64, U)| s.0, |s: (f64, U), v: f64| (v, s.1));
                        for (n, r) in [("set", l.set((a, 1), b)), ("always", l.set_always((a, 1), b)), ("modify", l.modify((a, 1), |_| b)), ("modify_always", l.modify_always((a, 1), |_| b))] {
                            w.eq(n, &(r.0.to_bits(), r.1), &(b.to_bits(), 1))?;
                        }
                        w.eq("get", &l.get(&(a, 1)).to_bits(), &a.to_bits())
                    });
                }
            }
            for cur in D {
                for v in D {
                    w.case(|| format!("sharing {cur} {v}"), |w| {
                        // an equal write gives the original structure back, an unequal one runs the setter once
                        let sets = Rc::new(Cell::new(0));
                        let n = sets.clone();
                        let l = Lens::new(|s: &(Rc<U>, U)| *s.0, move |s: (Rc<U>, U), v: U| { n.set(n.get() + 1); (Rc::new(v), s.1) });
                        let s0 = (Rc::new(cur), 5);
                        let r = l.set(s0.clone(), v);
                        w.eq("shared", &Rc::ptr_eq(&r.0, &s0.0), &(cur == v))?;
                        w.eq("setter runs", &sets.take(), &((cur != v) as i32))?;
                        let r = l.modify(s0.clone(), |_| v);
                        w.eq("shared", &Rc::ptr_eq(&r.0, &s0.0), &(cur == v))?;
                        w.eq("setter runs", &sets.take(), &((cur != v) as i32))?;
                        l.set_always(s0.clone(), v);
                        w.eq("setter always runs", &sets.take(), &1)?;
                        let calls = Cell::new(0);
                        l.modify_always(s0.clone(), |_| { calls.set(calls.get() + 1); v });
                        w.eq("setter always runs", &sets.take(), &1)?;
                        w.eq("function runs once", &calls.take(), &1)?;
                        l.modify(s0, |_| { calls.set(calls.get() + 1); v });
                        w.eq("function runs once", &calls.take(), &1)
                    });
                }
            }
        });
        // isomorphism lenses
        c.par("isomorphism lenses on the whole", &ps, |w, a| {
            for f in &fs {
                w.case(|| format!("{a:?} {f:?}"), |w| {
                    let l = IsoLens::<U, U, Bij>::new(Bij(a.clone()));
                    for s in D {
                        w.eq("get", &l.get(&s), &a[s as usize])?;
                        w.eq("set", &l.set(&s), &inv(a)[s as usize])?;
                        w.eq("set what was read", &l.set(&l.get(&s)), &s)?;
                        w.eq("get what was written", &l.get(&l.set(&s)), &s)?;
                        w.eq("modify", &l.modify(&s, mc::dom::f1o(f)), &inv(a)[f.at(a[s as usize] as usize) as usize])?;
                        w.eq("iso_ref", &l.iso_ref().forward(&s), &a[s as usize])?;
                    }
                    Ok(())
                });
            }
        });
        let fms: Vec<Mid> = tables(3, &D).into_iter().map(|t| Mid { i: In { p: t[0], q: t[1] }, r: t[2] }).collect();
        let fis: Vec<In> = tables(2, &D).into_iter().map(|t| In { p: t[0], q: t[1] }).collect();
        c.par("isomorphism lenses on a part", &ws, |w, s| {
            let l1 = IsoLens::<Out, (Mid, Out), _>::new(OutMid);
            let l2 = IsoLens::new(OutMid).compose(IsoLens::new(MidIn));
            w.case(|| format!("one level {s:?}"), |w| {
                w.eq("get", &l1.get(s), &(s.m.clone(), s.clone()))?;
                w.eq("set what was read", &l1.set(&l1.get(s)), s)?;
                w.eq("modify with identity", &l1.modify(s, |x| x), s)?;
                for v in &fms {
                    let want = Out { m: v.clone(), ..s.clone() };
                    w.same("set_focus", &l1.set_focus(s, v), &want)?;
                    w.same("modify_focus", &l1.modify_focus(s, |_| v.clone()), &want)?;
                    w.same("modify", &l1.modify(s, |(_, x)| (v.clone(), x)), &want)?;
                    w.same("focus read back", &l1.get(&l1.set_focus(s, v)).0, v)?;
                    for u in &fms {
                        w.same("last write wins", &l1.set_focus(&l1.set_focus(s, u), v), &want)?;
                    }
                }
                w.eq("modify_focus sees the focus", &l1.modify_focus(s, |m| Mid { r: (m.r + 1) % 3, ..m }).m.r, &((s.m.r + 1) % 3))
            });
            w.case(|| format!("two levels {s:?}"), |w| {
                w.eq("get", &l2.get(s), &(s.m.i.clone(), s.clone()))?;
                w.eq("set what was read", &l2.set(&l2.get(s)), s)?;
                for v in &fis {
                    let mut want = s.clone();
                    want.m.i = v.clone();
                    w.same("set_focus", &l2.set_focus(s, v), &want)?;
                    w.same("modify_focus", &l2.modify_focus(s, |_| v.clone()), &want)?;
                    w.same("focus read back", &l2.get(&l2.set_focus(s, v)).0, v)?;
                    for u in &fis {
                        w.same("last write wins", &l2.set_focus(&l2.set_focus(s, u), v), &want)?;
                    }
                }
                Ok(())
            });
            for a in &ps {
                w.case(|| format!("three levels {a:?} {s:?}"), |w| {
                    let l3 = IsoLens::new(OutMid).compose(IsoLens::new(MidIn)).compose(IsoLens::new(InP(a.clone())));
                    w.eq("get", &l3.get(s), &(a[s.m.i.p as usize], s.clone()))?;
                    w.eq("set what was read", &l3.set(&l3.get(s)), s)?;
                    for v in D {
                        let want = with(s, 0, inv(a)[v as usize]);
                        w.same("set_focus", &l3.set_focus(s, &v), &want)?;
                        w.same("modify_focus", &l3.modify_focus(s, |_| v), &want)?;
                        for u in D {
                            w.same("last write wins", &l3.set_focus(&l3.set_focus(s, &u), &v), &want)?;
                        }
                    }
                    Ok(())
                });
            }
        });
        // a lawful isomorphism whose context is the rest of the whole: modifying the focus keeps the context
        c.par("isomorphism lenses on a remainder", &ps, |w, a| {
            let l = IsoLens::new(Low(a.clone()));
            for f in &fs {
                for n in 0..9 as U {
                    w.case(|| format!("{a:?} {f:?} {n}"), |w| {
                        let (hi, lo) = (n - n % 3, a[(n % 3) as usize]);
                        w.eq("get", &l.get(&n), &(lo, hi))?;
                        w.eq("set what was read", &l.set(&l.get(&n)), &n)?;
                        let want = hi + inv(a)[f.at(lo as usize) as usize];
                        let seen = Cell::new(0);
                        w.eq("modify_focus", &l.modify_focus(&n, |x| { seen.set(seen.get() + 1); f.at(x as usize) }), &want)?;
                        w.eq("function runs once", &seen.get(), &1)?;
                        w.eq("modify", &l.modify(&n, |(x, c)| (f.at(x as usize), c)), &want)?;
                        for b in &ps {
                            let l2 = IsoLens::new(Low(a.clone())).compose(IsoLens::new(Turn(b.clone())));
                            w.same("composed get", &l2.get(&n), &(b[lo as usize], hi + 100))?;
                            let x = f.at(b[lo as usize] as usize);
                            let want = hi + inv(a)[inv(b)[x as usize] as usize];
                            w.same("composed modify_focus", &l2.modify_focus(&n, |x| f.at(x as usize)), &want)?;
                            w.same("composed modify", &l2.modify(&n, |(x, c)| (f.at(x as usize), c)), &want)?;
                            w.same("composed set", &l2.set(&(x, hi + 100)), &want)?;
                        }
                        Ok(())
                    });
                }
            }
        });
    })
}
