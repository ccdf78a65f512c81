//! C23: prism laws. Every prism of a small nested sum type, direct and nested, under every sequence of
//! updates up to a depth, against the sum-type model.
use mc::dom::{f1o, funs, seqs, tables};
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::prism::Prism;
use rustica::traits::iso::Iso;
use std::cell::Cell;
use std::rc::Rc;

type U = u8;
const D: [U; 3] = [0, 1, 2];
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum L {
    X(U),
    Y(U),
    Z,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum M {
    A(L),
    B(U),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum N {
    P(M),
    Q(U),
    R,
}
fn ls() -> Vec<L> {
    D.map(L::X).into_iter().chain(D.map(L::Y)).chain([L::Z]).collect()
}
fn ms() -> Vec<M> {
    ls().into_iter().map(M::A).chain(D.map(M::B)).collect()
}
fn ns() -> Vec<N> {
    ms().into_iter().map(N::P).chain(D.map(N::Q)).chain([N::R]).collect()
}
#[derive(Clone, Debug)]
enum Op {
    Mod(usize),
    Set(U),
}
fn prism<S: Clone + std::fmt::Debug + PartialEq + std::hash::Hash, G: Fn(&S) -> Option<U>, R: Fn(&U) -> S>(
    w: &mut mc::W, name: &str, p: &Prism<S, U, G, R>, model: (&dyn Fn(&S) -> Option<U>, &dyn Fn(U) -> S), ws: &[S], ops: &[Vec<Op>], fs: &[mc::dom::Fun<U>],
) {
    let (pre, rev) = model;
    for s0 in ws {
        w.case(|| format!("{name} from {s0:?}"), |w| {
            w.eq("preview", &p.preview(s0), &pre(s0))?;
            if let Some(a) = p.preview(s0) {
                w.eq("rebuild what was previewed", &p.review(&a), s0)?;
            }
            for seq in ops {
                let (mut s, mut m) = (s0.clone(), s0.clone());
                for op in seq {
                    match op {
                        Op::Mod(i) => {
                            let calls = Cell::new(0);
                            let f = f1o(&fs[*i]);
                            s = p.modify(s, |x| { calls.set(calls.get() + 1); f(x) });
                            let hit = pre(&m).is_some();
                            if let Some(x) = pre(&m) {
                                m = rev(fs[*i].at(x as usize));
                            }
                            w.same("function runs", &calls.get(), &(hit as i32))?;
                        },
                        Op::Set(v) => {
                            s = p.set_if_different(s, *v);
                            m = rev(*v);
                        },
                    }
                    if s != m {
                        return Err(format!("{seq:?}: got {s:?} want {m:?}"));
                    }
                    w.same("preview", &p.preview(&s), &pre(&m))?;
                }
                w.state(mc::hash_of(&s));
                w.add_cases(1);
            }
            Ok(())
        });
    }
    for v in D {
        w.case(|| format!("{name} review {v}"), |w| {
            w.eq("review", &p.review(&v), &rev(v))?;
            w.eq("preview what was built", &p.preview(&p.review(&v)), &Some(v))
        });
    }
}

struct NP;
impl Iso<N, Option<M>> for NP {
    type From = N;
    type To = Option<M>;
    fn forward(&self, s: &N) -> Option<M> {
        if let N::P(m) = s { Some(m.clone()) } else { None }
    }
    fn backward(&self, t: &Option<M>) -> N {
        t.clone().map_or(N::R, N::P)
    }
}
struct MA;
impl Iso<M, Option<L>> for MA {
    type From = M;
    type To = Option<L>;
    fn forward(&self, s: &M) -> Option<L> {
        if let M::A(l) = s { Some(l.clone()) } else { None }
    }
    fn backward(&self, t: &Option<L>) -> M {
        t.clone().map_or(M::B(0), M::A)
    }
}
/// The first or second case of the innermost type, seen through a bijection.
struct LX(Vec<U>, bool);
impl Iso<L, Option<U>> for LX {
    type From = L;
    type To = Option<U>;
    fn forward(&self, s: &L) -> Option<U> {
        match (s, self.1) {
            (L::X(v), true) | (L::Y(v), false) => Some(self.0[*v as usize]),
            _ => None,
        }
    }
    fn backward(&self, t: &Option<U>) -> L {
        match t {
            None => L::Z,
            Some(v) => {
                let v = self.0.iter().position(|x| x == v).unwrap() as U;
                if self.1 { L::X(v) } else { L::Y(v) }
            },
        }
    }
}

fn main() {
    mc::run("C23", |c| {
        c.assume("the preview and review functions handed to the library are themselves lawful");
        let fs = funs(3, &D);
        let mut one: Vec<Op> = D.map(Op::Set).to_vec();
        let mut some = one.clone();
        one.extend((0..fs.len()).map(Op::Mod));
        some.extend([5usize, 15, 21, 0].map(Op::Mod));
        let mut ops = seqs(&one, c.pick(3, 3));
        ops.extend(seqs(&some, c.pick(5, 6)));
        let (l0, m0, n0) = (ls(), ms(), ns());
        let which: Vec<usize> = (0..7).collect();
        c.par("prisms", &which, |w, k| {
            let lx = || Prism::new(|s: &L| if let L::X(v) = s { Some(*v) } else { None }, |v: &U| L::X(*v));
            let ly = || Prism::for_case::<(), ()>(|s: &L| if let L::Y(v) = s { Some(*v) } else { None }, |v: &U| L::Y(*v));
            let ma = || Prism::new(|s: &M| if let M::A(l) = s { Some(l.clone()) } else { None }, |l: &L| M::A(l.clone()));
            let np = || Prism::for_case::<(), ()>(|s: &N| if let N::P(m) = s { Some(m.clone()) } else { None }, |m: &M| N::P(m.clone()));
            match k {
                0 => prism(w, "X", &lx(), (&|s| if let L::X(v) = s { Some(*v) } else { None }, &L::X), &l0, &ops, &fs),
                1 => prism(w, "Y", &ly(), (&|s| if let L::Y(v) = s { Some(*v) } else { None }, &L::Y), &l0, &ops, &fs),
                2 => prism(w, "B", &Prism::new(|s: &M| if let M::B(v) = s { Some(*v) } else { None }, |v: &U| M::B(*v)),
                    (&|s| if let M::B(v) = s { Some(*v) } else { None }, &M::B), &m0, &ops, &fs),
                3 => prism(w, "Q", &Prism::for_case::<(), ()>(|s: &N| if let N::Q(v) = s { Some(*v) } else { None }, |v: &U| N::Q(*v)),
                    (&|s| if let N::Q(v) = s { Some(*v) } else { None }, &N::Q), &n0, &ops, &fs),
                4 => {
                    let (a, b, a2, b2) = (ma(), ly(), ma(), ly());
                    let p = Prism::new(move |s: &M| a.preview(s).and_then(|l| b.preview(&l)), move |v: &U| a2.review(&b2.review(v)));
                    prism(w, "A.Y", &p, (&|s| if let M::A(L::Y(v)) = s { Some(*v) } else { None }, &|v| M::A(L::Y(v))), &m0, &ops, &fs)
                },
                5 => {
                    let (o, a, b, o2, a2, b2) = (np(), ma(), lx(), np(), ma(), lx());
                    let p = Prism::new(move |s: &N| o.preview(s).and_then(|m| a.preview(&m)).and_then(|l| b.preview(&l)), move |v: &U| o2.review(&a2.review(&b2.review(v))));
                    prism(w, "P.A.X", &p, (&|s| if let N::P(M::A(L::X(v))) = s { Some(*v) } else { None }, &|v| N::P(M::A(L::X(v)))), &n0, &ops, &fs)
                },
                _ => {
                    // a case that covers the whole type
                    let p = Prism::new(|s: &U| Some(2 - s), |v: &U| 2 - v);
                    prism(w, "total", &p, (&|s| Some(2 - s), &|v| 2 - v), &D, &ops, &fs)
                },
            }
        });
        c.seq("sharing", |w| {
            for cur in [None, Some(0), Some(1), Some(2)] {
                for v in D {
                    w.case(|| format!("{cur:?} {v}"), |w| {
                        // equal: the original structure; otherwise built once
                        let built = Rc::new(Cell::new(0));
                        let n = built.clone();
                        let p = Prism::new(|s: &(Rc<()>, Option<U>)| s.1, move |v: &U| { n.set(n.get() + 1); (Rc::new(()), Some(*v)) });
                        let s0 = (Rc::new(()), cur);
                        let r = p.set_if_different(s0.clone(), v);
                        w.eq("value", &r.1, &Some(v))?;
                        w.eq("shared", &Rc::ptr_eq(&r.0, &s0.0), &(cur == Some(v)))?;
                        w.eq("built", &built.take(), &((cur != Some(v)) as i32))?;
                        let r = p.modify(s0.clone(), |_| v);
                        let kept = cur.is_none() || cur == Some(v);
                        w.eq("value", &r.1, &cur.map(|_| v))?;
                        w.eq("shared", &Rc::ptr_eq(&r.0, &s0.0), &kept)?;
                        w.eq("built", &built.take(), &(!kept as i32))
                    });
                }
            }
        });
        let ps: Vec<Vec<U>> = tables(3, &D).into_iter().filter(|t| t.iter().fold(0, |m, x| m | 1 << x) == 7).collect();
        c.par("isomorphism prisms", &ps, |w, a| {
            let at = |v: U| a.iter().position(|x| *x == v).unwrap() as U;
            for side in [true, false] {
                let mk = |v: U| if side { L::X(at(v)) } else { L::Y(at(v)) };
                let see = |l: &L| match (l, side) {
                    (L::X(v), true) | (L::Y(v), false) => Some(a[*v as usize]),
                    _ => None,
                };
                let p1 = IsoPrism::new(LX(a.clone(), side));
                let p2 = IsoPrism::new(MA).compose(IsoPrism::new(LX(a.clone(), side)));
                let p3 = IsoPrism::new(NP).compose(IsoPrism::new(MA)).compose(IsoPrism::new(LX(a.clone(), side)));
                let p3r = IsoPrism::new(NP).compose(IsoPrism::new(MA).compose(IsoPrism::new(LX(a.clone(), side))));
                for l in &l0 {
                    w.case(|| format!("{a:?} {side} {l:?}"), |w| {
                        w.eq("preview", &p1.preview(l), &see(l))?;
                        match p1.preview(l) {
                            Some(v) => w.eq("rebuild", &p1.review(&v), l),
                            None => Ok(()),
                        }
                    });
                }
                for m in &m0 {
                    w.case(|| format!("{a:?} {side} {m:?}"), |w| {
                        let want = if let M::A(l) = m { see(l) } else { None };
                        w.eq("preview", &p2.preview(m), &want)?;
                        match want {
                            Some(v) => w.eq("rebuild", &p2.review(&v), m),
                            None => Ok(()),
                        }
                    });
                }
                for n in &n0 {
                    w.case(|| format!("{a:?} {side} {n:?}"), |w| {
                        let want = if let N::P(M::A(l)) = n { see(l) } else { None };
                        w.eq("preview", &p3.preview(n), &want)?;
                        w.eq("preview, nested the other way", &p3r.preview(n), &want)?;
                        match want {
                            Some(v) => {
                                w.eq("rebuild", &p3.review(&v), n)?;
                                w.eq("rebuild, nested the other way", &p3r.review(&v), n)
                            },
                            None => Ok(()),
                        }
                    });
                }
                for v in D {
                    w.case(|| format!("{a:?} {side} review {v}"), |w| {
                        w.eq("review", &p1.review(&v), &mk(v))?;
                        w.eq("review 2", &p2.review(&v), &M::A(mk(v)))?;
                        w.eq("review 3", &p3.review(&v), &N::P(M::A(mk(v))))?;
                        w.eq("nothing", &(p2.iso.backward(&None), p3.iso.backward(&None), p3r.iso.backward(&None)), &(M::B(0), N::R, N::R))?;
                        w.eq("review 3r", &p3r.review(&v), &N::P(M::A(mk(v))))?;
                        w.eq("back", &(p1.preview(&p1.review(&v)), p2.preview(&p2.review(&v)), p3.preview(&p3.review(&v))), &(Some(v), Some(v), Some(v)))
                    });
                }
            }
        });
    })
}
