//! C18: writer computations log every entry once and in program order.
//!
//! Every program up to a depth is built from the combinators of `Writer`, borrowing and
//! consuming, over three log types, and compared with a direct evaluation.
use mc::prog::*;
use mc::{Ctx, Res, W};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;

trait Log: Monoid + Clone + Send + Sync + PartialEq + std::fmt::Debug + 'static {
    fn of(xs: &[u8]) -> Self;
    fn list(&self) -> Vec<u8>;
}
impl Log for Vec<u8> {
    fn of(xs: &[u8]) -> Self {
        xs.to_vec()
    }
    fn list(&self) -> Vec<u8> {
        self.clone()
    }
}
impl Log for String {
    fn of(xs: &[u8]) -> Self {
        xs.iter().map(|x| (b'a' + x) as char).collect()
    }
    fn list(&self) -> Vec<u8> {
        self.bytes().map(|b| b - b'a').collect()
    }
}
impl Log for PersistentVector<u8> {
    fn of(xs: &[u8]) -> Self {
        xs.iter().copied().collect()
    }
    fn list(&self) -> Vec<u8> {
        self.iter().copied().collect()
    }
}

// Atoms: 0 pure, 1 pure_owned/pure_value, 2 one entry, 3 two entries, 4 tell then value.
// Continuation atoms: 0 logs the value, 1 tells and returns.
// One: 0 join, 1 through run and new, 2 functor replace via clone.
// Two: 0 lift2, 1 lift3 (with a third operand of its own log), 2 combine of two writers with list values.
type Out = (Vec<u8>, u8);
fn r_atom(i: u8) -> Out {
    match i {
        0 => (vec![], 1),
        1 => (vec![], 2),
        2 => (vec![1], 0),
        3 => (vec![2, 3], 2),
        _ => (vec![4], 1),
    }
}
fn r_katom(i: u8, a: u8) -> Out {
    if i == 0 { (vec![10 + a], (a + 1) % D) } else { (vec![15, 16 + a], a) }
}
/// The third operand of lift3, with a log and a value of its own.
fn r_third() -> Out {
    (vec![20, 21], 2)
}
fn comb3(x: u8, y: u8, z: u8) -> u8 {
    comb(comb(x, y), comb(z, comb(y, y)))
}
fn comb(x: u8, y: u8) -> u8 {
    ap2(x, y)
}
fn r(p: &P) -> Out {
    match p {
        P::Atom(i) => r_atom(*i),
        P::Fmap(t, p) => {
            let (l, a) = r(p);
            (l, tbl(*t, a))
        },
        P::Bind(p, k) => {
            let (mut l, a) = r(p);
            let (m, b) = match k {
                K::Ret(t) => (vec![], tbl(*t, a)),
                K::Atom(i) => r_katom(*i, a),
                K::Const(p) => r(p),
                K::Sel(p, q) => r(if a == 0 { p } else { q }),
            };
            l.extend(m);
            (l, b)
        },
        P::Ap(p, q) | P::Two(0 | 2, p, q) => {
            let (mut l, f) = r(p);
            let (m, a) = r(q);
            l.extend(m);
            (l, ap2(f, a))
        },
        P::Two(_, p, q) => {
            let (mut l, f) = r(p);
            let (m, a) = r(q);
            let (n, b) = r_third();
            l.extend(m);
            l.extend(n);
            (l, comb3(f, a, b))
        },
        P::One(0, p) => {
            let (mut l, a) = r(p);
            let (m, b) = r_atom(if a == 0 { 3 } else { 2 });
            l.extend(m);
            (l, comb(a, b))
        },
        P::One(_, p) => r(p),
    }
}

struct LW<L, const OWNED: bool>(std::marker::PhantomData<L>);
type T<L> = Writer<L, u8>;
#[derive(Clone)]
struct Nest<L>(T<L>);
impl<L: Log> From<Nest<L>> for Writer<L, u8> {
    fn from(n: Nest<L>) -> Self {
        n.0
    }
}
impl<L: Log, const OWNED: bool> Lang for LW<L, OWNED> {
    type T = T<L>;
    fn pure(a: u8) -> T<L> {
        if OWNED { Writer::<L, u8>::pure_owned(a) } else { Writer::<L, u8>::pure(&a) }
    }
    fn atom(i: u8) -> T<L> {
        match i {
            0 => Self::pure(1),
            1 => Writer::pure_value(2),
            2 => Writer::new(L::of(&[1]), 0),
            3 => Writer::new(L::of(&[2, 3]), 2),
            _ => Writer::<L, ()>::tell(L::of(&[4])).fmap_owned(|()| 1),
        }
    }
    fn katom(i: u8, a: u8) -> T<L> {
        if i == 0 {
            Writer::new(L::of(&[10 + a]), (a + 1) % D)
        } else {
            Writer::<L, ()>::tell(L::of(&[15])).bind(|()| Writer::new(L::of(&[16 + a]), a))
        }
    }
    fn fmap(p: T<L>, f: impl Fn(u8) -> u8 + Send + Sync + Clone + 'static) -> T<L> {
        if OWNED { p.fmap_owned(f) } else { p.fmap(|x| f(*x)) }
    }
    fn bind(p: T<L>, k: impl Fn(u8) -> T<L> + Send + Sync + Clone + 'static) -> T<L> {
        if OWNED { p.bind_owned(k) } else { p.bind(|x| k(*x)) }
    }
    fn ap(p: T<L>, q: T<L>) -> T<L> {
        if OWNED {
            p.fmap_owned(|f| move |a: u8| ap2(f, a)).apply_owned(q)
        } else {
            p.fmap(|f| {
                let f = *f;
                move |a: &u8| ap2(f, *a)
            })
            .apply(&q)
        }
    }
    fn one(i: u8, p: T<L>) -> T<L> {
        match i {
            0 => {
                let nest = |a: u8| {
                    let inner = Self::atom(if a == 0 { 3 } else { 2 });
                    Nest(inner.fmap(|b| comb(a, *b)))
                };
                if OWNED { p.fmap_owned(nest).join_owned::<u8>() } else { p.fmap(|a| nest(*a)).join::<u8>() }
            },
            _ => {
                let (l, a) = p.clone().run();
                Writer::new(l, a)
            },
        }
    }
    fn two(i: u8, p: T<L>, q: T<L>) -> T<L> {
        match (i, OWNED) {
            (0, false) => T::<L>::lift2(|a: &u8, b: &u8| ap2(*a, *b), &p, &q),
            (0, true) => T::<L>::lift2_owned(ap2, p, q),
            (1, false) => T::<L>::lift3(|a: &u8, b: &u8, c: &u8| comb3(*a, *b, *c), &p, &q, &third()),
            (1, true) => T::<L>::lift3_owned(comb3, p, q, third()),
            (_, o) => {
                let x = p.fmap(|a| vec![*a]);
                let y = q.fmap(|a| vec![*a]);
                let z = if o { x.combine_owned(y) } else { x.combine(&y) };
                z.fmap(|v| v[1..].iter().fold(v[0], |a, b| ap2(a, *b)))
            },
        }
    }
}

fn third<L: Log>() -> T<L> {
    let (l, a) = r_third();
    Writer::new(L::of(&l), a)
}

fn check<L: Log, const OWNED: bool>(w: &mut W, p: &P) -> Res {
    take();
    let t = build::<LW<L, OWNED>>(p);
    take();
    let (l, a) = r(p);
    let (gl, ga) = t.clone().run();
    w.eq("run", &(gl.list(), ga), &(l.clone(), a))?;
    w.eq("log", &t.clone().log().list(), &l)?;
    w.eq("unwrap", &t.unwrap(), &a)?;
    w.eq("value", t.value(), &a)?;
    w.eq("into_value", &t.clone().into_value(), &a)?;
    w.eq("iter", &(&t).into_iter().copied().collect::<Vec<_>>(), &vec![a])?;
    w.eq("into_iter", &t.clone().into_iter().collect::<Vec<_>>(), &vec![a])?;
    mc::iter_protocol!(w, "iter", (&t).into_iter().copied(), vec![a], false)?;
    mc::iter_protocol!(w, "into_iter", t.clone().into_iter(), vec![a], false)?;
    let mut m = t.clone();
    (&mut m).into_iter().for_each(|x| *x += 1);
    w.eq("iter_mut", &m.run(), &(t.log(), a + 1))
}
fn group<L: Log, const OWNED: bool>(c: &Ctx, name: &str) {
    let s = Spec { atoms: vec![0, 2, 3, 4, 1], tables: vec![0, 1], katoms: vec![0, 1], ones: vec![0, 1], twos: vec![0, 1, 2], ap: true };
    let d = c.pick(2, 3);
    let mut ps = s.programs(d);
    ps.extend(s.bushy());
    ps.extend(s.long(c.pick(&[6, 9, 17, 33, 65], &[6, 9, 17, 33, 65, 130]), 3));
    c.note(
        name,
        &format!(
            "{} programs: all combinator chains of depth {d} over {} atoms, plus all binary combinations of depth-1 programs, plus every combinator iterated up to 65 (130) times and every pair alternating",
            ps.len(),
            s.atoms.len()
        ),
    );
    c.par(name, &ps, |w, p| {
        w.case(|| format!("{p:?}"), |w| check::<L, OWNED>(w, p));
    });
}
fn main() {
    mc::run("C18", |c| {
        group::<Vec<u8>, false>(c, "Vec log, borrowing");
        group::<Vec<u8>, true>(c, "Vec log, consuming");
        group::<String, false>(c, "String log, borrowing");
        group::<String, true>(c, "String log, consuming");
        group::<PersistentVector<u8>, false>(c, "PersistentVector log, borrowing");
        group::<PersistentVector<u8>, true>(c, "PersistentVector log, consuming");
        let ns: Vec<usize> = (0..=c.pick(150, 700)).collect();
        c.note("long programs", "chains of n logging steps, n up to the bound, nested to the left and to the right, by bind and lift2");
        c.par("long programs", &ns, |w, n| {
            fn go<L: Log>(w: &mut W, n: usize) -> Res {
                let step = |i: usize| Writer::new(L::of(&[(i % 26) as u8]), i);
                let want: Vec<u8> = (0..n).map(|i| (i % 26) as u8).collect();
                let mut left: Writer<L, usize> = Writer::pure_value(0);
                let mut left2: Writer<L, usize> = Writer::pure_value(0);
                let mut right: Writer<L, usize> = Writer::pure_value(0);
                for i in 0..n {
                    left = left.bind(|a| step(i).fmap(|b| a + b));
                    left2 = Writer::<L, usize>::lift2_owned(|a, b| a + b, left2, step(i));
                    let r2 = right;
                    right = step(n - 1 - i).bind_owned(move |b| r2.clone().fmap_owned(|a| a + b));
                }
                for (k, t) in [("left", left), ("left lift2_owned", left2), ("right", right)] {
                    let (l, a) = t.run();
                    w.same(k, &(l.list(), a), &(want.clone(), n * n.saturating_sub(1) / 2))?;
                }
                Ok(())
            }
            w.case(|| format!("n={n}"), |w| {
                go::<Vec<u8>>(w, *n)?;
                go::<String>(w, *n)?;
                go::<PersistentVector<u8>>(w, *n)
            });
        });
        let s = Writer::<Vec<u8>, Vec<u8>>::empty();
        c.seq("empty writer", |w| {
            w.case(|| "Monoid::empty".into(), |w| w.eq("run", &s.clone().run(), &(vec![], vec![])));
        });
    })
}
