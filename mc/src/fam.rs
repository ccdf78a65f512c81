//! Reference models of the library's container families. Every container value is read
//! as a universal model value `M`, and every functor/applicative/monad operation has one
//! reference definition per family, written independently of the library.
use crate::dom::seqs;
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    /// zero or one value
    Opt,
    /// one value or one error
    Res,
    /// one value or a non-empty list of errors, accumulated by applicative operations
    Val,
    /// a list of values
    List,
    /// exactly one value
    Id,
    /// exactly one value and a log
    Wr,
}

/// Model value: `vals` the values in order, `errs` the errors in order, `log` the log.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M<T> {
    pub vals: Vec<T>,
    pub errs: Vec<u8>,
    pub log: Vec<u8>,
}

impl<T> M<T> {
    pub fn vals(v: Vec<T>) -> Self {
        M { vals: v, errs: vec![], log: vec![] }
    }
    pub fn errs(e: Vec<u8>) -> Self {
        M { vals: vec![], errs: e, log: vec![] }
    }
    pub fn pure(v: T) -> Self {
        M::vals(vec![v])
    }
    pub fn wr(log: Vec<u8>, v: T) -> Self {
        M { vals: vec![v], errs: vec![], log }
    }
    pub fn one(&self) -> &T {
        &self.vals[0]
    }
    pub fn map<U>(&self, f: impl FnMut(&T) -> U) -> M<U> {
        M { vals: self.vals.iter().map(f).collect(), errs: self.errs.clone(), log: self.log.clone() }
    }
}

fn cat(a: &[u8], b: &[u8]) -> Vec<u8> {
    [a, b].concat()
}

/// Errors and log of two operands combined in operand order.
fn sides<A, B>(k: Kind, a: &M<A>, b: &M<B>) -> (Vec<u8>, Vec<u8>) {
    let errs = match k {
        Kind::Val => cat(&a.errs, &b.errs),
        _ if !a.errs.is_empty() => a.errs.clone(),
        _ => b.errs.clone(),
    };
    (errs, cat(&a.log, &b.log))
}

/// Two operands, first-operand-major.
pub fn lift2<A, B, C>(k: Kind, f: impl Fn(&A, &B) -> C, a: &M<A>, b: &M<B>) -> M<C> {
    let (errs, log) = sides(k, a, b);
    let mut vals = vec![];
    if errs.is_empty() {
        for x in &a.vals {
            for y in &b.vals {
                vals.push(f(x, y));
            }
        }
    }
    M { vals, errs, log }
}
pub fn lift3<A: Clone, B: Clone, C, D>(
    k: Kind, f: impl Fn(&A, &B, &C) -> D, a: &M<A>, b: &M<B>, c: &M<C>,
) -> M<D> {
    let ab = lift2(k, |x: &A, y: &B| (x.clone(), y.clone()), a, b);
    lift2(k, |xy, z| f(&xy.0, &xy.1, z), &ab, c)
}
/// Chaining: results concatenated in order, first failure wins, logs in order.
pub fn bind<A, B: Clone>(m: &M<A>, f: impl Fn(&A) -> M<B>) -> M<B> {
    let mut r = M { vals: vec![], errs: m.errs.clone(), log: m.log.clone() };
    for x in &m.vals {
        let n = f(x);
        r.vals.extend(n.vals);
        r.errs.extend(n.errs);
        r.log.extend(n.log);
    }
    r
}
pub fn join<A: Clone>(m: &M<M<A>>) -> M<A> {
    bind(m, |x| x.clone())
}

/// The function space: a table on {0,1,2} extended to all numbers so that distinct
/// blocks of three stay distinct (order and identity of long values remain visible).
pub fn at(t: &[u32], x: u32) -> u32 {
    t[(x % 3) as usize] + 3 * (x / 3)
}
pub fn func(t: &[u32]) -> impl Fn(&u32) -> u32 + Clone + Send + Sync + 'static + use<> {
    let t = t.to_vec();
    move |x: &u32| at(&t, *x)
}
pub fn func_o(t: &[u32]) -> impl Fn(u32) -> u32 + Clone + Send + Sync + 'static + use<> {
    let t = t.to_vec();
    move |x: u32| at(&t, x)
}

/// All model values of a family with values over {0,1,2}: lists up to `n`, error lists
/// up to `e`, logs up to 2.
pub fn space(k: Kind, n: usize, e: usize) -> Vec<M<u32>> {
    let v = [0u32, 1, 2];
    let mut r = vec![];
    match k {
        Kind::Opt => {
            r.push(M::vals(vec![]));
            r.extend(v.map(M::pure));
        },
        Kind::Res => {
            r.extend([7u8, 8, 9].map(|e| M::errs(vec![e])));
            r.extend(v.map(M::pure));
        },
        Kind::Val => {
            r.extend(seqs(&[7u8, 8, 9], e).into_iter().skip(1).map(M::errs));
            r.extend(v.map(M::pure));
        },
        Kind::List => r.extend(seqs(&v, n).into_iter().map(M::vals)),
        Kind::Id => r.extend(v.map(M::pure)),
        Kind::Wr => {
            for l in seqs(&[5u8, 6], 2) {
                r.extend(v.map(|x| M::wr(l.clone(), x)));
            }
        },
    }
    r
}
/// Values around every storage threshold (inline/heap switch, leaf size, tree levels).
pub fn long(k: Kind, lens: &[usize]) -> Vec<M<u32>> {
    let mut r = vec![];
    for &n in lens {
        match k {
            Kind::List => r.push(M::vals((0..n as u32).map(|i| i * 7 % 3 + 3 * i).collect())),
            Kind::Val if n > 0 => r.push(M::errs((0..n).map(|i| i as u8).collect())),
            Kind::Wr => r.push(M::wr((0..n).map(|i| i as u8).collect(), 1)),
            _ => {},
        }
    }
    r
}

pub mod m_option {
    use super::*;
    pub const K: Kind = Kind::Opt;
    pub type F<T> = Option<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        m.vals.first().cloned()
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        M::vals(f.iter().cloned().collect())
    }
}
pub mod m_maybe {
    use super::*;
    use rustica::datatypes::maybe::Maybe;
    pub const K: Kind = Kind::Opt;
    pub type F<T> = Maybe<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        match m.vals.first() {
            Some(x) => Maybe::Just(x.clone()),
            None => Maybe::Nothing,
        }
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        match f {
            Maybe::Just(x) => M::pure(x.clone()),
            Maybe::Nothing => M::vals(vec![]),
        }
    }
}
pub mod m_first {
    use super::*;
    use rustica::datatypes::wrapper::first::First;
    pub const K: Kind = Kind::Opt;
    pub type F<T> = First<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        First(m.vals.first().cloned())
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        M::vals(f.0.iter().cloned().collect())
    }
}
pub mod m_last {
    use super::*;
    use rustica::datatypes::wrapper::last::Last;
    pub const K: Kind = Kind::Opt;
    pub type F<T> = Last<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        Last(m.vals.first().cloned())
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        M::vals(f.0.iter().cloned().collect())
    }
}
pub mod m_result {
    use super::*;
    pub const K: Kind = Kind::Res;
    pub type F<T> = Result<T, u8>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        m.vals.first().cloned().ok_or_else(|| m.errs[0])
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        match f {
            Ok(x) => M::pure(x.clone()),
            Err(e) => M::errs(vec![*e]),
        }
    }
}
pub mod m_either {
    use super::*;
    use rustica::datatypes::either::Either;
    pub const K: Kind = Kind::Res;
    pub type F<T> = Either<u8, T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        match m.vals.first() {
            Some(x) => Either::Right(x.clone()),
            None => Either::Left(m.errs[0]),
        }
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        match f {
            Either::Right(x) => M::pure(x.clone()),
            Either::Left(e) => M::errs(vec![*e]),
        }
    }
}
pub mod m_validated {
    use super::*;
    use rustica::datatypes::validated::Validated;
    pub const K: Kind = Kind::Val;
    pub type F<T> = Validated<u8, T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        match m.vals.first() {
            Some(x) => Validated::Valid(x.clone()),
            None => Validated::Invalid(m.errs.iter().copied().collect()),
        }
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        match f {
            Validated::Valid(x) => M::pure(x.clone()),
            Validated::Invalid(e) => M::errs(e.to_vec()),
        }
    }
}
pub mod m_vec {
    use super::*;
    pub const K: Kind = Kind::List;
    pub type F<T> = Vec<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        m.vals.clone()
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        M::vals(f.clone())
    }
}
pub mod m_choice {
    use super::*;
    use rustica::datatypes::choice::Choice;
    pub const K: Kind = Kind::List;
    pub type F<T> = Choice<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        match m.vals.split_first() {
            Some((x, r)) => Choice::new(x.clone(), r.to_vec()),
            None => Choice::new_empty(),
        }
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        let mut v: Vec<T> = f.first().into_iter().cloned().collect();
        if !v.is_empty() {
            v.extend(f.alternatives().iter().cloned());
        }
        M::vals(v)
    }
}
pub mod m_pvec {
    use super::*;
    use rustica::pvec::PersistentVector;
    pub const K: Kind = Kind::List;
    pub type F<T> = PersistentVector<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        PersistentVector::from_slice(&m.vals)
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        M::vals((0..f.len()).map(|i| f.get(i).unwrap().clone()).collect())
    }
}
pub mod m_id {
    use super::*;
    use rustica::datatypes::id::Id;
    pub const K: Kind = Kind::Id;
    pub type F<T> = Id<T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        Id::new(m.vals[0].clone())
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        M::pure(f.clone().into_inner())
    }
}
macro_rules! wrapper1 {
    ($m:ident, $t:path, $c:path) => {
        pub mod $m {
            use super::*;
            pub const K: Kind = Kind::Id;
            pub type F<T> = $t;
            pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
                $c(m.vals[0].clone())
            }
            pub fn un<T: Clone>(f: &F<T>) -> M<T> {
                M::pure(f.0.clone())
            }
        }
    };
}
wrapper1!(m_sum, rustica::datatypes::wrapper::sum::Sum<T>, rustica::datatypes::wrapper::sum::Sum);
wrapper1!(m_product, rustica::datatypes::wrapper::product::Product<T>, rustica::datatypes::wrapper::product::Product);
wrapper1!(m_max, rustica::datatypes::wrapper::max::Max<T>, rustica::datatypes::wrapper::max::Max);
wrapper1!(m_min, rustica::datatypes::wrapper::min::Min<T>, rustica::datatypes::wrapper::min::Min);
pub mod m_writer {
    use super::*;
    use rustica::datatypes::writer::Writer;
    pub const K: Kind = Kind::Wr;
    pub type F<T> = Writer<Vec<u8>, T>;
    pub fn mk<T: Clone>(m: &M<T>) -> F<T> {
        Writer::new(m.log.clone(), m.vals[0].clone())
    }
    pub fn un<T: Clone>(f: &F<T>) -> M<T> {
        let (l, v) = f.clone().run();
        M::wr(l, v)
    }
}
