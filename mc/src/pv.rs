//! Persistent vector: alphabet of operations, construction routes and the list model.
use crate::{Res, W};
use rustica::pvec::PersistentVector;
use std::fmt::Debug;

pub trait El: Clone + PartialEq + Debug + Sync + Send + 'static {
    fn mk(v: u32) -> Self;
    fn id(&self) -> u32;
}
impl El for u32 {
    fn mk(v: u32) -> u32 {
        v
    }
    fn id(&self) -> u32 {
        *self
    }
}
impl El for crate::live::Live {
    fn mk(v: u32) -> Self {
        crate::live::Live::new(v)
    }
    fn id(&self) -> u32 {
        self.v
    }
}

pub type PV<T> = PersistentVector<T>;
/// A vector together with its list model.
#[derive(Clone)]
pub struct St<T> {
    pub v: PV<T>,
    pub m: Vec<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    PushBack(usize),
    PushFront(usize),
    PopBack(usize),
    PopFront(usize),
    Extend(usize),
    Update(usize),
    Insert(usize),
    Remove(usize),
    /// keep the left / right half of a split
    SplitL(usize),
    SplitR(usize),
    /// split and concatenate back (identity)
    Resplit(usize),
    /// split and concatenate swapped
    Swap(usize),
    Take(usize),
    Skip(usize),
    /// self ++ source
    ConcatR(usize),
    /// source ++ self
    ConcatL(usize),
    ConcatSelf,
}

pub fn from_model<T: El>(m: &[u32]) -> PV<T> {
    m.iter().map(|x| T::mk(*x)).collect()
}

/// Complete comparison of a vector with its model.
pub fn observe<T: El>(w: &mut W, s: &St<T>) -> Res {
    let (v, m) = (&s.v, &s.m);
    w.op(m.len() as u64 * 2 + 6);
    if v.len() != m.len() || v.is_empty() != m.is_empty() {
        return Err(format!("len {} is_empty {} want {}", v.len(), v.is_empty(), m.len()));
    }
    for (i, x) in m.iter().enumerate() {
        match v.get(i) {
            Some(y) if y.id() == *x => {},
            y => return Err(format!("get({i}) = {y:?} want {x} (len {})", m.len())),
        }
    }
    if v.get(m.len()).is_some() || v.get(m.len() + 1).is_some() || FAR.iter().any(|i| v.get(*i).is_some()) {
        return Err("get past the end is not None".into());
    }
    let mut it = v.iter();
    for (i, x) in m.iter().enumerate() {
        match it.next() {
            Some(y) if y.id() == *x => {},
            y => return Err(format!("iteration at {i} = {y:?} want {x} (len {})", m.len())),
        }
    }
    if it.next().is_some() {
        return Err("iteration continues past the end".into());
    }
    if v.first().map(El::id) != m.first().copied() || v.last().map(El::id) != m.last().copied() {
        return Err(format!("first/last {:?}/{:?} want {:?}/{:?}", v.first(), v.last(), m.first(), m.last()));
    }
    Ok(())
}

/// The contents of a vector; panics (a violation of the case at hand) unless its length, indexed reads,
/// first/last and iteration all describe the same list.
pub fn lst<T: Clone + PartialEq + Debug>(v: &PV<T>) -> Vec<T> {
    let r = v.to_vec();
    let same = v.len() == r.len()
        && v.is_empty() == r.is_empty()
        && v.iter().eq(r.iter())
        && r.iter().enumerate().all(|(i, x)| v.get(i) == Some(x))
        && v.get(r.len()).is_none()
        && v.first() == r.first()
        && v.last() == r.last();
    assert!(same, "a vector is not one consistent list: len {}, to_vec {r:?}", v.len());
    r
}

/// Comparison at both ends, around internal boundaries only (for very long runs).
pub fn observe_light<T: El>(w: &mut W, s: &St<T>) -> Res {
    let (v, m) = (&s.v, &s.m);
    let n = m.len();
    if v.len() != n {
        return Err(format!("len {} want {n}", v.len()));
    }
    for i in [0, 1, 63, 64, 65, n / 2, n.wrapping_sub(66), n.wrapping_sub(65), n.wrapping_sub(64), n.wrapping_sub(2), n.wrapping_sub(1), n] {
        w.op(1);
        if v.get(i).map(El::id) != m.get(i).copied() {
            return Err(format!("get({i}) = {:?} want {:?} (len {n})", v.get(i), m.get(i)));
        }
    }
    Ok(())
}

/// Pops from `v`, and from the model of `s`; the shorter vector replaces `s.v`.
fn pop<T: El>(v: &PV<T>, m: &mut Vec<u32>, back: bool) -> Result<Option<PV<T>>, String> {
    let want = if back { m.pop() } else if m.is_empty() { None } else { Some(m.remove(0)) };
    let got = if back { v.pop_back() } else { v.pop_front() };
    match (got, want) {
        (None, None) => Ok(None),
        (Some((v, x)), Some(y)) if x.id() == y => Ok(Some(v)),
        (g, y) => Err(format!(
            "pop_{} returned {:?} want {y:?} (len was {})",
            if back { "back" } else { "front" },
            g.map(|g| g.1),
            m.len() + y.is_some() as usize
        )),
    }
}

/// Applies `op` to the real vector and to the model. `fresh` numbers new elements. The operation is
/// called on `s.v` itself, not on a clone, so that a vector nobody else shares stays unshared.
pub fn apply<T: El>(w: &mut W, s: &St<T>, op: Op, srcs: &[St<T>], fresh: &mut u32) -> Result<St<T>, String> {
    let mut new = || {
        *fresh += 1;
        *fresh
    };
    let mut r = St { v: PV::new(), m: s.m.clone() };
    let n = s.m.len();
    w.op(1);
    match op {
        Op::PushBack(k) => {
            for i in 0..k {
                let x = new();
                r.v = if i == 0 { &s.v } else { &r.v }.push_back(T::mk(x));
                r.m.push(x);
            }
        },
        Op::Extend(k) => {
            let xs: Vec<u32> = (0..k).map(|_| new()).collect();
            r.v = s.v.clone();
            r.v.extend(xs.iter().map(|x| T::mk(*x)));
            r.m.extend(xs);
        },
        Op::PushFront(k) => {
            let xs: Vec<u32> = (0..k).map(|_| new()).collect();
            for (i, x) in xs.iter().enumerate() {
                r.v = if i == 0 { &s.v } else { &r.v }.push_front(T::mk(*x));
            }
            r.m.splice(0..0, xs.into_iter().rev());
        },
        Op::PopBack(k) => {
            for i in 0..k {
                if let Some(v) = pop(if i == 0 { &s.v } else { &r.v }, &mut r.m, true)? {
                    r.v = v;
                } else if i == 0 {
                    r.v = s.v.clone();
                }
            }
        },
        Op::PopFront(k) => {
            for i in 0..k {
                if let Some(v) = pop(if i == 0 { &s.v } else { &r.v }, &mut r.m, false)? {
                    r.v = v;
                } else if i == 0 {
                    r.v = s.v.clone();
                }
            }
        },
        Op::Update(i) => {
            let x = new();
            r.v = s.v.update(i, T::mk(x));
            let t = s.v.try_update(i, T::mk(x));
            if t.is_ok() != (i < n) {
                return Err(format!("try_update({i}) ok={} with len {n}", t.is_ok()));
            }
            if let Ok(t) = t
                && t.get(i).map(El::id) != Some(x)
            {
                return Err(format!("try_update({i}) not visible"));
            }
            if i < n {
                r.m[i] = x;
            }
        },
        Op::Insert(i) => {
            let x = new();
            r.v = s.v.insert(i, T::mk(x));
            r.m.insert(i.min(n), x);
        },
        Op::Remove(i) => match s.v.remove(i) {
            Some(v) if i < n => {
                r.v = v;
                r.m.remove(i);
            },
            None if i >= n => r.v = s.v.clone(),
            g => return Err(format!("remove({i}) some={} with len {n}", g.is_some())),
        },
        Op::SplitL(i) | Op::SplitR(i) | Op::Resplit(i) | Op::Swap(i) => {
            let (a, b) = s.v.split_at(i);
            let k = i.min(n);
            if a.len() != k || b.len() != n - k {
                return Err(format!("split_at({i}) of {n}: lengths {} and {}", a.len(), b.len()));
            }
            match op {
                Op::SplitL(_) => {
                    r.v = a;
                    r.m.truncate(k);
                },
                Op::SplitR(_) => {
                    r.v = b;
                    r.m.drain(..k);
                },
                Op::Resplit(_) => r.v = a.concat(&b),
                _ => {
                    r.v = b.concat(&a);
                    r.m.rotate_left(k);
                },
            }
        },
        Op::Take(i) => {
            r.v = s.v.take(i);
            r.m.truncate(i);
        },
        Op::Skip(i) => {
            r.v = s.v.skip(i);
            r.m.drain(..i.min(n));
        },
        Op::ConcatR(j) => {
            r.v = s.v.concat(&srcs[j].v);
            r.m.extend(srcs[j].m.iter());
        },
        Op::ConcatL(j) => {
            r.v = srcs[j].v.concat(&s.v);
            r.m.splice(0..0, srcs[j].m.iter().copied());
        },
        Op::ConcatSelf => {
            r.v = s.v.concat(&s.v);
            r.m.extend(s.m.iter());
        },
    }
    Ok(r)
}

/// The construction routes: each yields the same contents in a different shape.
pub const ROUTES: &[&str] = &[
    "bulk", "push_back", "push_front", "both_ends", "concat_halves", "concat_thirds", "front_after_bulk",
    "back_after_bulk", "split_of_longer", "tail_of_longer", "popped_back", "popped_front", "insert_middle",
    "left_nested_concat", "inline_plus_tree", "tree_plus_inline", "rotated",
];

pub fn build<T: El>(route: &str, m: &[u32]) -> PV<T> {
    let n = m.len();
    let blk = |r: &[u32]| from_model::<T>(r);
    let pb = |v: PV<T>, r: &[u32]| r.iter().fold(v, |v, x| v.push_back(T::mk(*x)));
    let pf = |v: PV<T>, r: &[u32]| r.iter().rev().fold(v, |v, x| v.push_front(T::mk(*x)));
    match route {
        "bulk" => blk(m),
        "push_back" => pb(PV::new(), m),
        "push_front" => pf(PV::new(), m),
        "both_ends" => {
            // alternate: one at each end, starting from the middle
            let mid = n / 2;
            let (mut lo, mut hi) = (mid, mid);
            let mut v = PV::new();
            while lo > 0 || hi < n {
                if hi < n {
                    v = v.push_back(T::mk(m[hi]));
                    hi += 1;
                }
                if lo > 0 {
                    lo -= 1;
                    v = v.push_front(T::mk(m[lo]));
                }
            }
            v
        },
        "concat_halves" => blk(&m[..n / 2]).concat(&blk(&m[n / 2..])),
        "concat_thirds" => blk(&m[..n / 3]).concat(&blk(&m[n / 3..2 * n / 3]).concat(&blk(&m[2 * n / 3..]))),
        "front_after_bulk" => {
            let k = n.min(70).min(n / 2 + 1).min(n);
            pf(blk(&m[k..]), &m[..k])
        },
        "back_after_bulk" => {
            let k = n - n.min(70).min(n / 2 + 1);
            pb(blk(&m[..k]), &m[k..])
        },
        "split_of_longer" => {
            let mut l = m.to_vec();
            l.extend((0..90).map(|i| 900_000 + i));
            blk(&l).take(n)
        },
        "tail_of_longer" => {
            let mut l: Vec<u32> = (0..90).map(|i| 900_000 + i).collect();
            l.extend(m);
            blk(&l).skip(90)
        },
        "popped_back" => {
            let mut l = m.to_vec();
            l.extend((0..67).map(|i| 900_000 + i));
            let mut v = blk(&l);
            for _ in 0..67 {
                v = v.pop_back().expect("pop_back on non-empty").0;
            }
            v
        },
        "popped_front" => {
            let mut l: Vec<u32> = (0..67).map(|i| 900_000 + i).collect();
            l.extend(m);
            let mut v = blk(&l);
            for _ in 0..67 {
                v = v.pop_front().expect("pop_front on non-empty").0;
            }
            v
        },
        "insert_middle" => {
            if n < 2 {
                return blk(m);
            }
            let k = n / 2;
            let mut l = m.to_vec();
            let x = l.remove(k);
            blk(&l).insert(k, T::mk(x))
        },
        "left_nested_concat" => {
            let step = (n / 5).max(1);
            let mut v = PV::new();
            let mut i = 0;
            while i < n {
                let j = (i + step).min(n);
                v = v.concat(&blk(&m[i..j]));
                i = j;
            }
            v
        },
        "inline_plus_tree" => {
            let k = n.min(10);
            blk(&m[..k]).concat(&blk(&m[k..]))
        },
        "tree_plus_inline" => {
            let k = n - n.min(10);
            blk(&m[..k]).concat(&blk(&m[k..]))
        },
        "rotated" => {
            let k = n / 3;
            let mut l = m[k..].to_vec();
            l.extend(&m[..k]);
            let (a, b) = blk(&l).split_at(n - k);
            b.concat(&a)
        },
        _ => unreachable!(),
    }
}

pub fn ids(base: u32, n: usize) -> Vec<u32> {
    (0..n as u32).map(|i| base + i).collect()
}

pub fn st<T: El>(route: &str, m: Vec<u32>) -> St<T> {
    St { v: build(route, &m), m }
}

/// Positions past the end of any vector, whatever the width of an index.
pub const FAR: [usize; 4] = [usize::MAX, usize::MAX - 63, usize::MAX / 2 + 1, 1 << 32];

/// Positions at and around every internal boundary of a vector of length n.
pub fn positions(n: usize, fine: bool) -> Vec<usize> {
    let mut p: Vec<usize> = if fine {
        vec![0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192, 193, n / 2, n.saturating_sub(65), n.saturating_sub(64), n.saturating_sub(63), n.saturating_sub(2), n.saturating_sub(1), n]
    } else {
        vec![1, 64, 65, 128, n / 2, n.saturating_sub(1)]
    };
    p.retain(|i| *i <= n);
    p.sort();
    p.dedup();
    p
}

/// The operation alphabet in a state of length n.
pub fn alphabet(n: usize, fine: bool, nsrc: usize) -> Vec<Op> {
    let mut o = vec![Op::PushBack(1), Op::PushFront(1), Op::PopBack(1), Op::PopFront(1)];
    if fine {
        for k in [2, 63, 64, 65, 130] {
            o.extend([Op::PushBack(k), Op::PushFront(k), Op::PopBack(k), Op::PopFront(k)]);
        }
        o.extend([Op::Extend(3), Op::Extend(70), Op::ConcatSelf]);
        for i in positions(n, true) {
            o.extend([Op::Insert(i), Op::Remove(i), Op::SplitL(i), Op::SplitR(i), Op::Resplit(i), Op::Swap(i), Op::Update(i)]);
        }
        o.extend([Op::Update(n + 1), Op::Remove(n + 1), Op::SplitL(n + 1), Op::SplitR(n + 1), Op::Take(n / 2), Op::Take(n + 1), Op::Skip(n / 2), Op::Skip(n + 1), Op::Skip(0), Op::Take(0)]);
        for i in FAR {
            o.extend([Op::Update(i), Op::Remove(i), Op::Insert(i), Op::SplitL(i), Op::SplitR(i), Op::Take(i), Op::Skip(i)]);
        }
        for j in 0..nsrc {
            o.extend([Op::ConcatR(j), Op::ConcatL(j)]);
        }
    } else {
        o.extend([Op::PushBack(65), Op::PushFront(65), Op::PopBack(65), Op::PopFront(65), Op::ConcatSelf]);
        for i in positions(n, false) {
            o.extend([Op::SplitL(i), Op::SplitR(i)]);
        }
        for i in [n / 2, 64.min(n.saturating_sub(1))] {
            o.extend([Op::Insert(i), Op::Remove(i), Op::Update(i)]);
        }
        for j in 0..nsrc {
            o.extend([Op::ConcatR(j), Op::ConcatL(j)]);
        }
    }
    // same argument twice at small sizes
    let mut seen = std::collections::HashSet::new();
    o.retain(|x| seen.insert(*x));
    o
}
