//! Finite domains and the complete spaces of functions between them.

/// All functions from {0..n-1} to a list of outputs, as tables.
pub fn tables<T: Clone>(n: usize, outs: &[T]) -> Vec<Vec<T>> {
    let mut r: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        let mut q = Vec::with_capacity(r.len() * outs.len());
        for t in &r {
            for o in outs {
                let mut t2 = t.clone();
                t2.push(o.clone());
                q.push(t2);
            }
        }
        r = q;
    }
    r
}

/// All sequences over `alpha` of length 0..=max, shortest first.
pub fn seqs<T: Clone>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        let mut q = Vec::new();
        for s in &layer {
            for a in alpha {
                let mut s2 = s.clone();
                s2.push(a.clone());
                q.push(s2);
            }
        }
        all.extend(q.iter().cloned());
        layer = q;
    }
    all
}

/// A function on {0..n-1} given by its table; out-of-range inputs wrap around.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fun<T>(pub std::sync::Arc<Vec<T>>);
impl<T: Clone> Fun<T> {
    pub fn at(&self, i: usize) -> T {
        self.0[i % self.0.len()].clone()
    }
}
/// All functions {0..n-1} -> outs.
pub fn funs<T: Clone>(n: usize, outs: &[T]) -> Vec<Fun<T>> {
    tables(n, outs).into_iter().map(|t| Fun(std::sync::Arc::new(t))).collect()
}

pub type U = u8;
pub fn f1(f: &Fun<U>) -> impl Fn(&U) -> U + Clone + Send + Sync + 'static {
    let f = f.clone();
    move |x: &U| f.at(*x as usize)
}
pub fn f1o(f: &Fun<U>) -> impl Fn(U) -> U + Clone + Send + Sync + 'static {
    let f = f.clone();
    move |x: U| f.at(x as usize)
}

/// A value that compares, orders and hashes by its key alone, while its tag stays visible to the
/// harness: shows which of several equal elements an operation keeps and in what order.
#[derive(Clone, Debug)]
pub struct Tie(pub u32, pub u32);
impl PartialEq for Tie {
    fn eq(&self, o: &Tie) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tie {}
impl PartialOrd for Tie {
    fn partial_cmp(&self, o: &Tie) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tie {
    fn cmp(&self, o: &Tie) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for Tie {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
/// Keys and tags, compared in full.
pub fn full<'a>(i: impl IntoIterator<Item = &'a Tie>) -> Vec<(u32, u32)> {
    i.into_iter().map(|t| (t.0, t.1)).collect()
}

/// An iterator over a list that reports a chosen, truthful size hint.
#[derive(Clone)]
pub struct Hint<T>(std::vec::IntoIter<T>, u8);
/// Lengths around the powers of two and ten, beyond any buffer or batch size a list operation may use.
pub const LONG: [usize; 19] =
    [255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000, 10_001];
pub const HINTS: std::ops::Range<u8> = 0..6;
pub fn hint<T>(v: Vec<T>, h: u8) -> Hint<T> {
    Hint(v.into_iter(), h)
}
impl<T> Iterator for Hint<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, Some(n + 3)),
            2 => (0, None),
            3 => (n, None),
            5 => (0, Some(usize::MAX)),
            _ => (n / 2, Some(n)),
        }
    }
}
