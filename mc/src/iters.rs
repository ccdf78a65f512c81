//! The iterator protocol: from every point of an iteration, everything the standard `Iterator` trait offers
//! gives what it gives on the plain list.

/// The lengths of the two parts of a partition into odd and even places.
pub fn parted<I: Iterator>(it: I) -> (usize, usize) {
    let mut i = 0;
    let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| {
        i += 1;
        i % 2 == 1
    });
    (a.len(), b.len())
}

/// `$mk` makes a fresh iterator each time it is evaluated; `$want` is a `Vec` of its items; `$exact` says whether
/// the remaining length must be reported exactly.
#[macro_export]
macro_rules! iter_protocol {
    ($w:expr, $what:expr, $mk:expr, $want:expr, $exact:expr) => {
        (|| -> $crate::Res {
            let want = $want;
            let n = want.len();
            let cuts: Vec<usize> = [0, 1, 2, 3, 63, 64, 65, n / 2, n.wrapping_sub(2), n.wrapping_sub(1), n, n + 1].into_iter().filter(|k| *k <= n + 1).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            for k in cuts {
                let rest = || want.get(k..).unwrap_or(&[]).to_vec();
                let len = n.saturating_sub(k);
                macro_rules! fresh {
                    ($it:ident, $what2:expr, $body:expr, $exp:expr) => {{
                        let got = {
                            #[allow(unused_mut)]
                            let mut $it = $mk;
                            for _ in 0..k {
                                let _ = $it.next();
                            }
                            $body
                        };
                        let exp = $exp;
                        $w.op(1);
                        if got != exp {
                            return Err(format!("{}, {k} items in, {}: got {} want {}", $what, $what2, $crate::clip(&got), $crate::clip(&exp)));
                        }
                    }};
                }
                fresh!(it, "size_hint", { let h = it.size_hint(); if $exact { h == (len, Some(len)) } else { h.0 <= len && h.1.is_none_or(|m| len <= m) } }, true);
                fresh!(it, "collect", it.collect::<Vec<_>>(), rest());
                fresh!(it, "count", it.count(), len);
                fresh!(it, "last", it.last(), rest().pop());
                fresh!(it, "fold", it.fold(vec![], |mut a, x| { a.push(x); a }), rest());
                fresh!(it, "for_each", { let mut a = vec![]; it.for_each(|x| a.push(x)); a }, rest());
                fresh!(it, "try_fold to the end", { let r = it.try_fold(0usize, |a, _| Some(a + 1)); (r, it.next().is_none()) }, (Some(len), true));
                fresh!(it, "reduce", it.reduce(|_, x| x), rest().pop());
                fresh!(it, "extend", { let mut a = rest(); a.clear(); a.extend(it); a }, rest());
                fresh!(it, "chain", it.chain(std::iter::empty()).collect::<Vec<_>>(), rest());
                fresh!(it, "partition", $crate::iters::parted(it), (len - len / 2, len / 2));
                for j in [0usize, 1, 2, 62, 64, len.wrapping_sub(1), len, len + 1, usize::MAX - 1, usize::MAX] {
                    let tail = |d: usize| rest().into_iter().skip(d).collect::<Vec<_>>();
                    let d = j.saturating_add(1);
                    fresh!(it, format!("nth({j})"), it.nth(j), rest().into_iter().nth(j));
                    fresh!(it, format!("after nth({j})"), { let _ = it.nth(j); let h = it.size_hint(); let r: Vec<_> = (&mut it).collect(); (r, $exact as usize * h.0, it.next().is_none()) }, (tail(d), $exact as usize * len.saturating_sub(d), true));
                    fresh!(it, format!("skip({j})"), it.skip(j).collect::<Vec<_>>(), tail(j));
                    fresh!(it, format!("take({j}) then the rest"), { let a: Vec<_> = it.by_ref().take(j).collect(); (a, it.collect::<Vec<_>>()) }, (rest().into_iter().take(j).collect::<Vec<_>>(), tail(j)));
                    if j > 0 {
                        fresh!(it, format!("step_by({j})"), it.step_by(j).collect::<Vec<_>>(), rest().into_iter().step_by(j).collect::<Vec<_>>());
                    }
                    fresh!(it, format!("find the item {j} on, then the rest"), { let mut i = 0; let a = it.find(|_| { i += 1; i == d }); (a, it.collect::<Vec<_>>()) }, (rest().into_iter().nth(j), tail(d)));
                    fresh!(it, format!("position {j} on"), { let mut i = 0; it.position(|_| { i += 1; i == d }) }, if j < len { Some(j) } else { None });
                    fresh!(it, format!("any, item {j} on"), { let mut i = 0; let a = it.any(|_| { i += 1; i == d }); (a, it.count()) }, (j < len, len.saturating_sub(d)));
                    fresh!(it, format!("try_for_each stopping {j} on"), { let mut i = 0; let a = it.try_for_each(|_| { i += 1; if i == d { None } else { Some(()) } }); (a.is_none(), it.count()) }, (j < len, len.saturating_sub(d)));
                }
            }
            Ok(())
        })()
    };
}
