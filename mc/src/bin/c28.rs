//! C28: serialization round trips. Every value of every serializable type over small leaf domains, at every
//! nesting up to depth two (fifteen containers in each of the two positions), through JSON text, pretty JSON
//! text, a JSON tree, JSON bytes, and a positional binary format that stores no names.
use mc::{Ctx, Res, W};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static DEEP: AtomicBool = AtomicBool::new(false);
trait Vals: Clone + Debug + PartialEq + Serialize + DeserializeOwned + Send + Sync {
    /// JSON writes some value of this type as `null`, which an enclosing `Option` cannot tell from its own
    /// absence; that is serde's own limit, so those nestings go through the binary format only.
    const NULL: bool;
    const AMBIGUOUS: bool = false;
    fn vals() -> Vec<Self>;
}
fn lists<T: Vals>() -> Vec<Vec<T>> {
    let v = T::vals();
    let deep = DEEP.load(Relaxed);
    let mut few: Vec<T> = v.iter().take(if deep { 3 } else { 2 }).cloned().collect();
    if let Some(x) = v.last() {
        few.push(x.clone());
    }
    let mut r = mc::dom::seqs(&few, if deep { 3 } else { 2 });
    // Every value in a list, and lists beyond the inline buffers.
    r.extend(v.iter().map(|x| vec![x.clone()]));
    for n in if deep { vec![4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 1025, 4097, 10_001] } else { vec![4, 5, 8, 9, 17, 33, 65, 257, 1025] } {
        r.push((0..n).map(|i| v[i % v.len()].clone()).collect());
    }
    r
}
impl Vals for u8 {
    const NULL: bool = false;
    fn vals() -> Vec<u8> {
        vec![0, 1, 255]
    }
}
impl Vals for i64 {
    const NULL: bool = false;
    fn vals() -> Vec<i64> {
        vec![i64::MIN, -1, 0, i64::MAX]
    }
}
impl Vals for String {
    const NULL: bool = false;
    fn vals() -> Vec<String> {
        ["", "a\"\\\n\0", "é\u{1F600}", "null", "Nothing"].map(String::from).to_vec()
    }
}
impl Vals for () {
    const NULL: bool = true;
    fn vals() -> Vec<()> {
        vec![()]
    }
}
impl Vals for f64 {
    const NULL: bool = false;
    fn vals() -> Vec<f64> {
        vec![0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, -1e-300, 0.1 + 0.2]
    }
}
impl Vals for char {
    const NULL: bool = false;
    fn vals() -> Vec<char> {
        vec!['a', '"', '\0', '\u{1F600}']
    }
}
impl Vals for bool {
    const NULL: bool = false;
    fn vals() -> Vec<bool> {
        vec![false, true]
    }
}
impl Vals for (u8, String) {
    const NULL: bool = false;
    fn vals() -> Vec<Self> {
        String::vals().into_iter().map(|s| (s.len() as u8, s)).collect()
    }
}
impl Vals for Vec<u8> {
    const NULL: bool = false;
    fn vals() -> Vec<Self> {
        vec![vec![], vec![0], vec![1, 2, 3]]
    }
}
impl Vals for std::collections::BTreeMap<String, u8> {
    const NULL: bool = false;
    fn vals() -> Vec<Self> {
        vec![Default::default(), [("Just".to_string(), 1)].into(), [("Left".to_string(), 1), ("value".to_string(), 2)].into()]
    }
}
/// A user's own type, shaped like the library's.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
enum Own {
    Nothing,
    Just(u8),
    Valid { value: u8, values: Vec<u8> },
}
impl Vals for Own {
    const NULL: bool = false;
    fn vals() -> Vec<Self> {
        vec![Own::Nothing, Own::Just(3), Own::Valid { value: 1, values: vec![] }, Own::Valid { value: 1, values: vec![2, 3] }]
    }
}
type Table = std::collections::BTreeMap<String, u8>;
impl<T: Vals> Vals for Option<T> {
    const NULL: bool = true;
    const AMBIGUOUS: bool = T::NULL || T::AMBIGUOUS;
    fn vals() -> Vec<Self> {
        std::iter::once(None).chain(T::vals().into_iter().map(Some)).collect()
    }
}
macro_rules! vals { ($($name:ident<$t:ident> = $ty:ty, null $null:expr, ambiguous $amb:expr, |$v:ident| $vals:expr;)*) => { $(
    impl<$t: Vals> Vals for $ty {
        const NULL: bool = $null;
        const AMBIGUOUS: bool = $amb;
        fn vals() -> Vec<Self> {
            let $v = $t::vals();
            $vals
        }
    }
)* } }
vals! {
    Maybe<T> = Maybe<T>, null false, ambiguous T::AMBIGUOUS, |v| v.into_iter().map(Maybe::Just).chain([Maybe::Nothing]).collect();
    Id<T> = Id<T>, null false, ambiguous T::AMBIGUOUS, |v| v.into_iter().map(Id::new).collect();
    First<T> = First<T>, null true, ambiguous T::NULL || T::AMBIGUOUS, |v| v.into_iter().map(|x| First(Some(x))).chain([First(None)]).collect();
    Last<T> = Last<T>, null true, ambiguous T::NULL || T::AMBIGUOUS, |v| v.into_iter().map(|x| Last(Some(x))).chain([Last(None)]).collect();
    Min<T> = Min<T>, null T::NULL, ambiguous T::AMBIGUOUS, |v| v.into_iter().map(Min).collect();
    Max<T> = Max<T>, null T::NULL, ambiguous T::AMBIGUOUS, |v| v.into_iter().map(Max).collect();
    Sum<T> = Sum<T>, null T::NULL, ambiguous T::AMBIGUOUS, |v| v.into_iter().map(Sum).collect();
    Product<T> = Product<T>, null T::NULL, ambiguous T::AMBIGUOUS, |v| v.into_iter().map(Product).collect();
    Choice<T> = Choice<T>, null false, ambiguous T::AMBIGUOUS, |_v| lists::<T>().into_iter().map(|l| l.into_iter().collect()).collect();
}
/// The two-parameter types, with the nested type on either side.
macro_rules! both { ($($n:ident: $ty:ty, |$t:ident| $amb:expr, $vals:expr;)*) => { $(
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    #[serde(transparent)]
    struct $n<$t>($ty);
    impl<$t: Vals> Vals for $n<$t> {
        const NULL: bool = false;
        const AMBIGUOUS: bool = $amb;
        fn vals() -> Vec<Self> { $vals.into_iter().map($n).collect() }
    }
)* } }
both! {
    EitherL: Either<T, u8>, |T| T::AMBIGUOUS, T::vals().into_iter().map(Either::Left).chain(u8::vals().into_iter().map(Either::Right)).collect::<Vec<_>>();
    EitherR: Either<u8, T>, |T| T::AMBIGUOUS, T::vals().into_iter().map(Either::Right).chain(u8::vals().into_iter().map(Either::Left)).collect::<Vec<_>>();
    ValidA: Validated<u8, T>, |T| T::AMBIGUOUS, T::vals().into_iter().map(Validated::Valid).chain(lists::<u8>().into_iter().map(|l| Validated::Invalid(l.into()))).collect::<Vec<_>>();
    ValidE: Validated<T, u8>, |T| T::AMBIGUOUS, u8::vals().into_iter().map(Validated::Valid).chain(lists::<T>().into_iter().map(|l| Validated::Invalid(l.into()))).collect::<Vec<_>>();
    WriterA: Writer<String, T>, |T| T::AMBIGUOUS, T::vals().into_iter().flat_map(|x| ["", "log"].map(|l| Writer::new(l.to_string(), x.clone()))).collect::<Vec<_>>();
    WriterW: Writer<Vec<T>, u8>, |T| T::AMBIGUOUS, lists::<T>().into_iter().map(|l| Writer::new(l, 7u8)).collect::<Vec<_>>();
}

fn trip<T: Vals>(w: &mut W, x: &T) -> Res {
    let show = format!("{x:?}");
    let mut same = |w: &mut W, via: &str, y: Result<T, String>| -> Res {
        let y = y.map_err(|e| format!("{via}: {e}"))?;
        w.op(1);
        w.eq(via, &y, x)?;
        w.eq(&format!("{via} (shown)"), &format!("{y:?}"), &show)
    };
    let b = mc::codec::to_bytes(x).map_err(|e| format!("binary: {e}"))?;
    same(w, "binary", mc::codec::from_bytes(&b).map_err(|e| e.to_string()))?;
    let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
    if !T::AMBIGUOUS {
        same(w, &format!("text {s}"), serde_json::from_str(&s).map_err(|e| e.to_string()))?;
        let p = serde_json::to_string_pretty(x).map_err(|e| e.to_string())?;
        same(w, "pretty text", serde_json::from_str(&p).map_err(|e| e.to_string()))?;
        same(w, "reader", serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string()))?;
        let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
        same(w, "tree", serde_json::from_value(v).map_err(|e| e.to_string()))?;
    }
    // Restoring and storing again gives the same bytes.
    let again: T = mc::codec::from_bytes(&b).map_err(|e| e.to_string())?;
    w.eq("stored again", &mc::codec::to_bytes(&again).map_err(|e| e.to_string())?, &b)
}
fn ty<T: Vals>(w: &mut W) {
    let name = std::any::type_name::<T>().replace("rustica::datatypes::", "").replace("c28::", "").replace("alloc::string::", "");
    let vs = T::vals();
    for (i, x) in vs.iter().enumerate() {
        // Distinct values must stay distinct in the binary form.
        w.case(|| format!("{name} #{i}"), |w| {
            w.state(mc::hash_debug(&(&name, x)));
            trip(w, x)
        });
    }
    w.case(|| format!("{name} injective"), |w| {
        let enc: Vec<Vec<u8>> = vs.iter().map(|x| mc::codec::to_bytes(x).unwrap()).collect();
        let mut first: std::collections::HashMap<&[u8], usize> = Default::default();
        for (i, e) in enc.iter().enumerate() {
            let j = *first.entry(e).or_insert(i);
            w.ok(&format!("values {j} and {i} share an encoding"), vs[i] == vs[j])?;
        }
        Ok(())
    });
}
type Job = fn(&mut W);
macro_rules! outer { ($m:ident, $($a:tt)*) => { [
    $m!(Maybe, $($a)*), $m!(Id, $($a)*), $m!(First, $($a)*), $m!(Last, $($a)*), $m!(Min, $($a)*), $m!(Max, $($a)*), $m!(Sum, $($a)*),
    $m!(Product, $($a)*), $m!(Choice, $($a)*), $m!(EitherL, $($a)*), $m!(EitherR, $($a)*), $m!(ValidA, $($a)*), $m!(ValidE, $($a)*),
    $m!(WriterA, $($a)*), $m!(WriterW, $($a)*)
] } }
macro_rules! one { ($o:ident, $t:ty) => { ty::<$o<$t>> as Job } }
macro_rules! two { ($o:ident, $i:ident) => { ty::<$o<$i<u8>>> as Job } }
macro_rules! leaf { ($c:expr, $g:expr, $t:ty) => { $c.par($g, &outer!(one, $t), |w, j| j(w)); } }
macro_rules! nest { ($c:expr, $($i:ident),*) => { $( $c.par(concat!("around ", stringify!($i)), &outer!(two, $i), |w, j| j(w)); )* } }

fn go(c: &Ctx) {
    DEEP.store(c.thorough(), Relaxed);
    leaf!(c, "leaves u8", u8);
    leaf!(c, "leaves i64", i64);
    leaf!(c, "leaves String", String);
    leaf!(c, "leaves unit", ());
    leaf!(c, "leaves Option", Option<u8>);
    leaf!(c, "leaves f64", f64);
    leaf!(c, "leaves char", char);
    leaf!(c, "leaves bool", bool);
    leaf!(c, "leaves pair", (u8, String));
    leaf!(c, "leaves list", Vec<u8>);
    leaf!(c, "leaves map", Table);
    leaf!(c, "leaves user type", Own);
    nest!(c, Maybe, Id, First, Last, Min, Max, Sum, Product, Choice, EitherL, EitherR, ValidA, ValidE, WriterA, WriterW);
}
fn main() {
    mc::run("C28", go)
}
