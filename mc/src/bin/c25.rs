//! C25: predicates form a Boolean algebra pointwise. All formulas up to a depth over all
//! predicates of a small domain, evaluated at every point.
use mc::dom::tables;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::traits::semigroup::Semigroup;

#[derive(Clone, Debug)]
enum F {
    Atom(u8),
    And(Box<F>, Box<F>, bool),
    Or(Box<F>, Box<F>, bool),
    Diff(Box<F>, Box<F>, bool),
    Not(Box<F>, bool),
}
/// Truth table over the points 0..n.
fn sem(f: &F) -> u8 {
    match f {
        F::Atom(m) => *m,
        F::And(a, b, _) => sem(a) & sem(b),
        F::Or(a, b, _) => sem(a) | sem(b),
        F::Diff(a, b, _) => sem(a) & !sem(b),
        F::Not(a, _) => !sem(a),
    }
}
/// The atoms a short-circuit evaluation at `x` looks at.
fn looks(f: &F, x: u8, seen: &mut Vec<u32>) -> bool {
    match f {
        F::Atom(m) => {
            seen.push(*m as u32);
            m >> x & 1 == 1
        },
        F::And(a, b, _) => looks(a, x, seen) && looks(b, x, seen),
        F::Or(a, b, _) => looks(a, x, seen) || looks(b, x, seen),
        F::Diff(a, b, _) => looks(a, x, seen) && !looks(b, x, seen),
        F::Not(a, _) => !looks(a, x, seen),
    }
}
/// The library's predicate; the flag selects operators (consuming) or methods (borrowing).
fn build(f: &F) -> Predicate<u8> {
    match f {
        F::Atom(m) => {
            let m = *m;
            Predicate::new(move |x: &u8| {
                mc::prog::log(m as u32);
                m >> *x & 1 == 1
            })
        },
        F::And(a, b, true) => build(a) & build(b),
        F::And(a, b, false) => build(a).intersection(&build(b)),
        F::Or(a, b, true) => build(a) | build(b),
        F::Or(a, b, false) => build(a).union(&build(b)),
        F::Diff(a, b, true) => build(a) - build(b),
        F::Diff(a, b, false) => build(a).diff(&build(b)),
        F::Not(a, true) => !build(a),
        F::Not(a, false) => build(a).negate(),
    }
}
fn grow(base: &[F], with: &[F]) -> Vec<F> {
    let mut r = vec![];
    for a in base {
        for o in [false, true] {
            r.push(F::Not(Box::new(a.clone()), o));
            for b in with {
                r.push(F::And(Box::new(a.clone()), Box::new(b.clone()), o));
                r.push(F::Or(Box::new(a.clone()), Box::new(b.clone()), o));
                r.push(F::Diff(Box::new(a.clone()), Box::new(b.clone()), o));
                r.push(F::And(Box::new(b.clone()), Box::new(a.clone()), o));
                r.push(F::Or(Box::new(b.clone()), Box::new(a.clone()), o));
                r.push(F::Diff(Box::new(b.clone()), Box::new(a.clone()), o));
            }
        }
    }
    r
}

type Reg = (Predicate<u8>, u8);
fn line(w: &mut mc::W, n: u8, regs: &mut Vec<Reg>, hist: &mut Vec<String>, left: usize) {
    w.case(|| hist.join("; "), |w| {
        for (i, (p, m)) in regs.iter().enumerate() {
            for x in 0..n {
                w.eq("register contains", &(i, x, p.contains(&x)), &(i, x, m >> x & 1 == 1))?;
            }
        }
        Ok(())
    });
    if left == 0 {
        return;
    }
    let k = regs.len();
    for i in 0..k {
        let (p, a) = regs[i].clone();
        for o in [false, true] {
            hist.push(format!("not r{i} {o}"));
            regs.push((if o { !p.clone() } else { p.negate() }, !a));
            line(w, n, regs, hist, left - 1);
            regs.pop();
            hist.pop();
        }
        for j in 0..k {
            let (q, b) = regs[j].clone();
            // operand registers taken directly: i == j passes the very same object twice
            for op in 0..8 {
                let name = ["r& ", "and ", "r| ", "or ", "r- ", "diff ", "combine ", "combine_owned "][op].to_string() + &format!("r{i} r{j}");
                hist.push(name);
                let (r, m) = match op {
                    0 => (p.clone() & q.clone(), a & b),
                    1 => (regs[i].0.intersection(&regs[j].0), a & b),
                    2 => (p.clone() | q.clone(), a | b),
                    3 => (regs[i].0.union(&regs[j].0), a | b),
                    4 => (p.clone() - q.clone(), a & !b),
                    5 => (regs[i].0.diff(&regs[j].0), a & !b),
                    6 => (regs[i].0.combine(&regs[j].0), a | b),
                    _ => (p.clone().combine_owned(q.clone()), a | b),
                };
                regs.push((r, m));
                line(w, n, regs, hist, left - 1);
                regs.pop();
                hist.pop();
            }
        }
    }
}

fn main() {
    mc::run("C25", |c| {
        c.assume("predicates are pure functions of their argument");
        let n = 3u8;
        let all = (1u8 << n) - 1;
        let atoms: Vec<F> = (0..=all).map(F::Atom).collect();
        let d1 = grow(&atoms, &atoms);
        let d2 = grow(&d1, &atoms);
        let check = |w: &mut mc::W, f: &F| {
            w.case(|| format!("{f:?}"), |w| {
                let p = build(f);
                let q = p.clone();
                let want = sem(f);
                for x in 0..n {
                    let _ = mc::prog::take();
                    w.eq("contains", &(x, p.contains(&x)), &(x, want >> x & 1 == 1))?;
                    // documented: an operand that no longer matters is not evaluated
                    let mut may = vec![];
                    looks(f, x, &mut may);
                    for a in mc::prog::take() {
                        match may.iter().position(|m| *m == a) {
                            Some(i) => drop(may.swap_remove(i)),
                            None => return Err(format!("at {x}: predicate {a:03b} was evaluated although the result was already decided")),
                        }
                    }
                    w.eq("a clone contains", &q.contains(&x), &(want >> x & 1 == 1))?;
                    // asked about another value while it is being asked about this one
                    for k in 0..3 {
                        let y = (x + 1) % n;
                        let (a, b) = mc::prog::nested(k, || p.contains(&x), || p.contains(&y));
                        w.eq("contains, asked again meanwhile", &(x, k, a.0), &(x, k, want >> x & 1 == 1))?;
                        w.eq("contains, asked meanwhile", &b.is_none_or(|b| b.0 == (want >> y & 1 == 1)), &true)?;
                    }
                }
                Ok(())
            });
        };
        c.par("formulas of depth 1", &d1, check);
        c.par("formulas of depth 2 (one operand atomic)", &d2, check);
        if c.thorough() {
            let few: Vec<F> = [0b011u8, 0b101].map(F::Atom).to_vec();
            let d2s = grow(&grow(&few, &few), &few);
            c.par("formulas of depth 3 over two atoms", &grow(&d2s, &few), check);
        }
        // balanced: both operands compound
        let few: Vec<F> = [0b011u8, 0b101].map(F::Atom).to_vec();
        let d1s = grow(&few, &few);
        c.par("both operands compound", &grow(&d1s, &d1s), check);
        // straight-line programs over registers: an instruction may use the same predicate twice,
        // and every register is read again at the end
        let depth = c.pick(3, 4);
        c.par("straight-line programs with sharing", &(0..=all).collect::<Vec<_>>(), |w, &m| {
            for k in if c.thorough() { vec![0b011u8, 0b101] } else { vec![0b011u8] } {
                let atom = |m: u8| Predicate::new(move |x: &u8| m >> *x & 1 == 1);
                let mut regs = vec![(atom(m), m), (atom(k), k)];
                let mut hist = vec![format!("{m:03b}"), format!("{k:03b}")];
                line(w, n, &mut regs, &mut hist, depth);
            }
        });
        // other element types
        c.seq("strings", |w| {
            for t in tables(3, &[false, true]) {
                for u in tables(3, &[false, true]) {
                    w.case(|| format!("{t:?} {u:?}"), |w| {
                        let (t2, u2) = (t.clone(), u.clone());
                        let p = Predicate::new(move |s: &String| t2[s.len() % 3]);
                        let q = Predicate::new(move |s: &String| u2[s.len() % 3]);
                        for s in ["", "a", "ab"] {
                            let (a, b) = (t[s.len()], u[s.len()]);
                            let s = s.to_string();
                            w.eq("union", &p.union(&q).contains(&s), &(a || b))?;
                            w.eq("intersection", &p.intersection(&q).contains(&s), &(a && b))?;
                            w.eq("diff", &p.diff(&q).contains(&s), &(a && !b))?;
                            w.eq("negate", &p.negate().contains(&s), &!a)?;
                            w.eq("de morgan", &(!(p.clone() & q.clone())).contains(&s), &((!p.clone()) | (!q.clone())).contains(&s))?;
                            w.eq("double negation", &(!!p.clone()).contains(&s), &a)?;
                            w.eq("operands unchanged", &(p.contains(&s), q.contains(&s)), &(a, b))?;
                        }
                        Ok(())
                    });
                }
            }
        });
    })
}
