//! C10: additive assembly, renumbering, the envelope-reducing order, and copies of systems.

use crate::eig::*;
use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{LinearMatrix, MatrixLike};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum What {
    K,
    M,
    R,
}

/// one call: a coefficient of the stiffness, the mass or the right-hand side
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Op {
    what: What,
    i: usize,
    j: usize,
    v: f64,
    /// after the copy was made: 0 both systems, 1 the original, 2 the copy
    to: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    ops: Vec<Op>,
    fork: usize,
    /// which of the two is solved, reordered and used up first
    copy_first: bool,
    order: Vec<usize>,
}

/// a whole symmetric positive definite matrix in quarters, diagonally dominant
fn quarters(n: usize, pat: Vec<(usize, usize)>, off: Vec<i32>, slack: Vec<i32>) -> Tab {
    let mut t = Tab::new(n, n);
    for (k, &(i, j)) in pat.iter().enumerate() {
        let x = off[k % off.len()] as f64 / 4.0;
        t.set(i, j, x);
        t.set(j, i, x);
    }
    for i in 0..n {
        let s: f64 = (0..n).filter(|&j| j != i).map(|j| t.at(i, j).abs()).sum();
        t.set(i, i, s + slack[i] as f64 / 4.0);
    }
    t
}

/// the calls that add up to x at one position: a random split, exact in quarters
fn parts(what: What, i: usize, j: usize, x: f64, cut: &[i32], out: &mut Vec<Op>) {
    let mut rest = x;
    for &c in cut {
        let v = c as f64 / 4.0;
        rest -= v;
        out.push(Op { what, i, j, v, to: 0 });
    }
    out.push(Op { what, i, j, v: rest, to: 0 });
}

fn strat() -> BoxedStrategy<Case> {
    cases(dims(8))
}

fn strat_large() -> BoxedStrategy<Case> {
    cases(large(9, 24))
}

fn cases(dim: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    dim
        .prop_flat_map(|n| {
            (
                Just(n),
                sym_pattern(n),
                prop::collection::vec(prop_oneof![(-8i32..0), 1i32..8], n * n),
                prop::collection::vec(1i32..8, n),
                prop::collection::vec(-1i32..=1, n * n),
                prop::collection::vec(1i32..5, n),
                prop::collection::vec(-20i32..20, n),
                prop::collection::vec(prop::collection::vec(-9i32..9, 0..3), 2 * n * n + n),
            )
        })
        .prop_flat_map(|(n, pat, off, slack, moff, mslack, r, cuts)| {
            let k = quarters(n, pat.clone(), off, slack);
            let m = quarters(n, pat, moff, mslack);
            let mut ops = vec![];
            let mut cut = cuts.iter().cycle();
            for i in 0..n {
                for j in 0..n {
                    if k.at(i, j) != 0.0 {
                        parts(What::K, i, j, k.at(i, j), cut.next().unwrap(), &mut ops);
                    }
                    if m.at(i, j) != 0.0 {
                        parts(What::M, i, j, m.at(i, j), cut.next().unwrap(), &mut ops);
                    }
                }
                parts(What::R, i, 0, r[i] as f64 / 4.0, cut.next().unwrap(), &mut ops);
            }
            // more on one side of the fork only: diagonal entries, so that both stay definite
            let extra = prop_oneof![
                (0..n, 1i32..20, 0u8..3).prop_map(|(i, v, to)| Op { what: What::K, i, j: i, v: v as f64 / 4.0, to }),
                (0..n, 1i32..20, 0u8..3).prop_map(|(i, v, to)| Op { what: What::M, i, j: i, v: v as f64 / 4.0, to }),
                (0..n, -20i32..20, 0u8..3).prop_map(|(i, v, to)| Op { what: What::R, i, j: 0, v: v as f64 / 4.0, to }),
            ];
            (Just(n), Just(ops), prop::collection::vec(extra, 0..8))
        })
        .prop_flat_map(|(n, mut ops, extra)| {
            ops.extend(extra);
            let len = ops.len();
            (Just(n), Just(ops).prop_shuffle(), 0..=len, any::<bool>(), Just((0..n).collect::<Vec<_>>()).prop_shuffle(), (exponent(60), exponent(60), exponent(200)))
        })
        .prop_map(|(n, mut ops, fork, copy_first, order, e)| {
            // other units for the stiffness, the mass and the right-hand side: exact, so the parts still add up
            for o in ops.iter_mut() {
                o.v *= pow2(match o.what {
                    What::K => e.0,
                    What::M => e.1,
                    What::R => e.2,
                });
            }
            Case { n, ops, fork, copy_first, order }
        })
        .boxed()
}

#[derive(Clone)]
struct Ref {
    k: Tab,
    m: Tab,
    r: Vec<f64>,
    touched: Vec<bool>,
}

fn apply(s: &mut System, t: &mut Ref, o: &Op, at: &dyn Fn(usize) -> usize) {
    let (i, j) = (at(o.i), at(o.j));
    match o.what {
        What::K => {
            s.add_k_coefficient((i, j), o.v);
            t.k.add(i, j, o.v);
            let n = t.k.r;
            t.touched[i * n + j] = true;
        }
        What::M => {
            s.add_m_coefficient((i, j), o.v);
            t.m.add(i, j, o.v);
        }
        What::R => {
            s.add_rhs_val(i, o.v);
            t.r[i] += o.v;
        }
    }
}

fn solves(s: &System, t: &Ref, what: &str) -> Result<Vec<f64>, Fail> {
    let n = t.k.r;
    ensure!(s.dofs() == n, "{}: {} unknowns instead of {}", what, s.dofs(), n);
    let want = solve(&t.k, &t.r).ok_or_else(|| String::from("reference: singular"))?;
    let close = |x: &[f64], tol: f64, how: &str| -> Result<(), Fail> {
        ensure!(x.len() == n && vdist(x, &want) <= tol * vnorm(&want) + 1e-300, "{}, {}: {:?}, expected {:?}", what, how, x, want);
        Ok(())
    };
    let x = DenseGaussSolver::new(s.clone()).solve().map_err(|_| format!("{}: dense solver refused", what))?;
    close(&x, 1e-9, "dense")?;
    let y = CholeskyEnvelopeSolver::new(s.clone()).solve().map_err(|_| format!("{}: Cholesky solver refused", what))?;
    close(&y, 1e-9, "Cholesky")?;
    // the reordered system is the same problem
    let mut q = s.clone();
    q.reduce_envelope();
    let z = DenseGaussSolver::new(q.clone()).solve().map_err(|_| format!("{}: dense solver refused the reordered system", what))?;
    close(&z, 1e-9, "reordered, dense")?;
    // relaxation stops on a step of one thousandth: good enough where it is clearly dominant
    let dominance = (0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| t.k.at(i, j).abs()).sum::<f64>() / t.k.at(i, i)).fold(0.0, f64::max);
    if dominance < 0.5 {
        let g = GaussSeidelSolver::new(q).solve().map_err(|_| format!("{}: relaxation refused the reordered system", what))?;
        close(&g, 0.03, "reordered, relaxation")?;
        let g = GaussSeidelSolver::new(s.clone()).solve().map_err(|_| format!("{}: relaxation refused", what))?;
        close(&g, 0.03, "relaxation")?;
    }
    // the reported envelopes hold the matrix, and nothing beyond what was ever set
    for (i, e) in s.k_envelope().enumerate() {
        let least = (0..=i).find(|&j| t.k.at(i, j) != 0.0).map_or(1, |j| i + 1 - j);
        let most = (0..=i).find(|&j| t.touched[i * n + j]).map_or(1, |j| i + 1 - j);
        ensure!(e >= least && e <= most, "{}: envelope of row {} is {}, expected {}..{}", what, i, e, least, most);
    }
    Ok(x)
}

fn modes(s: &System, t: &Ref, what: &str) -> Result<(), Fail> {
    let (vals, _) = gen_eigen(&t.k, &t.m).ok_or_else(|| String::from("reference: mass not definite"))?;
    let n = t.k.r;
    let mut d = DeterminantSearcher::new(EigenSystem::new(s.clone()));
    let pairs = d.find_eigens(n);
    ensure!(pairs.len() == n, "{}: {} pairs of {}", what, pairs.len(), n);
    pairs_hold(&pairs, &vals, &t.k, &t.m, what)
}

fn check(c: &Case) -> Result<Info, Fail> {
    let n = c.n;
    let same = |i: usize| i;
    let zero = Ref { k: Tab::new(n, n), m: Tab::new(n, n), r: vec![0.0; n], touched: vec![false; n * n] };
    let (mut a, mut ta) = (System::new(n), zero.clone());
    for o in &c.ops[..c.fork] {
        apply(&mut a, &mut ta, o, &same);
    }
    let (mut b, mut tb) = (a.clone(), ta.clone());
    for o in &c.ops[c.fork..] {
        if o.to != 2 {
            apply(&mut a, &mut ta, o, &same);
        }
        if o.to != 1 {
            apply(&mut b, &mut tb, o, &same);
        }
    }
    let (x, _) = if c.copy_first {
        let y = solves(&b, &tb, "copy")?;
        (solves(&a, &ta, "original")?, y)
    } else {
        let x = solves(&a, &ta, "original")?;
        (x, solves(&b, &tb, "copy")?)
    };
    modes(&a, &ta, "original")?;
    modes(&b, &tb, "copy")?;
    // all at once
    let r = LinearMatrix::from_flat((n, 1), ta.r.clone());
    let all = System::from_kr(&ta.k.linear(), &r);
    let mut whole = ta.clone();
    whole.touched = ta.k.v.iter().map(|x| *x != 0.0).collect();
    solves(&all, &whole, "from matrices")?;
    modes(&System::from_km(&dict_of(&ta.k), &ta.m.linear()), &whole, "from matrices")?;
    // renumbered: the same calls in the reverse order on other unknowns
    let at = |i: usize| c.order[i];
    let (mut p, mut tp) = (System::new(n), zero);
    for (k, o) in c.ops.iter().enumerate().rev() {
        if k < c.fork || o.to != 2 {
            apply(&mut p, &mut tp, o, &at);
        }
    }
    let px = solves(&p, &tp, "renumbered")?;
    for i in 0..n {
        ensure!((px[at(i)] - x[i]).abs() <= 1e-9 * vnorm(&x) + 1e-300, "unknown {} is {}, renumbered to {} it is {}", i, x[i], at(i), px[at(i)]);
    }
    modes(&p, &tp, "renumbered")?;
    let forked = c.ops[c.fork..].iter().any(|o| o.to != 0);
    ok_tags(n > 2 && c.order.windows(2).any(|w| w[0] > w[1]), vec![if forked { "copies diverge" } else { "copies agree" }, if components(&ta.k) > 1 { "disconnected" } else { "connected" }])
}

/// matrices offered as a system: the shapes of the stiffness, the mass and the right-hand side
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Offer {
    k: Tab,
    m: Tab,
    r: Tab,
    out: usize,
}

fn strat_offered() -> BoxedStrategy<Offer> {
    let near = |n: usize| prop_oneof![3 => Just(n), 1 => 1usize..7];
    (1usize..7)
        .prop_flat_map(move |n| (near(n), near(n), near(n), near(n), near(n), prop_oneof![3 => Just(1usize), 1 => 0usize..4], 0usize..4))
        .prop_flat_map(|(a, b, c, d, e, f, out)| (table(a, b, real()), table(c, d, real()), table(e, f, real()), Just(out)))
        .prop_map(|(k, m, r, out)| Offer { k, m, r, out })
        .boxed()
}

fn check_offered(c: &Offer) -> Result<Info, Fail> {
    let n = c.k.r;
    let kr = attempt(|| System::from_kr(&c.k.linear(), &c.r.linear()));
    let fits = c.k.c == n && c.r.r == n && c.r.c == 1;
    ensure!(kr.is_ok() == fits, "a {}x{} stiffness with a {}x{} right-hand side was {}", n, c.k.c, c.r.r, c.r.c, if fits { "refused" } else { "accepted" });
    let km = attempt(|| System::from_km(&c.k.linear(), &c.m.linear()));
    let square = c.k.c == n && c.m.r == c.m.c;
    if !square {
        ensure!(km.is_err(), "a {}x{} stiffness with a {}x{} mass was accepted", n, c.k.c, c.m.r, c.m.c);
    } else if c.m.r == n {
        ensure!(km.is_ok(), "a stiffness and a mass of {} unknowns were refused", n);
    }
    let mut s = System::new(n);
    let at = n + c.out;
    ensure!(refuses(|| s.clone().add_k_coefficient((at, 0), 1.0)) && refuses(|| s.clone().add_k_coefficient((0, at), 1.0)), "a stiffness coefficient of unknown {} of {}", at, n);
    ensure!(refuses(|| s.clone().add_m_coefficient((at, 0), 1.0)) && refuses(|| s.clone().add_m_coefficient((0, at), 1.0)), "a mass coefficient of unknown {} of {}", at, n);
    ensure!(refuses(|| s.clone().add_rhs_val(at, 1.0)), "a right-hand side of unknown {} of {}", at, n);
    ensure!(refuses(|| s.clone().reduce_envelope()), "a system with no stiffness was reordered");
    for i in 0..n {
        s.add_k_coefficient((i, i), 2.0);
    }
    ensure!(refuses(|| DenseGaussSolver::new(s.clone()).solve()), "a system with no right-hand side was solved");
    ensure!(refuses(|| s.m_envelope().count()), "a system with no mass reported its envelope");
    s.reduce_envelope();
    ensure!(refuses(|| s.clone().reduce_envelope()), "a system was reordered twice");
    ok_tags(!fits, vec![if fits { "fits" } else { "refused" }])
}

pub fn property() -> Property {
    Property {
        id: "C10",
        families: vec![
            Box::new(Family {
                name: "offered",
                rule: "a stiffness, a mass and a right-hand side of shapes that may not fit, coefficients of unknowns that are not there, systems with a part missing. Non-trivial: the shapes do not fit",
                quick: 40_000,
                thorough: 1_200_000,
                strategy: strat_offered,
                check: check_offered,
            }),
            Box::new(Family {
                name: "assembly-large",
                rule: "as the small histories, of 9..24 unknowns. Non-trivial as there",
                quick: 600,
                thorough: 18000,
                strategy: strat_large,
                check: check,
            }),
            Box::new(Family {
            name: "assembly",
            rule: "assembly histories: every coefficient split into parts, parts shuffled, a copy made part way, the two extended separately, the unknowns renumbered; stiffness, mass and right-hand side in units of any power of two. Non-trivial: more than two unknowns and a renumbering that is not the identity",
            quick: 160_000,
            thorough: 4_800_000,
            strategy: strat,
            check,
        })],
        assumptions: vec!["systems are symmetric positive definite and diagonally dominant, with a mass pattern inside the stiffness pattern"],
    }
}
