//! C06: every linear solver returns the solution of the system it was given.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{Dictionary, Inverse, LinearMatrix, MatrixLike};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    a: Tab,
    b: Vec<f64>,
    /// how the system is put together
    how: u8,
}

fn rhs(n: usize) -> BoxedStrategy<Vec<f64>> {
    prop_oneof![6 => prop::collection::vec(prop_oneof![3 => real(), 1 => Just(0.0)], n), 1 => Just(vec![0.0; n]),
        1 => (0..n, real()).prop_map(move |(i, x)| (0..n).map(|j| if i == j { x } else { 0.0 }).collect::<Vec<_>>())]
    .boxed()
}

pub fn system(a: &Tab, b: &[f64], how: u8) -> System {
    let n = a.r;
    let r = LinearMatrix::from_flat((n, 1), b.to_vec());
    match how % 4 {
        0 => System::from_kr(&a.linear(), &r),
        1 => System::from_kr(&dict_of(a), &r),
        2 => {
            let mut m = a.t().linear();
            m.transpose();
            System::from_kr(&m, &Dictionary::from_flat((n, 1), b.to_vec()))
        }
        _ => {
            let mut s = System::new(n);
            for i in (0..n).rev() {
                for j in 0..n {
                    if a.at(i, j) != 0.0 {
                        s.add_k_coefficient((i, j), a.at(i, j) * 0.5);
                        s.add_k_coefficient((i, j), a.at(i, j) * 0.5);
                    }
                }
                s.add_rhs_val(i, b[i]);
            }
            s
        }
    }
}

/// the matrix and the right-hand side at very different scales, which is exact
fn scaled(s: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    (s, exponent(250), exponent(250))
        .prop_map(|(c, e, f)| Case { a: c.a.scale(pow2(e)), b: c.b.iter().map(|x| x * pow2(f)).collect(), how: c.how })
        .boxed()
}

fn satisfied(a: &Tab, x: &[f64], b: &[f64], tol: f64, what: &str) -> Result<(), Fail> {
    ensure!(x.len() == b.len(), "{}: {} unknowns for {} equations", what, x.len(), b.len());
    let r = a.mulv(x);
    let res = vdist(&r, b);
    let size = a.norm() * vnorm(x) + vnorm(b);
    ensure!(res <= tol * size, "{}: residual {:e} against {:e}; x = {:?}", what, res, size, x);
    if b.iter().all(|v| *v == 0.0) {
        ensure!(x.iter().all(|v| *v == 0.0), "{}: a zero right-hand side gave {:?}", what, x);
    }
    Ok(())
}

// ------------------------------------------------------------ dense elimination

fn strat_dense() -> BoxedStrategy<Case> {
    scaled(dense(dims(9)))
}

fn strat_dense_large() -> BoxedStrategy<Case> {
    scaled(dense(large(10, 40)))
}

fn dense(dim: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    dim
        .prop_flat_map(|n| {
            let any_mat = prop_oneof![
                3 => table(n, n, (-1.0f64..1.0).boxed()),
                2 => sparse_table(n, n, 50, quarter()),
                2 => sparse_table(n, n, 30, (-4i32..=0).prop_map(|x| x as f64).boxed()),
                2 => (dominant(n, false), Just((0..n).collect::<Vec<_>>()).prop_shuffle()).prop_map(|(t, p)| {
                    // rows shuffled: the big entries are off the diagonal
                    let mut s = Tab::new(t.r, t.c);
                    for i in 0..t.r { for j in 0..t.c { s.set(p[i], j, t.at(i, j)); } }
                    s
                }),
                1 => (table(n, n, (-1.0f64..1.0).boxed()), prop::collection::vec(-6i32..6, n)).prop_map(|(mut t, e)| {
                    // rows of very different size
                    for i in 0..t.r { for j in 0..t.c { let x = t.at(i, j) * 10f64.powi(e[i] / 2); t.set(i, j, x); } }
                    t
                }),
            ];
            (any_mat, rhs(n), 0u8..8)
        })
        .prop_map(|(a, b, how)| Case { a, b, how })
        .boxed()
}

fn check_dense(c: &Case) -> Result<Info, Fail> {
    let n = c.a.r;
    let k = cond(&c.a);
    if !(k < 1e9) {
        // singular to working precision: any result or an error will do, except where it is certain
        let empty_col = (0..n).any(|j| (0..n).all(|i| c.a.at(i, j) == 0.0));
        let empty_row = (0..n).any(|i| (0..n).all(|j| c.a.at(i, j) == 0.0));
        if empty_col || empty_row {
            let r = c.a.linear().solve_gausselim(LinearMatrix::from_flat((n, 1), c.b.clone()));
            ensure!(r.is_err(), "an answer for a singular matrix: {:?}", r.map(|x| Tab::of(&x).v));
            let s = DenseGaussSolver::new(system(&c.a.plus(&Tab::new(n, n)), &c.b, 0));
            ensure!(s.solve().is_err(), "the solver answered for a singular matrix");
            return ok_tags(false, vec!["no pivot"]);
        }
        return ok_tags(false, vec!["singular or nearly"]);
    }
    let tol = 1e-13 * n as f64 * (1u64 << n.min(10)) as f64;
    let mut m = c.a.linear();
    let x = match m.solve_gausselim(LinearMatrix::from_flat((n, 1), c.b.clone())) {
        Ok(x) => x,
        Err(e) => return Err(format!("elimination refused a non-singular matrix (condition {:e}): {}", k, e).into()),
    };
    ensure!(x.shape() == (n, 1), "solution of shape {:?}", x.shape());
    satisfied(&c.a, &Tab::of(&x).v, &c.b, tol, "elimination")?;
    let mut mt = c.a.t().linear();
    mt.transpose();
    let x = mt.solve_gausselim(LinearMatrix::col_vec(c.b.clone())).map_err(|e| e.to_string())?;
    satisfied(&c.a, &Tab::of(&x).v, &c.b, tol, "elimination of a transposed layout")?;
    let x = DenseGaussSolver::new(system(&c.a, &c.b, c.how)).solve();
    match x {
        Ok(x) => satisfied(&c.a, &x, &c.b, tol, "dense solver")?,
        Err(()) => return Err(String::from("the dense solver refused a non-singular system").into()),
    }
    // shapes that are no system are reported, not computed
    ensure!(c.a.linear().solve_gausselim(LinearMatrix::zeros((n + 1, 1))).is_err(), "a right-hand side of another length was accepted");
    ensure!(c.a.linear().solve_gausselim(LinearMatrix::zeros((n, 2))).is_err(), "a right-hand side of two columns was accepted");
    ensure!(LinearMatrix::zeros((n, n + 1)).solve_gausselim(LinearMatrix::zeros((n, 1))).is_err(), "a non-square matrix was accepted");
    let lead0 = n > 1 && c.a.at(0, 0) == 0.0;
    let neg = n > 1 && (0..n).all(|i| c.a.at(i, 0) <= 0.0);
    ok_tags(n > 1, vec![if lead0 { "zero leading entry" } else if neg { "no positive leading entry" } else { "ordinary" }])
}

// ------------------------------------------------------------ Cholesky

fn strat_spd() -> BoxedStrategy<Case> {
    definite(spd(14))
}

fn strat_spd_large() -> BoxedStrategy<Case> {
    definite(spd_of(large(15, 60)))
}

fn definite(a: BoxedStrategy<Tab>) -> BoxedStrategy<Case> {
    scaled(a.prop_flat_map(|a| { let n = a.r; (Just(a), rhs(n), 0u8..8) }).prop_map(|(a, b, how)| Case { a, b, how }).boxed())
}

fn check_spd(c: &Case) -> Result<Info, Fail> {
    let n = c.a.r;
    let sys = system(&c.a, &c.b, c.how);
    let x = match CholeskyEnvelopeSolver::new(sys.clone()).solve() {
        Ok(x) => x,
        Err(()) => return Err(String::from("the Cholesky solver refused a positive definite system").into()),
    };
    satisfied(&c.a, &x, &c.b, 1e-12, "Cholesky solver")?;
    let y = DenseGaussSolver::new(sys).solve().map_err(|_| String::from("the dense solver refused a positive definite system"))?;
    satisfied(&c.a, &y, &c.b, 1e-13 * (1u64 << n.min(14)) as f64, "dense solver")?;
    let k = cond(&c.a);
    ensure!(vdist(&x, &y) <= 1e-11 * k * (vnorm(&x) + vnorm(&y)), "the direct solvers disagree: {:?} and {:?}", x, y);
    let parts = components(&c.a);
    ok_tags(n > 2, vec![if parts > 1 { "disconnected" } else { "connected" }])
}

// ------------------------------------------------------------ relaxation

fn strat_relax() -> BoxedStrategy<Case> {
    scaled(relax(dims(12)))
}

fn strat_relax_large() -> BoxedStrategy<Case> {
    scaled(relax(large(13, 60)))
}

fn relax(dim: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    dim
        .prop_flat_map(|n| (dominant(n, true), prop::collection::vec(2.6f64..6.0, n), rhs(n), 0u8..8))
        .prop_map(|(mut a, f, b, how)| {
            // strong dominance: rows sum to at most 0.385 of the diagonal
            for i in 0..a.r {
                let s: f64 = (0..a.r).filter(|&j| j != i).map(|j| a.at(i, j).abs()).sum();
                let d = if s > 0.0 { s * f[i] } else { f[i] };
                a.set(i, i, d);
            }
            Case { a, b, how }
        })
        .boxed()
}

fn check_relax(c: &Case) -> Result<Info, Fail> {
    let sys = system(&c.a, &c.b, c.how);
    let x = match GaussSeidelSolver::new(sys.clone()).solve() {
        Ok(x) => x,
        Err(()) => return Err(String::from("the relaxation solver refused a strongly dominant system").into()),
    };
    let y = DenseGaussSolver::new(sys).solve().map_err(|_| String::from("the dense solver refused a dominant system"))?;
    ensure!(x.len() == y.len(), "the solvers return {} and {} unknowns", x.len(), y.len());
    // each sweep at least contracts by 0.3 + 1.3 * 0.385 = 0.8 in the largest entry,
    // so the greatest entry of the error is at most four times that of the last move
    ensure!(vdist(&x, &y) <= 0.005 * (c.b.len() as f64).sqrt() * vnorm(&y), "relaxation gives {:?}, elimination {:?}", x, y);
    if c.b.iter().all(|v| *v == 0.0) {
        ensure!(x.iter().all(|v| *v == 0.0), "relaxation: a zero right-hand side gave {:?}", x);
    }
    let tag = if c.b.iter().all(|v| *v == 0.0) { "zero right-hand side" } else { "loaded" };
    ok_tags(c.a.r > 2, vec![tag])
}

/// chains, trees and grids of springs held in a few places only
fn strat_slow() -> BoxedStrategy<Case> {
    let net = (2usize..80, 0u8..3, any::<u64>()).prop_flat_map(|(n, kind, seed)| {
        (Just(n), Just(kind), Just(seed), prop::collection::vec(prop_oneof![2 => Just(1.0), 1 => 0.3f64..3.0], 2 * n), prop::collection::vec((0..n, 0.01f64..2.0), 1..4), any::<bool>(), rhs(n), 0u8..8)
    });
    scaled(
        net.prop_map(|(n, kind, seed, w, held, signs, b, how)| {
            let mut a = Tab::new(n, n);
            let wide = 2 + (seed % 7) as usize;
            let mut join = |i: usize, j: usize, w: f64| {
                let s = if signs && (i + j) % 3 == 0 { w } else { -w };
                a.set(i, j, s);
                a.set(j, i, s);
                for k in [i, j] {
                    let d = a.at(k, k);
                    a.set(k, k, d + w);
                }
            };
            for i in 1..n {
                match kind {
                    0 => join(i - 1, i, w[i]),
                    1 => join((seed.rotate_left(7 * i as u32) % i as u64) as usize, i, w[i]),
                    _ => {
                        if i % wide != 0 {
                            join(i - 1, i, w[i]);
                        }
                        if i >= wide {
                            join(i - wide, i, w[n + i]);
                        }
                    }
                }
            }
            for (k, s) in held {
                let d = a.at(k, k);
                a.set(k, k, d + s);
            }
            Case { a, b, how }
        })
        .boxed(),
    )
}

/// the rounds of over-relaxation by 1.3 until one moves the solution by no more than a thousandth
fn rounds(a: &Tab, b: &[f64], most: usize) -> Option<usize> {
    let n = a.r;
    let mut u = vec![0.0; n];
    for round in 0..most {
        let old = u.clone();
        for i in 0..n {
            let s: f64 = (0..n).map(|j| a.at(i, j) * u[j]).sum();
            u[i] += 1.3 * (b[i] - s) / a.at(i, i);
        }
        if vdist(&u, &old) <= 0.001 * vnorm(&u) {
            return Some(round);
        }
    }
    None
}

fn check_slow(c: &Case) -> Result<Info, Fail> {
    let Some(n) = rounds(&c.a, &c.b, 180) else { return ok_tags(false, vec!["over 180 rounds"]) };
    let x = match GaussSeidelSolver::new(system(&c.a, &c.b, c.how)).solve() {
        Ok(x) => x,
        Err(()) => return Err(String::from("the relaxation solver refused a definite system").into()),
    };
    ensure!(x.len() == c.b.len(), "{} unknowns for {} equations", x.len(), c.b.len());
    // the residual a round leaves is ((1/1.3 - 1) D - U) times its move
    let m = c.a.r;
    let diag = (0..m).map(|i| c.a.at(i, i).abs()).fold(0.0, f64::max);
    let off = (0..m).map(|i| (0..m).filter(|j| *j != i).map(|j| c.a.at(i, j).abs()).sum::<f64>()).fold(0.0, f64::max);
    let res = vdist(&c.a.mulv(&x), &c.b);
    ensure!(res <= 0.001 * (0.25 * diag + off) * vnorm(&x), "after {} rounds a residual of {:e} for x = {:?}", n, res, x);
    ok_tags(n > 20, vec![if n > 60 { "over 60 rounds" } else { "up to 60 rounds" }])
}

fn strat_dense_hundreds() -> BoxedStrategy<Case> {
    scaled(dense((257usize..=320).boxed()))
}

fn strat_spd_hundreds() -> BoxedStrategy<Case> {
    definite(spd_of((257usize..=320).boxed()))
}

fn strat_relax_hundreds() -> BoxedStrategy<Case> {
    scaled(relax((257usize..=320).boxed()))
}

pub fn property() -> Property {
    Property {
        id: "C06",
        families: vec![
            Box::new(Family {
                name: "relaxation-slow",
                rule: "chains, trees and grids of springs held in few places, solved by relaxation with over 20 rounds; those that take over 180 are not judged",
                quick: 20_000,
                thorough: 800_000,
                strategy: strat_slow,
                check: check_slow,
            }),
            Box::new(Family {
                name: "relaxation-hundreds",
                rule: "as relaxation, of 257..320. Non-trivial: all",
                quick: 40,
                thorough: 1200,
                strategy: strat_relax_hundreds,
                check: check_relax,
            }),
            Box::new(Family {
                name: "definite-hundreds",
                rule: "as definite, of 257..320. Non-trivial: all",
                quick: 40,
                thorough: 1200,
                strategy: strat_spd_hundreds,
                check: check_spd,
            }),
            Box::new(Family {
                name: "dense-hundreds",
                rule: "as dense, of 257..320. Non-trivial: judged",
                quick: 40,
                thorough: 1200,
                strategy: strat_dense_hundreds,
                check: check_dense,
            }),
            Box::new(Family {
                name: "dense-large",
                rule: "as dense, of 10..40. Non-trivial: judged",
                quick: 20000,
                thorough: 600000,
                strategy: strat_dense_large,
                check: check_dense,
            }),
            Box::new(Family {
                name: "definite-large",
                rule: "as definite, of 15..60. Non-trivial: all",
                quick: 8000,
                thorough: 240000,
                strategy: strat_spd_large,
                check: check_spd,
            }),
            Box::new(Family {
                name: "relaxation-large",
                rule: "as relaxation, of 13..60. Non-trivial: all",
                quick: 8000,
                thorough: 240000,
                strategy: strat_relax_large,
                check: check_relax,
            }),
            Box::new(Family {
                name: "dense",
                rule: "general, sparse, non-positive, row-shuffled and badly scaled matrices of 1..9 with any right-hand side; judged only below condition 1e9 (or when a row or column is empty). Non-trivial: judged, dimension above 1",
                quick: 900_000,
                thorough: 27_000_000,
                strategy: strat_dense,
                check: check_dense,
            }),
            Box::new(Family {
                name: "definite",
                rule: "symmetric positive definite of 1..14 with any pattern, four ways of assembling. Non-trivial: dimension above 2",
                quick: 360_000,
                thorough: 10_800_000,
                strategy: strat_spd,
                check: check_spd,
            }),
            Box::new(Family {
                name: "relaxation",
                rule: "symmetric, strongly diagonally dominant of 1..12 with any pattern. Non-trivial: dimension above 2",
                quick: 360_000,
                thorough: 10_800_000,
                strategy: strat_relax,
                check: check_relax,
            }),
        ],
        assumptions: vec![
            "the relaxation solver stops when a sweep moves the iterate by less than 0.1%, so it is held to 0.5% times the square root of the dimension on matrices where that bounds its error",
            "systems above condition 1e9 are not judged",
        ],
    }
}
