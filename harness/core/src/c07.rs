//! C07: determinants against exact integer arithmetic, inverses against the identity.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::{ConstMatrix, Inverse, LinearMatrix, MatrixLike};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DetCase {
    a: Vec<Vec<i64>>,
    b: Vec<Vec<i64>>,
    i: usize,
    j: usize,
    how: u8,
    /// every entry times this power of two
    e: i32,
}

fn ints_large(n: usize) -> BoxedStrategy<Vec<Vec<i64>>> {
    prop::collection::vec(prop::collection::vec(prop_oneof![2 => -1i64..=1, 2 => Just(0)], n), n).boxed()
}

fn ints(n: usize) -> BoxedStrategy<Vec<Vec<i64>>> {
    let cell = prop_oneof![3 => -9i64..=9, 2 => Just(0i64), 1 => -1i64..=1];
    let m = prop::collection::vec(prop::collection::vec(cell, n), n);
    (m, 0u8..12, 0..n, 0..n)
        .prop_map(move |(mut m, special, i, j)| {
            match special {
                0 => m[i] = vec![0; n],
                1 => (0..n).for_each(|r| m[r][j] = 0),
                2 if i != j => m[i] = m[j].clone(),
                3 => m[0][0] = 0,
                4 => (0..n).for_each(|r| (0..r).for_each(|c| m[r][c] = 0)),
                _ => (),
            }
            m
        })
        .boxed()
}

fn strat_det() -> BoxedStrategy<DetCase> {
    (1usize..8).prop_flat_map(|n| (ints(n), ints(n), 0..n, 0..n, 0u8..4, exponent(80))).prop_map(|(a, b, i, j, how, e)| DetCase { a, b, i, j, how, e }).boxed()
}

fn strat_det_large() -> BoxedStrategy<DetCase> {
    (8usize..=14).prop_flat_map(|n| (ints_large(n), ints_large(n), 0..n, 0..n, 0u8..4, exponent(60))).prop_map(|(a, b, i, j, how, e)| DetCase { a, b, i, j, how, e }).boxed()
}

fn tab(a: &[Vec<i64>]) -> Tab {
    Tab { r: a.len(), c: a.len(), v: a.iter().flatten().map(|&x| x as f64).collect() }
}

fn det(a: &[Vec<i64>], how: u8, e: i32) -> Result<f64, ()> {
    let t = tab(a).scale(pow2(e));
    let n = a.len();
    match (how, n) {
        (1, _) => {
            let mut m = t.t().linear();
            m.transpose();
            m.determinant()
        }
        (2, 2) => ConstMatrix::<4>::from_flat((2, 2), t.v.clone()).determinant(),
        (2, 3) => ConstMatrix::<9>::from_flat((3, 3), t.v.clone()).determinant(),
        (2, 4) => ConstMatrix::<16>::from_flat((4, 4), t.v.clone()).determinant(),
        (2, _) => dict_of(&t).determinant(),
        (3, _) => t.linear().det_lu_pivot(),
        _ => t.linear().determinant(),
    }
    .map_err(|_| ())
}

/// greatest value a determinant with these rows can have
fn hadamard(a: &[Vec<i64>]) -> f64 {
    a.iter().map(|r| r.iter().map(|&x| (x * x) as f64).sum::<f64>().sqrt().max(1.0)).product()
}

fn is_det(a: &[Vec<i64>], how: u8, e: i32, what: &str) -> Result<(i128, Option<f64>), Fail> {
    let exact = det_exact(a);
    let n = a.len();
    let tol = 1e-13 * (1u64 << n) as f64 * hadamard(a);
    let got = det(a, how, e).map(|d| d * pow2(-e * n as i32));
    match got {
        Ok(d) => {
            ensure!((d - exact as f64).abs() <= tol, "{}: determinant {} of {:?}, exactly {}", what, d, a, exact);
            let empty = a.iter().any(|r| r.iter().all(|&x| x == 0)) || (0..n).any(|j| a.iter().all(|r| r[j] == 0));
            if empty {
                ensure!(d == 0.0, "{}: determinant {} of {:?}, which has an empty row or column", what, d, a);
            }
            Ok((exact, Some(d)))
        }
        Err(()) => {
            ensure!(exact == 0, "{}: no determinant for {:?}, exactly {}", what, a, exact);
            Ok((exact, None))
        }
    }
}

fn check_det(c: &DetCase) -> Result<Info, Fail> {
    let n = c.a.len();
    let (ea, _) = is_det(&c.a, c.how, c.e, "as given")?;
    let (eb, _) = is_det(&c.b, c.how, c.e, "second")?;
    // product
    let prod: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| c.a[i][k] * c.b[k][j]).sum()).collect()).collect();
    if n <= 5 {
        let (ep, _) = is_det(&prod, c.how, c.e, "product")?;
        ensure!(ep == ea * eb, "reference determinant is not multiplicative");
    }
    // exchange
    if c.i != c.j {
        let mut s = c.a.clone();
        s.swap(c.i, c.j);
        let (es, _) = is_det(&s, c.how, c.e, "rows exchanged")?;
        ensure!(es == -ea, "reference determinant does not change sign");
    }
    // transpose
    let t: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| c.a[j][i]).collect()).collect();
    is_det(&t, c.how, c.e, "transposed")?;
    // without pivoting, where no pivot vanishes
    let mut dom = c.a.clone();
    for i in 0..n {
        let s: i64 = c.a[i].iter().map(|x| x.abs()).sum();
        dom[i][i] = if c.a[i][i] < 0 { -s - 1 } else { s + 1 };
    }
    let d = tab(&dom).linear().det_lu();
    let e = det_exact(&dom) as f64;
    ensure!((d - e).abs() <= 1e-12 * (1u64 << n) as f64 * e.abs(), "det_lu = {} of {:?}, exactly {}", d, dom, e);
    ensure!(LinearMatrix::zeros((n, n + 1)).determinant().is_err(), "a determinant of a non-square matrix");
    let m = c.a.linear_before();
    let l = tab(&c.a).linear();
    let _ = l.determinant();
    ensure!(Tab::of(&l) == m, "taking the determinant changed the matrix");
    ok_tags(n > 2 && ea != 0, vec![if ea == 0 { "singular" } else if c.a[0][0] == 0 { "zero leading entry" } else { "regular" }])
}

trait Before {
    fn linear_before(&self) -> Tab;
}
impl Before for Vec<Vec<i64>> {
    fn linear_before(&self) -> Tab {
        tab(self)
    }
}

// ------------------------------------------------------------ inverse

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct InvCase {
    a: Tab,
    how: u8,
}

fn strat_inv() -> BoxedStrategy<InvCase> {
    inv_cases((1usize..9).boxed())
}

fn strat_inv_large() -> BoxedStrategy<InvCase> {
    inv_cases(large(9, 30))
}

fn inv_cases(dim: BoxedStrategy<usize>) -> BoxedStrategy<InvCase> {
    dim
        .prop_flat_map(|n| {
            let m = prop_oneof![
                2 => table(n, n, (-1.0f64..1.0).boxed()),
                2 => sparse_table(n, n, 50, quarter()),
                1 => dominant(n, false),
                2 => (dominant(n, false), Just((0..n).collect::<Vec<_>>()).prop_shuffle()).prop_map(|(t, p)| {
                    let mut s = Tab::new(t.r, t.c);
                    for i in 0..t.r { for j in 0..t.c { s.set(p[i], j, t.at(i, j)); } }
                    s
                }),
            ];
            (m, 0u8..3, exponent(250))
        })
        .prop_map(|(a, how, e)| InvCase { a: a.scale(pow2(e)), how })
        .boxed()
}

fn inverse_of(t: &Tab, how: u8) -> Tab {
    match (how, t.r) {
        (1, 1) => Tab::of(&ConstMatrix::<1>::from_flat((1, 1), t.v.clone()).inverse()),
        (1, 2) => Tab::of(&ConstMatrix::<4>::from_flat((2, 2), t.v.clone()).inverse()),
        (1, 3) => Tab::of(&ConstMatrix::<9>::from_flat((3, 3), t.v.clone()).inverse()),
        (1, 4) => Tab::of(&ConstMatrix::<16>::from_flat((4, 4), t.v.clone()).inverse()),
        (2, _) => {
            let mut m = t.t().linear();
            m.transpose();
            Tab::of(&m.inverse())
        }
        _ => Tab::of(&t.linear().inverse()),
    }
}

fn is_inverse(a: &Tab, x: &Tab, k: f64, what: &str) -> Result<(), Fail> {
    let n = a.r;
    ensure!((x.r, x.c) == (n, n), "{} of shape {}x{}", what, x.r, x.c);
    let tol = 1e-13 * n as f64 * (1u64 << n.min(10)) as f64 * k;
    let d = a.mul(x).sub(&Tab::eye(n)).maxabs();
    ensure!(d <= tol, "{}: A X differs from the identity by {:e} (condition {:e}) for {:?}", what, d, k, a.v);
    let d = x.mul(a).sub(&Tab::eye(n)).maxabs();
    ensure!(d <= tol, "{}: X A differs from the identity by {:e} (condition {:e}) for {:?}", what, d, k, a.v);
    Ok(())
}

fn check_inv(c: &InvCase) -> Result<Info, Fail> {
    let n = c.a.r;
    let k = cond(&c.a);
    if !(k < 1e7) {
        return ok_tags(false, vec!["ill-conditioned"]);
    }
    is_inverse(&c.a, &inverse_of(&c.a, c.how), k, "inverse")?;
    // plain substitution inverse, where elimination needs no exchange
    let mut dom = c.a.clone();
    for i in 0..n {
        let s: f64 = (0..n).filter(|&j| j != i).map(|j| c.a.at(i, j).abs()).sum();
        let d = s + c.a.maxabs();
        dom.set(i, i, if c.a.at(i, i) < 0.0 { -d } else { d });
    }
    is_inverse(&dom, &Tab::of(&dom.linear().inv_lu()), cond(&dom), "inv_lu")?;
    let lead0 = n > 1 && c.a.at(0, 0) == 0.0;
    ok_tags(n > 1, vec![if lead0 { "zero leading entry" } else { "regular" }])
}

pub fn property() -> Property {
    Property {
        id: "C07",
        families: vec![
            Box::new(Family {
                name: "determinants",
                rule: "integer matrices of 1..7 with entries -9..9, some with empty or repeated rows or columns or a zero corner; also their product, transpose and a row exchange. Non-trivial: dimension above 2 and non-singular",
                quick: 1_200_000,
                thorough: 36_000_000,
                strategy: strat_det,
                check: check_det,
            }),
            Box::new(Family {
                name: "determinants-large",
                rule: "entries -1, 0, 1 of 8..14. Non-trivial: non-zero determinant",
                quick: 60000,
                thorough: 1800000,
                strategy: strat_det_large,
                check: check_det,
            }),
            Box::new(Family {
                name: "inverses-large",
                rule: "as inverses, of 9..30. Non-trivial: judged",
                quick: 15000,
                thorough: 450000,
                strategy: strat_inv_large,
                check: check_inv,
            }),
            Box::new(Family {
                name: "inverses",
                rule: "matrices of 1..8, general, sparse, dominant and row-shuffled dominant; judged below condition 1e7. Non-trivial: judged, dimension above 1",
                quick: 960_000,
                thorough: 28_800_000,
                strategy: strat_inv,
                check: check_inv,
            }),
        ],
        assumptions: vec!["determinants are compared with exact integer arithmetic", "inverses above condition 1e7 are not judged"],
    }
}
